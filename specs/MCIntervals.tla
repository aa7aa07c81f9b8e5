----------------------------- MODULE MCIntervals -----------------------------
(* The algebra on every set over a small window of code points around zero and Z, by the same two-pointer
   algorithms a sorted-interval representation allows; checked against plain sets. *)
EXTENDS Intervals, TLC
CONSTANT U
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
RECURSIVE Build(_, _)
Build(seq, acc) == IF seq = <<>> THEN acc
   ELSE LET p == Head(seq) n == Len(acc) IN
        IF n > 0 /\ acc[n][2] + 1 >= p THEN Build(Tail(seq), [acc EXCEPT ![n] = <<@[1], p>>]) ELSE Build(Tail(seq), Append(acc, <<p, p>>))
Of(S) == Build(SortedSeq(S), <<>>)
Members(s) == {p \in U : In(s, p)}
RECURSIVE Inter(_, _)
Inter(x, y) == IF x = <<>> \/ y = <<>> THEN <<>>
   ELSE LET a == Head(x) b == Head(y) IN
        CASE a[1] > b[2] -> Inter(x, Tail(y)) [] b[1] > a[2] -> Inter(Tail(x), y)
          [] OTHER -> << <<IF a[1] > b[1] THEN a[1] ELSE b[1], IF a[2] < b[2] THEN a[2] ELSE b[2]>> >>
                      \o (IF a[2] < b[2] THEN Inter(Tail(x), y) ELSE Inter(x, Tail(y)))
RECURSIVE Diff(_, _)
Diff(x, y) == IF x = <<>> \/ y = <<>> THEN x
   ELSE LET a == Head(x) b == Head(y) IN
        CASE b[2] < a[1] -> Diff(x, Tail(y)) [] b[1] > a[2] -> <<a>> \o Diff(Tail(x), y)
          [] b[1] <= a[1] -> IF b[2] >= a[2] THEN Diff(Tail(x), y) ELSE Diff(<< <<b[2] + 1, a[2]>> >> \o Tail(x), Tail(y))
          [] OTHER -> << <<a[1], b[1] - 1>> >> \o (IF b[2] + 1 <= a[2] THEN Diff(<< <<b[2] + 1, a[2]>> >> \o Tail(x), Tail(y)) ELSE Diff(Tail(x), y))
VARIABLES A, B
Init == A \in SUBSET U /\ B \in SUBSET U
Next == UNCHANGED <<A, B>>
Spec == Init /\ [][Next]_<<A, B>>
Algebra == LET x == Of(A) y == Of(B) IN
   /\ Canonical(x) /\ Members(x) = A /\ Size(x) = Cardinality(A)
   /\ Canonical(Inter(x, y)) /\ Members(Inter(x, y)) = A \cap B
   /\ Canonical(Diff(x, y)) /\ Members(Diff(x, y)) = A \ B
ShrinkOrder == LET x == Of(A) IN
   /\ {RankOf(x, p) : p \in A} = 0 .. (Cardinality(A) - 1)
   /\ (Zero \in A => RankOf(x, Zero) = 0)
   /\ \A p, q \in A : /\ (Zero <= p /\ p < q) => RankOf(x, p) < RankOf(x, q)
                      /\ (p < q /\ q < Zero) => RankOf(x, q) < RankOf(x, p)
                      /\ (p < Zero /\ Zero <= q /\ q <= Zed) => RankOf(x, q) < RankOf(x, p)
==============================================================================
