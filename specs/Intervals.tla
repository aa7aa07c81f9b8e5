------------------------------ MODULE Intervals ------------------------------
(* Sets of code points as sorted, disjoint, merged intervals: s is a sequence of <<lo, hi>>. *)
EXTENDS Integers, Sequences, FiniteSets
In(s, p) == \E i \in DOMAIN s : s[i][1] <= p /\ p <= s[i][2]
Canonical(s) == /\ \A i \in DOMAIN s : s[i][1] <= s[i][2]
                /\ \A i \in 1 .. (Len(s) - 1) : s[i][2] + 1 < s[i + 1][1]
RECURSIVE SizeTo(_, _)
SizeTo(s, n) == IF n = 0 THEN 0 ELSE s[n][2] - s[n][1] + 1 + SizeTo(s, n - 1)
Size(s) == SizeTo(s, Len(s))
RECURSIVE BelowTo(_, _, _)
BelowTo(s, p, n) == IF n = 0 THEN 0
   ELSE LET v == s[n] IN
        (IF v[1] >= p THEN 0 ELSE (IF v[2] < p THEN v[2] ELSE p - 1) - v[1] + 1) + BelowTo(s, p, n - 1)
Below(s, p) == BelowTo(s, p, Len(s))      \* how many members are smaller than p
(* Between two neighbouring end points nothing changes, so these points decide equality of two sets. *)
Critical(ss) == UNION {UNION {{ss[j][i][1] - 1, ss[j][i][1], ss[j][i][2], ss[j][i][2] + 1} : i \in DOMAIN ss[j]} : j \in DOMAIN ss}
Op(op, a, b) == CASE op = "or" -> a \/ b [] op = "and" -> a /\ b [] OTHER -> a /\ ~b

(* simplicity order: from zero upwards to the first member from Z on, then downwards from zero, then the rest *)
Zero == 48  Zed == 90
IdxZero(s) == Below(s, Zero)
IdxZ(s) == LET n == Below(s, Zed) IN IF n > Size(s) - 1 THEN Size(s) - 1 ELSE n
RankOf(s, p) == LET i == Below(s, p) z == IdxZero(s) q == IdxZ(s) IN
   IF i >= z /\ i <= q THEN i - z ELSE IF i < z /\ i <= q THEN (q - z) + (z - i) ELSE i
==============================================================================
