---------------------------- MODULE MCChoiceOrder ----------------------------
(* On small domains, every numbering is a bijection onto an initial segment and agrees with the declared order. *)
EXTENDS ChoiceOrder, TLC
CONSTANTS R, E, M, W
VARIABLE c
IntC == {[kind |-> "int", lo |-> a, hi |-> b, st |-> s] : a \in (-R .. R) \cup {None}, b \in (-R .. R) \cup {None}, s \in (-R - 1) .. (R + 1)}
SeqC == {[kind |-> "seq", n |-> n, min |-> a, max |-> b] : n \in 0 .. 3, a \in 0 .. 3, b \in 0 .. 3}
Init == c \in {x \in IntC : x.lo = None \/ x.hi = None \/ x.lo <= x.hi} \cup {x \in SeqC : x.min <= x.max /\ (x.n = 0 => x.min = 0)}
             \cup {[kind |-> "float"]}
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Universe == {v \in (-3 * R) .. (3 * R) : IntOk(c, v)}
IntGood == c.kind = "int" =>
   /\ \A v \in {u \in Universe : c.lo # None \/ c.hi # None \/ Abs(u - c.st) <= R} : (Abs(v - Target(c)) <= R) =>
        IntIndex(c, v) = Cardinality({w \in Universe : IntSimpler(c, w, v)})
   /\ (c.lo # None /\ c.hi # None) => {IntIndex(c, v) : v \in Universe} = 0 .. (IntCount(c) - 1)
Words == UNION {[1 .. k -> 0 .. (c.n - 1)] : k \in c.min .. c.max}
SeqGood == c.kind = "seq" =>
   LET ok == {v \in Words : SeqOk(c, v)} IN
   /\ Cardinality(ok) = SeqCount(c)
   /\ \A v \in ok : SeqIndex(c, v) = Cardinality({w \in ok : SeqSimpler(w, v)})
(* floats: one to one; simple ones are the integers and come first, in order; infinities, then NaNs, last *)
Floats == [1 .. (1 + E + M) -> {0, 1}]
Val(b) == Num(b, Len(b))
Fi(f) == Val(FloatIndex(f, E, M, W))
FloatGood == c.kind = "float" =>
   /\ Cardinality({Fi(f) : f \in Floats}) = Cardinality(Floats)
   /\ {Fi(f) : f \in {g \in Floats : IsSimple(g, E, M, W) /\ g[1] = 0 /\ Num(IntBits(g, E, M, W), W) < Pow(2, M + 1)}} = 0 .. (Pow(2, M + 1) - 1)
   /\ \A f, g \in Floats : LET top == Pow(2, E) - 1 IN
        /\ f[1] = 0 /\ g[1] = 1 => Fi(f) < Fi(g)
        /\ (f[1] = g[1] /\ IsSimple(f, E, M, W) /\ ~IsSimple(g, E, M, W)) => Fi(f) < Fi(g)
        /\ (f[1] = g[1] /\ ExpOf(f, E) < top /\ ExpOf(g, E) = top) => Fi(f) < Fi(g)
        \* same exponent, so same integer part: fewer fractional bits first
        /\ (f[1] = g[1] /\ ~IsSimple(f, E, M, W) /\ ~IsSimple(g, E, M, W) /\ ExpOf(f, E) = ExpOf(g, E)) =>
             LET k == FracBits(ExpOf(f, E), E, M)
                 hf == SubSeq(ManOf(f, E), 1, M - k) hg == SubSeq(ManOf(g, E), 1, M - k)
                 den(h) == LET s == {i \in (M - k + 1) .. M : ManOf(h, E)[i] = 1} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
             IN (Val(hf) < Val(hg) \/ (hf = hg /\ den(f) < den(g))) => Fi(f) < Fi(g)
==============================================================================
