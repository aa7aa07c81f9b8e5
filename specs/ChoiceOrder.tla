----------------------------- MODULE ChoiceOrder -----------------------------
(* The order of the permitted values of a choice by simplicity, and its numbering from zero.          *)
(* An index is the number of permitted values that are strictly simpler.                              *)
EXTENDS Integers, Sequences, FiniteSets
None == -999999
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

(* ---- integers: lo, hi may be None; closer to the target first, above before below *)
IntOk(c, v) == (c.lo = None \/ v >= c.lo) /\ (c.hi = None \/ v <= c.hi)
Target(c) == LET s == IF c.lo = None THEN c.st ELSE Max2(c.lo, c.st) IN IF c.hi = None THEN s ELSE Min2(c.hi, s)
IntSimpler(c, v, w) == LET a == Target(c) IN Abs(v - a) < Abs(w - a) \/ (Abs(v - a) = Abs(w - a) /\ v > w)
IntIndex(c, v) ==
  LET a == Target(c) d == Abs(v - a)
      up == IF c.hi = None THEN d ELSE c.hi - a
      down == IF c.lo = None THEN d ELSE a - c.lo
  IN IF d = 0 THEN 0
     ELSE 1 + Min2(d - 1, up) + Min2(d - 1, down) + (IF v < a /\ d <= up THEN 1 ELSE 0)
IntCount(c) == IF c.lo = None \/ c.hi = None THEN None ELSE c.hi - c.lo + 1

(* ---- booleans: can = the values with non-negligible probability; c.can \in {"both","false","true"} *)
BoolIndex(c, v) == IF c.can = "both" /\ v = 1 THEN 1 ELSE 0
BoolOk(c, v) == c.can = "both" \/ v = (IF c.can = "true" THEN 1 ELSE 0)
BoolCount(c) == IF c.can = "both" THEN 2 ELSE 1

(* ---- sequences over an alphabet of n letters, written as their ranks: shorter first, then lexicographic *)
RECURSIVE Pow(_, _)
Pow(n, k) == IF k = 0 THEN 1 ELSE n * Pow(n, k - 1)
RECURSIVE SumPow(_, _, _)
SumPow(n, a, b) == IF a > b THEN 0 ELSE Pow(n, a) + SumPow(n, a + 1, b)
RECURSIVE Number(_, _, _)
Number(n, v, k) == IF k = 0 THEN 0 ELSE n * Number(n, v, k - 1) + v[k]
SeqOk(c, v) == Len(v) >= c.min /\ Len(v) <= c.max /\ \A i \in DOMAIN v : v[i] >= 0 /\ v[i] < c.n
SeqSimpler(v, w) == Len(v) < Len(w) \/ (Len(v) = Len(w) /\ \E i \in DOMAIN v : v[i] < w[i] /\ \A j \in 1 .. (i - 1) : v[j] = w[j])
SeqIndex(c, v) == SumPow(c.n, c.min, Len(v) - 1) + Number(c.n, v, Len(v))
SeqCount(c) == IF c.n = 0 THEN 1 ELSE SumPow(c.n, c.min, c.max)

(* ---- floats as bits <<sign, exponent..., mantissa...>>, most significant first; E exponent and M mantissa bits, *)
(* integers below 2^W are the simple ones.  FloatIndex gives sign, tag and payload as bits.                     *)
RECURSIVE Num(_, _)
Num(b, k) == IF k = 0 THEN 0 ELSE 2 * Num(b, k - 1) + b[k]
Bits(n, k) == [i \in 1 .. k |-> (n \div Pow(2, k - i)) % 2]
Reverse(b) == [i \in DOMAIN b |-> b[Len(b) + 1 - i]]
Zeros(k) == [i \in 1 .. k |-> 0]
Bias(E) == Pow(2, E - 1) - 1
ExpOf(f, E) == Num(SubSeq(f, 2, 1 + E), E)
ManOf(f, E) == SubSeq(f, 2 + E, Len(f))
FracBits(e, E, M) == LET u == e - Bias(E) IN IF u <= 0 THEN M ELSE IF u >= M THEN 0 ELSE M - u
IsIntegral(f, E, M) == LET e == ExpOf(f, E) m == ManOf(f, E) u == e - Bias(E) IN
   \/ e = 0 /\ m = Zeros(M)
   \/ u >= 0 /\ e < Pow(2, E) - 1 /\ \A i \in 1 .. M : i > u => m[i] = 0
IsSimple(f, E, M, W) == LET e == ExpOf(f, E) IN IsIntegral(f, E, M) /\ e - Bias(E) < W
IntBits(f, E, M, W) ==     \* the value of a simple float, in W bits
   LET e == ExpOf(f, E) u == e - Bias(E) s == <<1>> \o ManOf(f, E) IN
   IF e = 0 THEN Zeros(W) ELSE [i \in 1 .. W |-> LET j == i - (W - u) + 1 IN IF j >= 1 /\ j <= M + 1 THEN s[j] ELSE 0]
ExpRank(e, E) == IF e = Pow(2, E) - 1 THEN e
   ELSE IF e >= Bias(E) THEN e - Bias(E) ELSE (Pow(2, E) - 2 - Bias(E)) + (Bias(E) - e)
ManRank(m, k) == LET n == Len(m) IN SubSeq(m, 1, n - k) \o Reverse(SubSeq(m, n - k + 1, n))
FloatIndex(f, E, M, W) == <<f[1]>> \o
   IF IsSimple(f, E, M, W) THEN Zeros(1 + E + M - W) \o IntBits(f, E, M, W)
   ELSE <<1>> \o Bits(ExpRank(ExpOf(f, E), E), E) \o ManRank(ManOf(f, E), FracBits(ExpOf(f, E), E, M))

(* ---- which floats are permitted; floats given by ordinal: 0, 1, 2... from +0 upwards and -1, -2... from -0 down *)
Magnitude(o) == IF o >= 0 THEN o ELSE -1 - o
FloatOk(c, o) == c.lo <= o /\ o <= c.hi /\ (Magnitude(o) = 0 \/ Magnitude(o) >= c.snm)
==============================================================================
