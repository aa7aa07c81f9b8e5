------------------------------- MODULE Randoms -------------------------------
(* Random objects.  The state of an object is where it started (a fresh start, or a seed) and the calls made since; *)
(* a call's result is a function of state and call alone.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Start(root) == [root |-> root, calls |-> <<>>]
After(s, key) == [s EXCEPT !.calls = Append(@, key)]

Range(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* What a standard random generator accepts and may return.  Arguments are whole numbers or sequences of them; *)
(* a real result x is given as its floor and ceiling.                                                       *)
RealMethods == {"random", "betavariate", "uniform", "triangular", "weibullvariate", "gammavariate", "gauss", "normalvariate",
                "vonmisesvariate", "paretovariate", "expovariate", "lognormvariate"}
InSteps(a, v) == IF a.step > 0 THEN a.start <= v /\ v < a.stop /\ (v - a.start) % a.step = 0
                 ELSE a.stop < v /\ v <= a.start /\ (a.start - v) % (-a.step) = 0
Valid(m, a) ==
  CASE m = "randint" -> a.a <= a.b
    [] m = "randrange" -> a.step # 0 /\ (IF a.step > 0 THEN a.start < a.stop ELSE a.stop < a.start)
    [] m = "choice" -> Len(a.seq) > 0
    [] m = "choices" -> Len(a.population) > 0 /\ (a.weights # <<>> => Sum(a.weights, Len(a.weights)) > 0)
    [] m = "sample" -> a.k >= 0 /\ a.k <= (IF a.counts = <<>> THEN Len(a.population) ELSE Sum(a.counts, Len(a.counts)))
    [] m = "_randbelow" -> a.n > 0
    [] m \in {"getrandbits", "randbytes", "binomialvariate"} -> a.n >= 0
    [] OTHER -> TRUE
RealOk(m, a, lo, hi) ==
  CASE m = "random" -> lo = 0
    [] m = "betavariate" -> lo >= 0 /\ hi <= 1
    [] m = "uniform" -> lo >= Min2(a.a, a.b) /\ hi <= Max2(a.a, a.b)
    [] m = "triangular" -> lo >= Min2(a.low, a.high) /\ hi <= Max2(a.low, a.high)
    [] m = "vonmisesvariate" -> lo >= 0 /\ lo <= 6
    [] m = "paretovariate" -> lo >= 1
    [] m = "expovariate" -> IF a.lambd < 0 THEN hi <= 0 ELSE lo >= 0
    [] m \in {"weibullvariate", "gammavariate", "lognormvariate"} -> lo >= 0
    [] OTHER -> TRUE
Clause(m, a, r) ==
  CASE m \in RealMethods -> IF RealOk(m, a, r[1], r[2]) THEN "" ELSE "InRange"
    [] m = "randint" -> IF a.a <= r[1] /\ r[1] <= a.b THEN "" ELSE "InRange"
    [] m = "randrange" -> IF InSteps(a, r[1]) THEN "" ELSE "InRange"
    [] m = "_randbelow" -> IF 0 <= r[1] /\ r[1] < a.n THEN "" ELSE "InRange"
    [] m = "getrandbits" -> IF 0 <= r[1] /\ r[1] < Pow2(a.n) THEN "" ELSE "InRange"
    [] m = "binomialvariate" -> IF 0 <= r[1] /\ r[1] <= a.n THEN "" ELSE "InRange"
    [] m = "randbytes" -> IF Len(r) # a.n THEN "RequestedLength" ELSE ""
    [] m = "choice" -> IF r[1] \in Range(a.seq) THEN "" ELSE "FromThePopulation"
    [] m = "choices" ->
         IF Len(r) # a.k THEN "RequestedLength"
         ELSE IF \E x \in Range(r) : ~\E i \in DOMAIN a.population : a.population[i] = x /\ (a.weights = <<>> \/ a.weights[i] > 0)
         THEN "FromThePopulation" ELSE ""
    [] m = "sample" ->
         IF Len(r) # a.k THEN "RequestedLength"
         ELSE IF \E x \in Range(r) : x \notin Range(a.population) THEN "FromThePopulation"
         ELSE IF \E x \in Range(r) : Count(r, x) >
              (IF a.counts = <<>> THEN Count(a.population, x)
               ELSE Sum([i \in DOMAIN a.population |-> IF a.population[i] = x THEN a.counts[i] ELSE 0], Len(a.population)))
         THEN "NoRepeats" ELSE ""
    [] m = "shuffle" -> IF Len(r) = Len(a.x) /\ \A x \in Range(r) \cup Range(a.x) : Count(r, x) = Count(a.x, x) THEN "" ELSE "ShuffleOnlyPermutes"
    [] OTHER -> "UnknownMethod"
==============================================================================
