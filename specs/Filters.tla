------------------------------- MODULE Filters -------------------------------
(* What a chain of maps and filters may generate, and when tightening bounds instead of testing is right.       *)
(* A value v: id, r its numeric rank (or length), n = 1 if it is not a number.  A step maps or filters by a term. *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Holds(_, _)
Holds(p, v) ==
  CASE p.op = "tab" -> v.id \in Range(p.t)
    [] p.op = "and" -> \A i \in DOMAIN p.ps : Holds(p.ps[i], v)
    [] p.op = "or"  -> \E i \in DOMAIN p.ps : Holds(p.ps[i], v)
    [] p.op = "not" -> ~Holds(p.ps[1], v)
    [] p.op = "ne"  -> v.n = 1 \/ v.r # p.a
    [] p.op = "lt" -> v.n = 0 /\ v.r < p.a
    [] p.op = "le" -> v.n = 0 /\ v.r <= p.a
    [] p.op = "eq" -> v.n = 0 /\ v.r = p.a
    [] p.op = "ge" -> v.n = 0 /\ v.r >= p.a
    [] p.op = "gt" -> v.n = 0 /\ v.r > p.a
Step(p, S, V) == IF p.op = "map" THEN {m[2] : m \in {q \in Range(p.t) : q[1] \in S}} ELSE {i \in S : Holds(p, V[i])}
RECURSIVE Flow(_, _, _, _)
Flow(S, steps, k, V) == IF k > Len(steps) THEN S ELSE Flow(Step(steps[k], S, V), steps, k + 1, V)

(* Rewriting: an interval [lo, hi] and predicates still to be tested, against the plain chain *)
Bounds(p) ==   \* the interval an atomic comparison means on integers
  CASE p.op = "lt" -> [lo |-> -99, hi |-> p.a - 1] [] p.op = "le" -> [lo |-> -99, hi |-> p.a]
    [] p.op = "eq" -> [lo |-> p.a, hi |-> p.a]     [] p.op = "ge" -> [lo |-> p.a, hi |-> 99] [] p.op = "gt" -> [lo |-> p.a + 1, hi |-> 99]
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Meet(a, b) == [lo |-> Max2(a.lo, b.lo), hi |-> Min2(a.hi, b.hi)]
RECURSIVE Rewrite(_)   \* [b: bounds, keep: whether the predicate must still be tested]
Rewrite(p) ==
  CASE p.op \in {"lt", "le", "eq", "ge", "gt"} -> [b |-> Bounds(p), keep |-> FALSE]
    [] p.op = "and" -> LET x == Rewrite(p.ps[1])  y == Rewrite(p.ps[2]) IN [b |-> Meet(x.b, y.b), keep |-> x.keep \/ y.keep]
    [] OTHER -> [b |-> [lo |-> -99, hi |-> 99], keep |-> TRUE]
==============================================================================
