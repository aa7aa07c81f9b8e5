--------------------------- MODULE MCStatefulRepr ----------------------------
(* A run whose rules return values to one or two bundles, printed step by step; `prog` is what the printed program knows.       *)
EXTENDS StatefulRepr
CONSTANT Steps
VARIABLES run, prog, n, fresh, broken
vars == <<run, prog, n, fresh, broken>>
Init == run = <<>> /\ prog = <<>> /\ n = 0 /\ fresh = 1 /\ broken = FALSE
Names(k) == [i \in 1 .. k |-> Len(run) + i]
Shown(s, many) == [names |-> Names(Wanted(s)), form |-> IF Wanted(s) = 0 THEN 0 ELSE IF many = 0 THEN 1 ELSE IF Len(s.vals) = 1 THEN 2 ELSE 3]
Step == \E many \in {0, 1}, nt \in 0 .. 2, k \in 0 .. 2 :
  /\ many = 0 => k = 1
  /\ LET s == [nt |-> nt, vals |-> [i \in 1 .. k |-> fresh + i - 1]]
         p == Shown(s, many)
         g == Assigned(p, s.vals, many)
     IN /\ run' = run \o [i \in DOMAIN p.names |-> <<p.names[i], s.vals[1 + ((i - 1) \div nt)]>>]
        /\ broken' = (broken \/ (nt > 1 /\ k > 1))      (* (printed a_0, b_0, a_1, b_1 = ..., which isn't executable)         *)
        /\ prog' = IF Len(g) # Len(p.names) THEN prog ELSE prog \o [i \in DOMAIN g |-> <<p.names[i], g[i]>>]
        /\ fresh' = fresh + k
  /\ n' = n + 1
Next == n < Steps /\ Step
Spec == Init /\ [][Next]_vars
ProgramKnowsTheValues == broken \/ prog = run
NamesOnce == NoDup([i \in DOMAIN run |-> run[i][1]])
==============================================================================
