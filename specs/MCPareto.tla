------------------------------ MODULE MCPareto ------------------------------
(* Adding examples in any order, with every choice of what is compared.  The invariants hold for every set of N examples.                *)
EXTENDS Pareto, TLC, Json
CONSTANTS N, L, Scores, Fails, Tags
Kinds == {[st |-> 2, org |-> 0]} \cup {[st |-> 3, org |-> o] : o \in 1 .. Fails}
Element(i, k, s1, s2, g) == [key |-> i, st |-> k.st, org |-> k.org, tags |-> g, sc |-> <<s1, s2>>]
Universes == {[i \in 1 .. N |-> Element(i, f[i][1], f[i][2], f[i][3], f[i][4])] : f \in [1 .. N -> Kinds \X Scores \X Scores \X Tags]}
VARIABLES u, front, seen, most, run
vars == <<u, front, seen, most, run>>
Idle == [pc |-> "idle"]
Init == u \in Universes /\ front = {} /\ seen = {} /\ most = 0 /\ run = Idle
Max(a, b) == IF a > b THEN a ELSE b
Add(d) == /\ run.pc = "idle" /\ seen' = seen \cup {d} /\ UNCHANGED u
          /\ IF d.key \in Keys(front) THEN UNCHANGED <<front, most, run>>
             ELSE IF front = {} THEN front' = {d} /\ most' = Max(most, 1) /\ UNCHANGED run
             ELSE /\ front' = front \cup {d} /\ most' = Max(most, Cardinality(front) + 1)
                  /\ run' = Init0(d) @@ [right |-> {x \in front : x.key > d.key}, left |-> {x \in front : x.key < d.key} \cup {d}]
Right == /\ run.pc = "right" /\ UNCHANGED <<u, front, seen, most>>
         /\ IF run.right = {} \/ run.fails >= L THEN run' = [run EXCEPT !.pc = "left"]
            ELSE \E c \in run.right :
                   run' = [run EXCEPT !.right = @ \ {c}, !.fails = IF Dominates(run.d, c) THEN 0 ELSE @ + 1, !.rem = IF Dominates(run.d, c) THEN @ \cup {c} ELSE @]
Left == /\ run.pc = "left" /\ UNCHANGED <<u, seen, most>>
        /\ IF run.left = {} \/ Len(run.dom) >= L THEN front' = front \ run.rem /\ run' = Idle
           ELSE /\ UNCHANGED front
                /\ \E c \in run.left : LET w == Walk(c, run.dom, 1, FALSE, run.rem) IN run' = [run EXCEPT !.left = @ \ {c}, !.dom = w.dom, !.rem = w.rem]
(* the next runs replaces what it shrinks by something better                                                                            *)
Next == (\E i \in 1 .. N : Add(u[i])) \/ Right \/ Left
Spec == Init /\ [][Next]_vars
NothingLost == run.pc = "idle" => Covered(seen, front)
OnlySeen == front \subseteq seen
Exact == run.pc = "idle" /\ most <= L => front = Best(seen)
(* what is certain when more are kept: an example that has just been added isn't dominated by one of the few it was compared with ...      *)
Order == \A i, j, k \in 1 .. N : Dominates(u[i], u[j]) /\ Dominates(u[j], u[k]) => Dominates(u[i], u[k])
==============================================================================
