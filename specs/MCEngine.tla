------------------------------ MODULE MCEngine -------------------------------
(* The engine as steps between which it may be killed: reuse of saved examples, generation, shrinking and the report, with the database  *)
(* written in single operations.  Examples are 1 .. N, simplest first; every way of assigning outcomes to them and every initial         *)
(* database is explored.                                                                                                                 *)
EXTENDS Engine
CONSTANTS N, Origins, MaxCalls
VARIABLES outcome, prim, sec, pc, todo, best, stack, seen, saved, multi, result, first, stale
vars == <<outcome, prim, sec, pc, todo, best, stack, seen, saved, multi, result, first, stale>>
Ex == 1 .. N
IsFail(e) == outcome[e] \in Origins
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Init == /\ outcome \in [Ex -> {"p", "r"} \cup Origins] /\ prim \in SUBSET Ex /\ sec \in SUBSET Ex /\ multi \in BOOLEAN
        /\ pc = "reuse" /\ todo = Sorted(prim) \o Sorted(sec \ prim) /\ best = [o \in Origins |-> 0] /\ stack = <<>> /\ seen = {} /\ saved = {} /\ result = "none"
        /\ first = Cardinality(prim) /\ stale = {}
Found == {o \in Origins : best[o] # 0}
(* what executing e has the engine do to the database: operations still to be made                                                      *)
Writes(e) == IF ~IsFail(e) THEN <<>>
             ELSE LET o == outcome[e] IN
                  IF best[o] = 0 THEN <<<<"save", e>>>> ELSE IF e < best[o] THEN <<<<"down", best[o]>>, <<"save", e>>>> ELSE <<>>
Exec(e, after) == /\ seen' = seen \cup {e}
                  /\ best' = IF IsFail(e) /\ (best[outcome[e]] = 0 \/ e < best[outcome[e]]) THEN [best EXCEPT ![outcome[e]] = e] ELSE best
                  /\ stack' = Writes(e) \o after
(* one database operation                                                                                                               *)
Write == /\ stack # <<>>
         /\ LET w == Head(stack) IN
            /\ stack' = Tail(stack)
            /\ CASE w[1] = "save" -> prim' = prim \cup {w[2]} /\ sec' = sec /\ saved' = saved \cup {outcome[w[2]]}
                 [] w[1] = "down" -> prim' = prim \ {w[2]} /\ sec' = sec \cup {w[2]} /\ saved' = saved
                 [] w[1] = "delp" -> prim' = prim \ {w[2]} /\ sec' = sec /\ saved' = saved
                 [] w[1] = "dels" -> sec' = sec \ {w[2]} /\ prim' = prim /\ saved' = saved
         /\ UNCHANGED <<outcome, pc, todo, best, seen, multi, result, first, stale>>
Idle == stack = <<>>
Reuse == /\ pc = "reuse" /\ Idle
         /\ IF todo = <<>> \/ (Found # {} /\ (~multi \/ first = 0))
            THEN pc' = (IF Found = {} THEN "generate" ELSE "shrink") /\ UNCHANGED <<todo, best, stack, seen, first, stale>>
            ELSE LET e == Head(todo) IN
                 /\ todo' = Tail(todo) /\ pc' = pc /\ first' = Max(0, first - 1)
                 /\ stale' = IF IsFail(e) THEN stale ELSE stale \cup {e}
                 /\ IF e \in seen /\ IsFail(e) THEN UNCHANGED <<best, stack, seen>>
                    ELSE Exec(e, IF IsFail(e) THEN <<>> ELSE <<<<"delp", e>>, <<"dels", e>>>>)
         /\ UNCHANGED <<outcome, prim, sec, saved, multi, result>>
Generate == /\ pc = "generate" /\ Idle
            /\ \/ /\ Found = {} /\ \E e \in Ex \ seen : Exec(e, <<>>) /\ pc' = pc /\ result' = result
               \/ /\ Found # {} /\ multi /\ \E e \in Ex \ seen : Exec(e, <<>>) /\ pc' = pc /\ result' = result
               \/ /\ Found # {} /\ pc' = "shrink" /\ UNCHANGED <<best, stack, seen, result>>
               \/ /\ Found = {} /\ (Ex \subseteq seen \/ Cardinality(seen) >= MaxCalls) /\ pc' = "done" /\ result' = "ok" /\ UNCHANGED <<best, stack, seen>>
            /\ UNCHANGED <<outcome, prim, sec, todo, saved, multi, first, stale>>
MaxBest == CHOOSE m \in {best[o] : o \in Origins} : \A o \in Origins : best[o] <= m
Shrink == /\ pc = "shrink" /\ Idle
          /\ \/ \E e \in sec : e <= MaxBest /\ Exec(e, <<<<"dels", e>>>>) /\ pc' = pc /\ result' = result     \* (smaller secondary examples are tried)
             \/ \E e \in Ex \ seen : e <= MaxBest /\ Exec(e, <<>>) /\ pc' = pc /\ result' = result
             \/ pc' = "done" /\ result' = "fail" /\ UNCHANGED <<best, stack, seen>>
          /\ UNCHANGED <<outcome, prim, sec, todo, saved, multi, first, stale>>
Next == Write \/ Reuse \/ Generate \/ Shrink
Spec == Init /\ [][Next]_vars
Out(e) == outcome[e]
NeverLost == Recoverable(saved, prim \cup sec, Out)
RecordedBeforeNext == Idle => Found \subseteq saved
BestIsSaved == Idle => \A o \in Found : best[o] \in prim
BestIsSimplest == \A o \in Found : \A e \in seen : outcome[e] = o => best[o] <= e
StaleGone == Idle => stale \cap prim = {} /\ \A e \in stale : e \notin sec
EndsRight == /\ (result = "ok" => Found = {}) /\ (result = "fail" => Found # {})
             /\ (result = "ok" /\ MaxCalls >= N => \A e \in Ex : ~IsFail(e))
==============================================================================
