------------------------------- MODULE MCFlaky -------------------------------
(* A test that answers differently each time, run by an engine that keeps what every example did before: an answer that contradicts what *)
(* is known ends the run as flaky, except a failing example that passes, which the replay for the report finds out.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxCalls
VARIABLES known, best, calls, result, carried, replayed
vars == <<known, best, calls, result, carried, replayed>>
Ex == {1, 2, 3}
Outs == {"p", "r", "f1", "f2"}
Fails == {"f1", "f2"}
Init == known = [e \in Ex |-> "?"] /\ best = [f \in Fails |-> 0] /\ calls = 0 /\ result = "running" /\ carried = {} /\ replayed = {}
Found == {f \in Fails : best[f] # 0}
Run == /\ result = "running" /\ calls < MaxCalls /\ calls' = calls + 1 /\ replayed' = replayed
       /\ \E e \in Ex : \E o \in Outs :
            IF known[e] \in {"?", o} \/ (known[e] \in Fails /\ o = "p")
            THEN /\ known' = IF known[e] = "?" THEN [known EXCEPT ![e] = o] ELSE known
                 /\ best' = IF o \in Fails /\ (best[o] = 0 \/ e < best[o]) THEN [best EXCEPT ![o] = e] ELSE best
                 /\ UNCHANGED <<result, carried>>
            ELSE /\ result' = "flaky" /\ carried' = {known[e], o} \cap Fails /\ UNCHANGED <<known, best>>
(* the report: every failure's example runs once more                                                                                  *)
Report == /\ result = "running" /\ UNCHANGED <<known, best, calls>>
          /\ IF Found = {} THEN result' = "ok" /\ UNCHANGED <<carried, replayed>>
             ELSE \E again \in [Found -> Outs] :
                  /\ replayed' = {f \in Found : again[f] = f}
                  /\ result' = IF replayed' = Found THEN "fail" ELSE "flaky"
                  /\ carried' = Found
Next == Run \/ Report
Spec == Init /\ [][Next]_vars
NeverClean == result = "ok" => Found = {}
NotPlain == result = "fail" => replayed = Found /\ Found # {}
Carried == result = "flaky" => carried \subseteq Found \cup Fails
==============================================================================
