----------------------------- MODULE ReproTrace -----------------------------
(* Runs of tests in several processes: what is the same by definition (key: the test, how it is seeded, what is saved before it) and what  *)
(* is observed: the examples in order, the result, what is reported, what is saved after it.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad, mem
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
vars == <<t, l, bad, mem>>
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ mem = [k \in {} |-> 0]
C(p, name) == IF p THEN {} ELSE {name}
Seen == [calls |-> Ev.calls, result |-> Ev.result, report |-> Ev.report, after |-> Ev.after]
Min(a, b) == IF a < b THEN a ELSE b
Common(a, b) == \A i \in 1 .. Min(Len(a), Len(b)) : a[i] = b[i]
Next == /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ UNCHANGED t
        /\ IF Ev.key \notin DOMAIN mem THEN mem' = (Ev.key :> Seen) @@ mem /\ bad' = {}
           ELSE LET m == mem[Ev.key] IN
                /\ UNCHANGED mem
                /\ bad' = C(Common(m.calls, Ev.calls), "E09:SameExamples") \cup C(Len(m.calls) = Len(Ev.calls), "E09:SameNumberOfExamples") \cup C(m.result = Ev.result, "E09:SameResult")
                          \cup C(m.report = Ev.report, "E09:SameReport") \cup C(m.after = Ev.after, "E09:SameSaved")
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
