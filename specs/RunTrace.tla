------------------------------- MODULE RunTrace -------------------------------
(* Recorded histories of whole tests (lib/user.py), stepped through Run.tla.  A trace has n, the number of generators, and registered,   *)
(* the set of those that are registered from the start.                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, S, bad
R == INSTANCE Run
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
vars == <<t, l, S, bad>>
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = {}
        /\ S = [frames |-> <<>>, rng |-> Traces[t].start, reg |-> R!Range(Traces[t].registered), live |-> [i \in 1 .. Traces[t].n |-> TRUE], zero |-> [i \in 1 .. Traces[t].n |-> 0], seeded |-> {}]
Next == /\ l <= Len(Traces[t].ev)
        /\ LET r == R!Step(S, Ev) IN S' = r.s /\ bad' = r.bad
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' > Len(Traces[t].ev) => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
===============================================================================
