---------------------------- MODULE FiltersTrace -----------------------------
(* Results of real filtered strategies: e.vals the values (sequence, id = index), e.base the ids the base has, e.steps, *)
(* e.results the ids generated, e.cover the ids that must be generated if they can be.                                *)
EXTENDS Filters, TLC, Json, IOUtils
VARIABLES t, l, bad
Traces == JsonDeserialize(IOEnv.TRACES)
vars == <<t, l, bad>>
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
Verdict(e) ==
  LET F == Flow(Range(e.base), e.steps, 1, e.vals) IN
  IF e.errors # <<>> THEN "NoInternalErrors"
  ELSE IF ~(Range(e.results) \subseteq F) THEN "OnlySatisfyingValues"
  ELSE IF ~(Range(e.cover) \cap F \subseteq Range(e.results)) THEN "EverySatisfyingValue"
  ELSE IF e.empty = 1 /\ F # {} THEN "EmptyOnlyIfImpossible" ELSE ""
Next == /\ l <= Len(Traces[t].ev) /\ bad' = Verdict(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
