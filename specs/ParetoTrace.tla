----------------------------- MODULE ParetoTrace -----------------------------
(* What was kept after each example that was seen.  A trace has a table of examples (el) and events:                                      *)
(*   add [x, ret, gone (evicted, as announced), front (in order)]     dom [x, y, rel]                                                     *)
(*   start: nothing is kept, nothing was seen     call [x, saved, old]                                                                     *)
EXTENDS Pareto, TLC, Json, IOUtils
VARIABLES t, l, bad, front, seen, most
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
vars == <<t, l, bad, front, seen, most>>
SetOf(s) == {s[i] : i \in DOMAIN s}
El(i) == LET e == Traces[t].el[i] IN [e EXCEPT !.tags = SetOf(@)]
All(s) == {El(i) : i \in s}
C(p, name) == IF p THEN {} ELSE {name}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ front = {} /\ seen = {} /\ most = 0
Valid(i) == Traces[t].el[i].st >= 2
(* the first of several that are the same stays                                                                                          *)
Seen(i) == IF Valid(i) /\ \A j \in seen : El(j).key # El(i).key THEN seen \cup {i} ELSE seen
Limit == 10
Kept(s, F, n) == C(F \subseteq s, "E11:OnlyWhatWasSeen") \cup C(Covered(All(s), All(F)), "E11:NothingBetterIsDropped")
              \cup C(n <= Limit => All(F) = Best(All(s)), "E11:NoneIsDominated")
Next == /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ UNCHANGED t
  /\ CASE Ev.op = "start" -> front' = {} /\ seen' = {} /\ most' = 0 /\ bad' = {}
       [] Ev.op = "dom" -> bad' = C(Ev.rel = Relation(El(Ev.x), El(Ev.y)), "E11:Dominance") /\ UNCHANGED <<front, seen, most>>
       [] Ev.op = "add" ->
            /\ front' = SetOf(Ev.front) /\ seen' = Seen(Ev.x)
            /\ most' = IF Cardinality(front \cup ({Ev.x} \cap seen')) > most THEN Cardinality(front \cup ({Ev.x} \cap seen')) ELSE most
            /\ bad' = C(Len(Ev.front) = Cardinality(front') /\ \A i \in 1 .. Len(Ev.front) - 1 : El(Ev.front[i]).key < El(Ev.front[i + 1]).key, "E11:InOrderWithoutDuplicates")
                      \cup C(Ev.ret = (El(Ev.x).key \in Keys(All(front')) /\ Valid(Ev.x)), "E11:SaysWhetherItIsKept")
                      \cup C(SetOf(Ev.gone) = front \ front' /\ Len(Ev.gone) = Cardinality(SetOf(Ev.gone)), "E11:EvictionsAreAnnounced")
                      \cup C(front' \subseteq front \cup {Ev.x}, "E11:OnlyWhatWasSeen")
                      \cup Kept(seen', front', most')
       [] Ev.op = "call" ->       (* the engine executed x (0: one without a score); saved: what is saved when the next one starts; old: ... before the run *)
            LET F == SetOf(Ev.saved) \cap seen' IN
            /\ seen' = (IF Ev.x = 0 THEN seen ELSE Seen(Ev.x)) /\ UNCHANGED front
            /\ most' = IF Cardinality(F) + 1 > most THEN Cardinality(F) + 1 ELSE most
            /\ bad' = C(SetOf(Ev.saved) \subseteq seen' \cup SetOf(Ev.old), "E11:OnlyWhatWasSeen")
                      \cup C(Covered(All(seen'), All(F)), "E11:NothingBetterIsDropped")
                      \cup C(most' <= Limit => All(F \ SetOf(Ev.old)) \subseteq Best(All(seen')), "E11:NoneIsDominated")
       [] OTHER -> UNCHANGED <<front, seen, most>> /\ bad' = {}
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
