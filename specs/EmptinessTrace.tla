--------------------------- MODULE EmptinessTrace ----------------------------
(* Answers of real strategies: e.nodes the system, e.empty the answers (1 = empty) of all members in several orders of asking, *)
(* e.tops the leaves that were the whole value of a member.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad
M == INSTANCE Emptiness WITH sys <- 0, start <- 0, mapping <- 0, seen <- 0, needs <- 0, listeners <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
vars == <<t, l, bad>>
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
Range(s) == {s[i] : i \in DOMAIN s}
Verdict(e) ==
  LET NE == M!NonEmpty(e.nodes) IN
  IF e.errors # <<>> THEN "DrawsTerminateWithValueOrRejection"
  ELSE IF \E i \in DOMAIN e.empty : \E n \in DOMAIN e.nodes : e.empty[i][n] # -1 /\ e.empty[i][n] # (IF n \in NE THEN 0 ELSE 1) THEN "EmptyIffNoFiniteDerivation"
  ELSE IF \E i \in DOMAIN e.draws : e.draws[i].n \notin NE /\ e.draws[i].got = 1 THEN "EmptyNeverDrawn"
  ELSE IF \E i \in DOMAIN e.tops : ~(Range(e.tops[i].got) \subseteq M!Tops(e.nodes, {e.tops[i].n}, Len(e.nodes))) THEN "OnlyDerivableAlternatives"
  ELSE IF \E i \in DOMAIN e.tops : ~(M!Tops(e.nodes, {e.tops[i].n}, 1) \subseteq Range(e.tops[i].got)) THEN "NoAlternativeDropped" ELSE ""
Next == /\ l <= Len(Traces[t].ev) /\ bad' = Verdict(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
