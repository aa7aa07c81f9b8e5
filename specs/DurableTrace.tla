----------------------------- MODULE DurableTrace -----------------------------
(* What a directory database promises about its contents when calls are interrupted, disturbed by failing
   file-system calls or overlapped by another process: `must` and `may` bracket what is stored, `pairs` holds the
   moves whose value has to be under at least one of two keys.  Events:
     run    [op, k, k2, v]              a call that ran alone and returned
     snap   [a, got]                    contents seen while (or after) call a was interrupted at some point
     broken [a]                         call a was disturbed or killed: from here on it may or may not have happened
     both   [a, b]                      calls a and b overlapped and both returned
     all    [got]                       the complete contents, seen with nothing running
   got: key -> list of fetched values.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, must, may, pairs, bad
vars == <<t, l, must, may, pairs, bad>>
Range(s) == {s[i] : i \in DOMAIN s}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ must = {} /\ may = {} /\ pairs = {} /\ bad = ""

Adds(a) == CASE a.op = "save" -> {<<a.k, a.v>>} [] a.op = "move" -> {<<a.k2, a.v>>} [] OTHER -> {}
Dels(a) == CASE a.op = "delete" -> {<<a.k, a.v>>} [] a.op = "move" /\ a.k # a.k2 -> {<<a.k, a.v>>} [] OTHER -> {}
Pair(a, have) == IF a.op = "move" /\ <<a.k, a.v>> \in have THEN {{<<a.k, a.v>>, <<a.k2, a.v>>}} ELSE {}
(* adding to a key from which somebody else moves away at the same moment may be in vain *)
Disturbed(a, b) == {x \in Adds(a) : b.op = "move" /\ b.k = x[1]}

Got(e) == UNION {{<<k, e.got[k][i]>> : i \in DOMAIN e.got[k]} : k \in DOMAIN e.got}
Dup(e) == \E k \in DOMAIN e.got : Cardinality(Range(e.got[k])) # Len(e.got[k])
Seen(e, lo, hi, ps, whole) ==
  IF ~(Got(e) \subseteq hi) THEN "OnlySavedValues"
  ELSE IF \E x \in lo : x \notin Got(e) /\ x[1] \in DOMAIN e.got THEN "NothingElseLost"
  ELSE IF Dup(e) THEN "NoDuplicates"
  ELSE IF whole /\ \E p \in ps : p \cap Got(e) = {} THEN "MoveKeepsTheValue" ELSE ""
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l] IN
     CASE e.ev = "run" -> /\ must' = (must \ Dels(e.a)) \cup Adds(e.a) /\ may' = (may \ Dels(e.a)) \cup Adds(e.a)
                          /\ pairs' = {p \in pairs : p \cap Dels(e.a) = {}} /\ bad' = ""
       [] e.ev = "snap" -> /\ bad' = Seen(e, must \ (Dels(e.a) \ Adds(e.a)), may \cup Adds(e.a), pairs \cup Pair(e.a, must), e.whole)
                           /\ UNCHANGED <<must, may, pairs>>
       [] e.ev = "broken" -> /\ must' = must \ Dels(e.a) /\ may' = may \cup Adds(e.a)
                             /\ pairs' = pairs \cup Pair(e.a, must) /\ bad' = ""
       [] e.ev = "both" ->
            LET da == Dels(e.a) da2 == Dels(e.b)
                sure == (Adds(e.a) \ (da2 \cup Disturbed(e.a, e.b))) \cup (Adds(e.b) \ (da \cup Disturbed(e.b, e.a)))
                kill == {x \in must : x \in da \cup da2}
                gone == (da \ Adds(e.b)) \cup (da2 \ Adds(e.a))
            IN /\ must' = (must \ kill) \cup sure
               /\ may' = (may \ gone) \cup Adds(e.a) \cup Adds(e.b)
               /\ pairs' = (IF da2 \cap (Adds(e.a) \cup da) = {} THEN Pair(e.a, must) ELSE {})
                           \cup (IF da \cap (Adds(e.b) \cup da2) = {} THEN Pair(e.b, must) ELSE {})
               /\ bad' = ""
       [] e.ev = "error" -> bad' = "UnexpectedException" /\ UNCHANGED <<must, may, pairs>>
       [] OTHER -> bad' = Seen(e, must, may, pairs, TRUE) /\ UNCHANGED <<must, may, pairs>>
  /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
