------------------------------ MODULE CacheTrace ------------------------------
(* Recorded cache histories.  Event [op, k, v, out, res, keys, ev, evv, evs]: what the call returned (out "ok" or the
   exception, res the value got), the keys held afterwards and, if the class reports it, the evicted key, value
   and score.                                                                                               *)
EXTENDS Cache, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, c, bad
vars == <<t, l, c, bad>>
Range(s) == {s[i] : i \in DOMAIN s}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ c = <<>> /\ bad = ""
T == Traces[t]
N(e) == NewScore(T.policy, l, T.tab, e.k)
U(e) == UsedScore(T.policy, l, T.tab, e.k)
Outcomes(e) ==
  CASE e.op = "set"   -> Store(c, T.max, e.k, e.v, N(e), U(e))
    [] e.op = "pin"   -> Pin(c, T.max, e.k, e.v, N(e), U(e))
    [] e.op = "unpin" -> {[ev |-> ""] @@ Unpin(c, e.k)}
    [] e.op = "get"   -> {[ev |-> ""] @@ Get(c, e.k, U(e))}
    [] e.op = "clear" -> {[c |-> <<>>, out |-> "ok", ev |-> ""]}
    [] OTHER          -> {[c |-> c, out |-> "ok", ev |-> ""]}
Keys(e) == Range(e.keys)
Fits(e, r) == r.out = e.out /\ DOMAIN r.c = Keys(e)
EvictionTold(e, r) == ~T.tells \/ (e.ev = r.ev /\ (r.ev # "" => e.evv = c[r.ev].v /\ (T.policy = "custom" => e.evs = c[r.ev].s)))
Verdict(e) ==
  IF Len(e.keys) > T.max \/ e.len # Len(e.keys) \/ Cardinality(Keys(e)) # Len(e.keys) THEN "AtMostMaxSize"
  ELSE IF e.op = "get" /\ e.k \in DOMAIN c /\ (e.out # "ok" \/ e.res # c[e.k].v) THEN "LookupReturnsLastStored"
  ELSE IF e.op = "has" THEN IF e.res # (IF e.k \in DOMAIN c THEN 1 ELSE 0) THEN "LookupReturnsLastStored" ELSE ""
  ELSE IF e.op = "ispinned" /\ e.k \in DOMAIN c THEN IF e.res # (IF c[e.k].p > 0 THEN 1 ELSE 0) THEN "PinsAreCounted" ELSE ""
  ELSE IF e.op # "clear" /\ \E k \in DOMAIN c : c[k].p > 0 /\ k \notin Keys(e) THEN "PinnedNeverEvicted"
  ELSE IF \E r \in Outcomes(e) : Fits(e, r) /\ EvictionTold(e, r) THEN ""
  ELSE IF \E r \in Outcomes(e) : Fits(e, r) THEN "EvictionReported"
  ELSE IF \E r \in Outcomes(e) : r.out # e.out THEN "RefusedExactlyWhenAllPinned"
  ELSE "EvictsTheRightEntry"
Next == /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] good == {r \in Outcomes(e) : Fits(e, r)} IN
           /\ bad' = Verdict(e)
           /\ c' = IF good # {} THEN (CHOOSE r \in good : TRUE).c ELSE [k \in Keys(e) \cap DOMAIN c |-> c[k]]
        /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(T.ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
