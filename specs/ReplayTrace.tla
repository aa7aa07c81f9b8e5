----------------------------- MODULE ReplayTrace -----------------------------
(* Executions of real programs of draws.  e.prefix, e.tmpl (0/1), e.max (<<>> or <<number of choices allowed>>), e.room      *)
(* (bytes allowed), e.draws (records [c, f, x, sz]; the last has x = <<>> if it was stopped), e.nodes (what was recorded),   *)
(* e.status, e.body (how the body meant to end: the status if all its draws return), e.again (1: the prefix is what the     *)
(* previous event recorded), e.val (text of the value), e.errors.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad
R == INSTANCE Replay
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
vars == <<t, l, bad>>
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
RECURSIVE SizeTo(_, _)
SizeTo(d, n) == IF n = 0 THEN 0 ELSE d[n].sz + SizeTo(d, n - 1)
SizeOf(d, n) == SizeTo(d, n)
Stopped(e) == e.draws # <<>> /\ e.draws[Len(e.draws)].x = <<>>
Full(e, n) == (e.max # <<>> /\ n >= e.max[1])              \* n choices are there already
Returned(e) == {i \in DOMAIN e.draws : e.draws[i].x # <<>>}
BadDraw(e) == {i \in Returned(e) : ~R!DrawOk(e.prefix, e.tmpl, i, e.draws[i].c, e.draws[i].f, e.draws[i].x[1])}
Verdict(e, p) ==
  IF e.errors # <<>> THEN "NoInternalError"
  ELSE IF \E i \in Returned(e) : e.draws[i].f = <<>> /\ ~R!Permitted(e.draws[i].c, e.draws[i].x[1]) THEN "AlwaysPermitted"
  ELSE IF BadDraw(e) # {} THEN LET i == R!MinOf(BadDraw(e)) IN R!ReplayClause(e.prefix, e.tmpl, i, e.draws[i].c, e.draws[i].f)
  ELSE IF \E i \in Returned(e) : Full(e, i - 1) \/ SizeOf(e.draws, i) > e.room THEN "OverrunWhenExceeded"
  ELSE IF Stopped(e) /\ ~(LET n == Len(e.draws) IN Full(e, n - 1) \/ SizeOf(e.draws, n - 1) >= e.room \/ SizeOf(e.draws, n) > e.room) THEN "OverrunOnlyWhenExceeded"
  ELSE IF e.nodes # [i \in 1 .. Cardinality(Returned(e)) |-> e.draws[i].x[1]] THEN "NodesRecordTheDraws"
  ELSE IF e.status # (IF Stopped(e) THEN "OVERRUN" ELSE e.body) THEN "SameStatus"
  ELSE IF e.again = 1 /\ (e.prefix # p.nodes \/ e.nodes # p.nodes \/ e.status # p.status \/ e.val # p.val) THEN "ReplayIsExact" ELSE ""
Next == /\ l <= Len(Traces[t].ev) /\ bad' = Verdict(Ev, IF l > 1 THEN Traces[t].ev[l - 1] ELSE Ev) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
