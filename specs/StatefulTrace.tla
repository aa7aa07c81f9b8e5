---------------------------- MODULE StatefulTrace ----------------------------
(* Calls made on real state machines.  A trace has the definition (m) and the events of one run:                              *)
(*   call [r, args, has, contents]   ret [vals]   raise   inv [i, bad]   teardown   stuck (refused: no rule possible)   over   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad, todo, bundles, n, due, phase, cur
S == INSTANCE Stateful
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
M == Traces[t].m
vars == <<t, l, bad, todo, bundles, n, due, phase, cur>>
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = "" /\ todo = S!Inits(M) /\ bundles = [b \in 1 .. M.nb |-> <<>>] /\ n = 0
        /\ due = S!DueInvs(M, S!Inits(M), 0) /\ phase = "idle" /\ cur = 0
Contents(e, bs) == e.has = 0 \/ \A b \in 1 .. M.nb : S!SameBag(e.contents[b], bs[b])
(* a step whose arguments couldn't be drawn may have taken values from bundles before the run was abandoned                  *)
AtMost(e, bs) == e.has = 0 \/ \A b \in 1 .. M.nb : \A v \in S!Range(e.contents[b]) : S!Count(e.contents[b], v) <= S!Count(bs[b], v)
Verdict ==
  CASE Ev.op = "call" ->
         IF phase # "idle" THEN "NothingAfterFailureOrTeardown"
         ELSE IF due # {} THEN "InvariantsAfterEveryStep"
         ELSE IF (todo # {} /\ Ev.r \notin todo) \/ (todo = {} /\ M.rules[Ev.r].init = 1) THEN "InitializeRulesOnceAndFirst"
         ELSE IF n >= M.steps THEN "StepLimit"
         ELSE IF ~S!Holds(M.rules[Ev.r].pre, n) THEN "PreconditionsHold"
         ELSE IF ~S!ArgsOk(M, bundles, Ev.r, Ev.args) THEN "ArgumentsFromBundles"
         ELSE IF ~Contents(Ev, S!Taken(M, bundles, Ev.r, Ev.args)) THEN "ConsumedValuesAreRemoved" ELSE ""
    [] Ev.op = "ret" -> IF phase # "in" THEN "Order" ELSE ""
    [] Ev.op = "raise" -> ""
    [] Ev.op = "inv" ->
         IF phase \notin {"idle"} THEN "NothingAfterFailureOrTeardown"
         ELSE IF Ev.i \notin due THEN "OnlyEnabledInvariants"
         ELSE IF ~Contents(Ev, bundles) THEN "ResultsGoToTargets" ELSE ""
    [] Ev.op = "teardown" -> IF phase = "down" THEN "TeardownOnce" ELSE IF phase = "idle" /\ due # {} THEN "InvariantsAfterEveryStep"
                             ELSE IF phase # "raised" /\ ~AtMost(Ev, bundles) THEN "ResultsGoToTargets" ELSE ""
    [] Ev.op = "stuck" -> IF todo # {} \/ S!Possible(M, bundles, n) # {} THEN "RefusedOnlyIfNoRulePossible" ELSE ""
    [] Ev.op = "over" -> IF phase # "down" THEN "TeardownOnce" ELSE ""
    [] OTHER -> "InternalError"
Next ==
  /\ l <= Len(Traces[t].ev) /\ bad' = Verdict /\ l' = l + 1 /\ UNCHANGED t
  /\ todo' = IF Ev.op = "call" THEN todo \ {Ev.r} ELSE todo
  /\ bundles' = IF Ev.op = "call" THEN (IF Verdict = "" THEN S!Taken(M, bundles, Ev.r, Ev.args) ELSE bundles)
                ELSE IF Ev.op = "ret" THEN S!Added(M, bundles, cur, Ev.vals) ELSE bundles
  /\ n' = IF Ev.op = "call" THEN n + 1 ELSE n
  /\ cur' = IF Ev.op = "call" THEN Ev.r ELSE cur
  /\ due' = IF Ev.op = "ret" THEN S!DueInvs(M, todo, n) ELSE IF Ev.op = "inv" THEN due \ {Ev.i} ELSE due
  /\ phase' = IF Ev.op = "call" THEN "in" ELSE IF Ev.op = "ret" THEN "idle" ELSE IF Ev.op = "raise" THEN "raised" ELSE IF Ev.op = "inv" /\ Ev.bad = 1 THEN "raised"
              ELSE IF Ev.op = "teardown" THEN "down" ELSE phase
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
