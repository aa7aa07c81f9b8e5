-------------------------- MODULE StatefulReprTrace --------------------------
(* Steps printed for failing machines next to the calls of the failing run and of the executed program.  Events:               *)
(*   step [kind (new, call, inv, down), p (printed), s (run), x (program)]; kinds and functions in p, s and x as [kind, f];      *)
(*   end [error, xerror, count, pcount, xcount]                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad, env, used
S == INSTANCE StatefulRepr
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
vars == <<t, l, bad, env, used>>
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = "" /\ env = <<>> /\ used = {}
Value(n) == env[CHOOSE i \in DOMAIN env : env[i][1] = n][2]
Defined == {env[i][1] : i \in DOMAIN env}
P == Ev.p
R == Ev.s
X == Ev.x
Given == S!Assigned(P, R.vals, R.many)
Verdict ==
  CASE Ev.op = "step" ->
         IF P.kind # R.kind \/ P.f # R.f THEN "PrintedStepsAreTheCallsMade"
         ELSE IF ~S!NoDup(P.names) \/ S!Range(P.names) \cap used # {} THEN "NamesAssignedOnce"
         ELSE IF ~(S!Range(P.refs) \subseteq Defined) THEN "NamesDefinedBeforeUse"
         ELSE IF \E i \in DOMAIN P.pairs : Value(P.pairs[i][1]) # P.pairs[i][2] THEN "NamesDenoteTheValues"
         ELSE IF P.unnamed > 0 THEN "BundleValuesAreNamed"
         ELSE IF R.raised = 0 /\ Len(P.names) # S!Wanted(R) THEN "EveryValueIsNamed"
         ELSE IF R.raised = 0 /\ R.nt > 1 /\ Len(R.vals) > 1 /\ Len(Given) # Len(P.names) THEN "MultipleToSeveralTargets"
         ELSE IF R.raised = 0 /\ Len(Given) # Len(P.names) THEN "AssignmentMatchesResult"
         ELSE IF X.kind # R.kind \/ X.f # R.f THEN "ProgramMakesTheSameCalls"
         ELSE IF X.args # R.args THEN "ProgramPassesTheSameArguments"
         ELSE IF X.vals # R.vals THEN "ProgramGetsTheSameResults" ELSE ""
    [] Ev.op = "end" -> IF Ev.count # Ev.pcount THEN "PrintedStepsAreTheCallsMade"
                        ELSE IF Ev.last # "down" THEN "TeardownLast"
                        ELSE IF Ev.count # Ev.xcount THEN "ProgramMakesTheSameCalls"
                        ELSE IF Ev.error # Ev.xerror THEN "ProgramFailsTheSameWay" ELSE ""
    [] OTHER -> "InternalError"
(* names of a result that goes to several targets: value by value, target by target                                            *)
New == IF R.raised = 1 \/ Len(P.names) # S!Wanted(R) THEN <<>>
       ELSE [i \in DOMAIN P.names |-> <<P.names[i], R.vals[1 + ((i - 1) \div R.nt)]>>]
Next ==
  /\ l <= Len(Traces[t].ev) /\ bad' = Verdict /\ l' = l + 1 /\ UNCHANGED t
  /\ used' = IF Ev.op = "step" THEN used \cup S!Range(P.names) ELSE used
  /\ env' = IF Ev.op = "step" THEN env \o New ELSE env
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
