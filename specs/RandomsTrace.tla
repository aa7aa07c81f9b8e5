----------------------------- MODULE RandomsTrace ----------------------------
(* Calls recorded from real generated random objects. *)
EXTENDS Randoms, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, saved, memo, bad
vars == <<t, l, st, saved, memo, bad>>
Objs(i) == Range(Traces[i].objs)
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
        /\ st = [o \in Objs(t) |-> Start("fresh " \o o)] /\ saved = <<>> /\ memo = {}
E == Traces[t].ev[l]
IsCall == E.op = "call"      \* a refused call may or may not have used up randomness, but always does the same
Verdict ==
  CASE E.op = "call" ->
         IF E.out = "ok" /\ ~Valid(E.m, E.a) THEN "RefusesInvalidArguments"
         ELSE IF E.out # "ok" THEN (IF Valid(E.m, E.a) THEN "AcceptsValidArguments" ELSE "")
         ELSE IF Clause(E.m, E.a, E.r) # "" THEN Clause(E.m, E.a, E.r)
         ELSE IF \E x \in memo : x[1] = st[E.o] /\ x[2] = E.key /\ x[3] # E.res THEN "SameStateSameResults" ELSE ""
    [] E.op = "error" -> "UnexpectedException"
    [] OTHER -> ""
Next == /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ UNCHANGED t /\ bad' = Verdict
        /\ st' = CASE IsCall -> [st EXCEPT ![E.o] = After(@, E.key)]
                   [] E.op = "seed" -> [st EXCEPT ![E.o] = Start("seed " \o E.s)]
                   [] E.op = "copy" -> [st EXCEPT ![E.p] = st[E.o]]
                   [] E.op = "restore" -> [st EXCEPT ![E.o] = saved[E.i]]
                   [] OTHER -> st
        /\ saved' = IF E.op = "save" THEN Append(saved, st[E.o]) ELSE saved
        /\ memo' = IF IsCall THEN memo \cup {<<st[E.o], E.key, E.res>>} ELSE memo
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
