---------------------------- MODULE SettingsTrace ----------------------------
(* Recorded histories of the real settings.  Events: [op, h (thread), name, parent (0: none), args (list of [setting, value]), wrong (an    *)
(* argument isn't a legal value), res ("ok", "rejected"), new (the object it made, or what it found: its number)], then what is seen:     *)
(* vals (every object's values), profs (what each profile name gives, 0: unknown), now (the default of thread h).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad, obj, prof, cur, val, raw, saved
vars == <<t, l, bad, obj, prof, cur, val, raw, saved>>
S == INSTANCE Settings
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
Keys == Traces[t].keys
Fn(v) == [s \in {Keys[i] : i \in DOMAIN Keys} |-> v[CHOOSE i \in DOMAIN Keys : Keys[i] = s]]
Args == [s \in {Ev.args[i][1] : i \in DOMAIN Ev.args} |-> Ev.args[CHOOSE i \in DOMAIN Ev.args : Ev.args[i][1] = s][2]]
Threads == 1 .. 3
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ obj = <<>> /\ prof = [n \in {} |-> 0] /\ cur = "" /\ val = [h \in Threads |-> 0] /\ raw = val /\ saved = [h \in Threads |-> <<>>]
Now == S!Current(val, Ev.h, prof, cur)
Base == IF Ev.parent = 0 THEN Now ELSE Ev.parent
Illegal == Ev.wrong = 1 \/ S!Clash(Args)
Fresh == ~(Ev.op = "register" /\ Ev.parent # 0 /\ Ev.args = <<>>)
Look == [val EXCEPT ![Ev.h] = Now]
Rejected == CASE Ev.op \in {"make", "register"} -> Illegal
              [] Ev.op \in {"load", "get"} -> Ev.wrong = 1 \/ Ev.name \notin DOMAIN prof
              [] Ev.op \in {"set", "setclass"} -> TRUE
              [] OTHER -> FALSE
(* (should more or fewer objects exist than there ought to, which is reported, the rest goes on with those that do)                        *)
O == LET p == Traces[t].ev[l - 1].vals IN IF l > 1 /\ Len(p) # Len(obj) THEN [i \in DOMAIN p |-> Fn(p[i])] ELSE obj
Made == S!Made(Args, O[Base])
Next ==
  /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ UNCHANGED t
  /\ IF Ev.op = "start" THEN obj' = [i \in DOMAIN Ev.vals |-> Fn(Ev.vals[i])] /\ prof' = [n \in {Ev.profs[i][1] : i \in DOMAIN Ev.profs} |-> Ev.profs[CHOOSE i \in DOMAIN Ev.profs : Ev.profs[i][1] = n][2]]
                             /\ cur' = Ev.name /\ raw' = [h \in Threads |-> IF h = 1 THEN Ev.now ELSE 0] /\ saved' = saved
     ELSE IF Rejected \/ Ev.res = "rejected" THEN UNCHANGED <<obj, prof, cur, saved>> /\ raw' = (IF Ev.op \in {"make", "register"} /\ Ev.parent = 0 THEN [Look EXCEPT ![Ev.h] = Now] ELSE val)
     ELSE CASE Ev.op = "make" -> obj' = Append(O, Made) /\ raw' = (IF Ev.parent = 0 THEN Look ELSE val) /\ UNCHANGED <<prof, cur, saved>>
            [] Ev.op = "register" -> /\ obj' = (IF Fresh THEN Append(O, Made) ELSE O) /\ UNCHANGED <<cur, saved>>
                                     /\ LET new == IF Fresh THEN Len(O) + 1 ELSE Ev.parent IN
                                        /\ prof' = (Ev.name :> new) @@ prof
                                        /\ raw' = IF cur = Ev.name THEN [val EXCEPT ![Ev.h] = new] ELSE IF Fresh /\ Ev.parent = 0 THEN Look ELSE val
            [] Ev.op = "load" -> cur' = Ev.name /\ raw' = [val EXCEPT ![Ev.h] = prof[Ev.name]] /\ UNCHANGED <<obj, prof, saved>>
            [] Ev.op = "enter" -> saved' = [saved EXCEPT ![Ev.h] = Append(@, val[Ev.h])] /\ raw' = [val EXCEPT ![Ev.h] = Ev.parent] /\ UNCHANGED <<obj, prof, cur>>
            [] Ev.op = "leave" -> raw' = [val EXCEPT ![Ev.h] = saved[Ev.h][Len(saved[Ev.h])]] /\ saved' = [saved EXCEPT ![Ev.h] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<obj, prof, cur>>
            (* a test defined with a settings object or, without one, with the default of that moment; running it is a context of its own *)
            [] Ev.op = "define" -> raw' = (IF Ev.parent = 0 THEN Look ELSE val) /\ UNCHANGED <<obj, prof, cur, saved>>
            [] OTHER -> raw' = val /\ UNCHANGED <<obj, prof, cur, saved>>
  (* looking at the default makes the thread remember it                                                                                *)
  /\ val' = [raw' EXCEPT ![Ev.h] = S!Current(raw', Ev.h, prof', cur')]
  /\ bad' = IF Ev.op = "start" THEN {} ELSE
            (IF Rejected /\ Ev.res # "rejected" THEN {"IllegalRejected"} ELSE {})
            \cup (IF ~Rejected /\ Ev.res = "rejected" THEN {"LegalAccepted"} ELSE {})
            \cup (IF Ev.op = "get" /\ ~Rejected /\ Ev.new # prof[Ev.name] THEN {"ProfileFound"} ELSE {})
            \cup (IF Ev.op = "define" /\ Ev.new # (IF Ev.parent = 0 THEN Now ELSE Ev.parent) THEN {"TestUsesItsSettings"} ELSE {})
            \cup (IF Ev.op = "run" /\ Ev.new # Ev.parent THEN {"DefaultInsideTest"} ELSE {})
            \cup (IF \E i \in DOMAIN obj : i \in DOMAIN Ev.vals /\ Fn(Ev.vals[i]) # obj[i] THEN {"NeverChange"} ELSE {})
            \cup (IF Len(obj') = Len(O) + 1 /\ Len(Ev.vals) = Len(obj') /\ Fn(Ev.vals[Len(obj')]) # obj'[Len(obj')] THEN {"Resolution"} ELSE {})
            \cup (IF Len(Ev.vals) # Len(obj') THEN {"ObjectsMade"} ELSE {})
            \cup (IF \E i \in DOMAIN Ev.profs : Ev.profs[i][2] # (IF Ev.profs[i][1] \in DOMAIN prof' THEN prof'[Ev.profs[i][1]] ELSE 0) THEN {"Profiles"} ELSE {})
            \cup (IF Ev.now # S!Current(val', Ev.h, prof', cur') THEN {IF Ev.op = "leave" THEN "LeavingRestores" ELSE "DefaultInForce"} ELSE {})
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
