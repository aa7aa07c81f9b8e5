---------------------------- MODULE ListenersTrace ----------------------------
(* Recorded histories of listener registrations and writes on real databases.  Event: [op, h, f, k, k2, v,
   heard], heard being the list of <<handle, listener, "save"|"delete", key, value>> calls it caused.
   Listeners whose name starts with "once" unregister themselves when called.  Only the order of calls of
   each single listener is judged: nothing is promised about the order between listeners.               *)
EXTENDS Listeners, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, db, reg, bad
vars == <<t, l, db, reg, bad>>
Range(s) == {s[i] : i \in DOMAIN s}
T == Traces[t].topo
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
        /\ db = [s \in Range(Traces[t].stores) |-> [k \in Range(Traces[t].keys) |-> {}]]
        /\ reg = [h \in DOMAIN Traces[t].topo |-> <<>>]
Write(e) == e.op \in {"save", "delete", "move"}
Heard(e) == DoOp(T, reg, db, e.h, e.op, e.k, e.k2, e.v)
Mine(s, who) == SelectSeq(s, LAMBDA c : c[1] = who[1] /\ c[2] = who[2])
Who(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Once(who) == who[2] \in Range(Traces[t].once)
(* what listener `who` must have heard: everything, or one call per registration if every call takes one away *)
Entries(who) == Cardinality({i \in DOMAIN reg[who[1]] : reg[who[1]][i] = User(who[2])})
Want(s, who) == LET m == Mine(s, who) IN IF Once(who) /\ Len(m) > Entries(who) THEN SubSeq(m, 1, Entries(who)) ELSE m
Gone(r, s) == FoldS(LAMBDA acc, i : IF Once(<<s[i][1], s[i][2]>>) THEN RemE(T, acc, s[i][1], User(s[i][2])) ELSE acc,
                    r, [i \in 1 .. Len(s) |-> i])
Verdict(e) ==
  IF e.op = "error" THEN "UnexpectedException"
  ELSE IF Write(e)
    THEN LET want == Heard(e).heard IN
         IF \E who \in Who(want) \cup Who(e.heard) : Mine(e.heard, who) # Want(want, who)
         THEN "HeardExactlyTheChanges" ELSE ""
    ELSE IF e.heard # <<>> THEN "HeardWithoutChange" ELSE ""
Next == /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l] IN
           /\ bad' = Verdict(e)
           /\ db' = IF Write(e) THEN Heard(e).db ELSE db
           /\ reg' = CASE e.op = "add"    -> AddE(T, reg, e.h, User(e.f))
                       [] e.op = "remove" -> RemE(T, reg, e.h, User(e.f))
                       [] e.op = "clear"  -> ClearE(T, reg, e.h)
                       [] Write(e)        -> Gone(reg, Heard(e).heard)
                       [] OTHER           -> reg
        /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
