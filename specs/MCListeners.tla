----------------------------- MODULE MCListeners -----------------------------
(* Two in-memory leaves, a multiplexer over both, a background writer over the multiplexer and a read-only
   wrapper; one listener, registered up to twice per handle.  Prints every transition for replay.        *)
EXTENDS Listeners, TLC, Json
L(h) == [kind |-> "leaf", store |-> h, kids |-> <<>>, peers |-> <<h>>]
Topo == [m1 |-> L("m1"), m2 |-> L("m2"), mx |-> [kind |-> "mx", store |-> "", kids |-> <<"m1", "m2">>, peers |-> <<>>],
         bg |-> [kind |-> "bg", store |-> "", kids |-> <<"mx">>, peers |-> <<>>],
         ro |-> [kind |-> "ro", store |-> "", kids |-> <<"m1">>, peers |-> <<>>]]
Keys == {"k1", "k2"}
Listening == {"m1", "mx", "bg", "ro"}
Writing == {"m1", "m2", "mx", "ro"}
VARIABLES db, reg
vars == <<db, reg>>
Init == db = [s \in {"m1", "m2"} |-> [k \in Keys |-> {}]] /\ reg = [h \in DOMAIN Topo |-> <<>>]

Users(h) == Cardinality({i \in DOMAIN reg[h] : reg[h][i].u})
E(a, heard) == PrintT("@@" \o ToJson([s |-> [db |-> db, reg |-> reg], a |-> a @@ [heard |-> heard], t |-> [db |-> db', reg |-> reg']]))
Write(h, op, k, t) == LET x == DoOp(Topo, reg, db, h, op, k, t, "v") IN
   db' = x.db /\ UNCHANGED reg /\ E([op |-> op, h |-> h, k |-> k, k2 |-> t, v |-> "v"], x.heard)
Next == \/ \E h \in Writing, k \in Keys : \/ Write(h, "save", k, k) \/ Write(h, "delete", k, k)
                                          \/ \E t \in Keys : Write(h, "move", k, t)
        \/ \E h \in Listening :
             \/ Users(h) < (IF h = "mx" THEN 2 ELSE 1) /\ reg' = AddE(Topo, reg, h, User("f")) /\ UNCHANGED db /\ E([op |-> "add", h |-> h], <<>>)
             \/ reg' = RemE(Topo, reg, h, User("f")) /\ UNCHANGED db /\ E([op |-> "remove", h |-> h], <<>>)
             \/ ~(\E i \in DOMAIN reg[h] : ~reg[h][i].u) /\ reg' = ClearE(Topo, reg, h) /\ UNCHANGED db /\ E([op |-> "clear", h |-> h], <<>>)
Spec == Init /\ [][Next]_vars

(* a composite is attached to its members exactly while somebody listens to it, and only once *)
Attached == \A p \in DOMAIN Topo : Relaying(Topo, p) =>
   \A i \in DOMAIN Topo[p].kids : LET c == Topo[p].kids[i] IN
      Cardinality({j \in DOMAIN reg[c] : reg[c][j] = Relay(p)}) = (IF reg[p] # <<>> THEN 1 ELSE 0)
Bounded == \A h \in DOMAIN Topo : Len(reg[h]) <= 3
==============================================================================
