------------------------------ MODULE ExampleDB ------------------------------
(* Example databases as maps from keys to sets of values.  A database handle is described by the leaf
   databases it reads from and those it writes to: a plain database reads and writes its own leaf, a
   read-only wrapper writes nothing, a multiplexed one takes the union of its members, a background
   writer is transparent to its reader.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, Vals, Leaves,
          Topo        \* handle -> [r |-> SUBSET Leaves, w |-> SUBSET Leaves]
VARIABLE db           \* [Leaves -> [Keys -> SUBSET Vals]]

Handles == DOMAIN Topo
Empty == [l \in Leaves |-> [k \in Keys |-> {}]]

SaveTo(d, ls, k, v) == [l \in DOMAIN d |-> IF l \in ls THEN [d[l] EXCEPT ![k] = @ \cup {v}] ELSE d[l]]
DeleteFrom(d, ls, k, v) == [l \in DOMAIN d |-> IF l \in ls THEN [d[l] EXCEPT ![k] = @ \ {v}] ELSE d[l]]
MoveIn(d, ls, s, t, v) == IF s = t THEN SaveTo(d, ls, t, v) ELSE SaveTo(DeleteFrom(d, ls, s, v), ls, t, v)
FetchOf(d, ls, k) == UNION {d[l][k] : l \in ls}

Save(h, k, v)    == db' = SaveTo(db, Topo[h].w, k, v)
Delete(h, k, v)  == db' = DeleteFrom(db, Topo[h].w, k, v)
Move(h, s, t, v) == db' = MoveIn(db, Topo[h].w, s, t, v)
Fetch(h, k)      == UNCHANGED db

Init == db = Empty
Next == \E h \in Handles, k \in Keys :
          \/ Fetch(h, k)
          \/ \E v \in Vals : Save(h, k, v) \/ Delete(h, k, v) \/ \E t \in Keys : Move(h, k, t, v)
Spec == Init /\ [][Next]_db

------------------------------------------------------------------------------
TypeOK == db \in [Leaves -> [Keys -> SUBSET Vals]]
(* Per-call consequences stated independently of the definitions above. *)
SaveIsVisible == [][\A h \in Handles, k \in Keys, v \in Vals :
    Save(h, k, v) /\ (Topo[h].r \cap Topo[h].w # {}) => v \in FetchOf(db', Topo[h].r, k)]_db
MoveKeepsValue == [][\A h \in Handles, s, t \in Keys, v \in Vals :
    Move(h, s, t, v) /\ (Topo[h].r \cap Topo[h].w # {}) => v \in FetchOf(db', Topo[h].r, t)]_db
NoLeak == [][\A l \in Leaves : Cardinality({k \in Keys : db[l][k] # db'[l][k]}) <= 2]_db
ReadOnlyUntouched == [][\A h \in Handles : Topo[h].w = {} =>
    \A k \in Keys, v \in Vals : (Save(h, k, v) \/ Delete(h, k, v)) => db' = db]_db
==============================================================================
