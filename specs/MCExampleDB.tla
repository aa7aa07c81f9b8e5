----------------------------- MODULE MCExampleDB -----------------------------
(* Exhaustive model: two leaves, two keys, two values, every kind of composition; prints every transition. *)
EXTENDS ExampleDB, TLC, Json
CONSTANT Rich
MCTopo == IF Rich
  THEN [ leaf1 |-> [r |-> {1}, w |-> {1}],    leaf2 |-> [r |-> {2}, w |-> {2}],
         ro    |-> [r |-> {1}, w |-> {}],     mx    |-> [r |-> {1,2}, w |-> {1,2}],
         mxro  |-> [r |-> {1,2}, w |-> {1}],  bg    |-> [r |-> {1}, w |-> {1}],
         bgmx  |-> [r |-> {1,2}, w |-> {2}],  mxbg  |-> [r |-> {1,2}, w |-> {1,2}] ]
  ELSE [ leaf1 |-> [r |-> {1}, w |-> {1}], again |-> [r |-> {1}, w |-> {1}] ]

E(a) == PrintT("@@" \o ToJson([s |-> db, a |-> a, t |-> db']))
MCNext == \E h \in Handles, k \in Keys :
   \/ Fetch(h, k) /\ E([op |-> "fetch", h |-> h, k |-> k, res |-> FetchOf(db, Topo[h].r, k)])
   \/ \E v \in Vals :
        \/ Save(h, k, v) /\ E([op |-> "save", h |-> h, k |-> k, v |-> v])
        \/ Delete(h, k, v) /\ E([op |-> "delete", h |-> h, k |-> k, v |-> v])
        \/ \E t \in Keys : Move(h, k, t, v) /\ E([op |-> "move", h |-> h, k |-> k, t |-> t, v |-> v])
MCSpec == Init /\ [][MCNext]_db
==============================================================================
