----------------------------- MODULE MCEmptiness -----------------------------
EXTENDS Emptiness
CONSTANT N, Kinds
Nodes == UNION {
  {[k |-> "nothing", r |-> <<>>, m |-> 0], [k |-> "just", r |-> <<>>, m |-> 0]},
  {[k |-> "map", r |-> <<a>>, m |-> 0] : a \in 1 .. N},
  {[k |-> "list", r |-> <<a>>, m |-> i] : a \in 1 .. N, i \in 0 .. 1},
  {[k |-> q, r |-> <<a, b>>, m |-> 0] : q \in {"alt", "tup"}, a \in 1 .. N, b \in 1 .. N}}
Systems == [1 .. N -> {x \in Nodes : x.k \in Kinds}]
Init == WInit(Systems, N)
Spec == Init /\ [][WNext]_evars /\ WF_evars(WNext)
Terminates == <>(needs = {})
==============================================================================
