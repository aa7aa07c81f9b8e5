------------------------------ MODULE MCRandoms ------------------------------
(* Seeding, copying, saving and restoring of two objects: the graph is replayed on the real ones. *)
EXTENDS Randoms, Json
CONSTANTS Objs, Seeds, Keys, MaxCalls
VARIABLES st, saved
vars == <<st, saved>>
Init == st = [o \in Objs |-> Start("fresh " \o o)] /\ saved = Start("fresh a")
Room(o) == Len(st[o].calls) < MaxCalls
Call(o, k) == Room(o) /\ st' = [st EXCEPT ![o] = After(@, k)] /\ UNCHANGED saved
Seed(o, s) == st' = [st EXCEPT ![o] = Start("seed " \o s)] /\ UNCHANGED saved
Copy(o, p) == o # p /\ st' = [st EXCEPT ![p] = st[o]] /\ UNCHANGED saved
Save(o) == saved' = st[o] /\ UNCHANGED st
Restore(o) == st' = [st EXCEPT ![o] = saved] /\ UNCHANGED saved
S == [st |-> st, saved |-> saved]
P(a) == PrintT("@@" \o ToJson([s |-> S, a |-> a, t |-> [st |-> st', saved |-> saved']]))
Next == \E o \in Objs :
   \/ \E k \in Keys : Call(o, k) /\ P([op |-> "call", o |-> o, key |-> k])
   \/ \E s \in Seeds : Seed(o, s) /\ P([op |-> "seed", o |-> o, s |-> s])
   \/ \E p \in Objs : Copy(o, p) /\ P([op |-> "copy", o |-> o, p |-> p])
   \/ Save(o) /\ P([op |-> "save", o |-> o])
   \/ Restore(o) /\ P([op |-> "restore", o |-> o])
Spec == Init /\ [][Next]_vars
(* objects in the same state stay interchangeable: the state determines everything a call can depend on *)
TypeOk == \A o \in Objs : Len(st[o].calls) <= MaxCalls
==============================================================================
