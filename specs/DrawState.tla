------------------------------ MODULE DrawState ------------------------------
(* What one example remembers while it is drawn: values of shared strategies, results of generated functions, swarm flags,  *)
(* and the leaves left to recursive strategies.  Examples may be nested; nothing passes from one to another.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == 0                                  \* values are 1, 2, ... (each actual draw makes a new one)

(* functional core, used by the trace specification too; a memo is a set of records [k, v]                                  *)
Has(memo, k) == \E r \in memo : r.k = k
Get(memo, k) == (CHOOSE r \in memo : r.k = k).v
Put(memo, k, v) == memo \cup {[k |-> k, v |-> v]}

(* swarm flags: `group` are the names of which one has to be enabled, `memo` the decisions made so far                       *)
GroupServed(group, memo) == group = {} \/ (\E n \in group : ~Has(memo, n)) \/ (\E n \in group : Has(memo, n) /\ Get(memo, n) = 1)
FlagMust(group, memo, n) == n \in group /\ \A m \in group \ {n} : Has(memo, m) /\ Get(memo, m) = 0

VARIABLES shared, fns, flags, tick, live, cap
vars == <<shared, fns, flags, tick, live, cap>>
CONSTANTS Examples, Keys, Funs, Args, Names, Group, MaxLeaves, MaxTick, MaxNest
(* shared[x], flags[x]: memos of example x; fns[f]: memo of function f made in example live-at-that-time;                    *)
(* cap: the stack of recursive draws in progress, each the leaves left and built                                            *)
Empty == [x \in Examples |-> {}]
Init == /\ shared = Empty /\ fns = [f \in Funs |-> {}] /\ flags = Empty /\ tick = 0 /\ live = <<1>>
        /\ cap = <<>>
Top == live[Len(live)]
DrawShared(k) ==
  /\ tick < MaxTick /\ live # <<>>
  /\ IF Has(shared[Top], k) THEN UNCHANGED <<shared, tick>>
     ELSE tick' = tick + 1 /\ shared' = [shared EXCEPT ![Top] = Put(@, k, tick + 1)]
  /\ UNCHANGED <<fns, flags, live, cap>>
(* function f belongs to example f (one for each): calling it outside is refused                                             *)
Call(f, a) ==
  /\ tick < MaxTick
  /\ IF \A i \in DOMAIN live : live[i] # f THEN UNCHANGED <<fns, tick>>
     ELSE IF Has(fns[f], a) THEN UNCHANGED <<fns, tick>>
     ELSE tick' = tick + 1 /\ fns' = [fns EXCEPT ![f] = Put(@, a, tick + 1)]
  /\ UNCHANGED <<shared, flags, live, cap>>
Flag(n) ==
  /\ live # <<>>
  /\ \E v \in 0 .. 1 : /\ (Has(flags[Top], n) => v = Get(flags[Top], n))
                       /\ (~Has(flags[Top], n) /\ FlagMust(Group, flags[Top], n) => v = 1)
                       /\ flags' = [flags EXCEPT ![Top] = @ \cup {[k |-> n, v |-> v]}]
                      
  /\ UNCHANGED <<shared, fns, tick, live, cap>>
Enter == /\ Len(live) < Cardinality(Examples) /\ live # <<>>
         /\ \E x \in Examples : (\A i \in DOMAIN live : live[i] # x) /\ shared[x] = {} /\ flags[x] = {} /\ live' = Append(live, x)
         /\ UNCHANGED <<shared, fns, flags, tick, cap>>
Leave == /\ live # <<>> /\ cap = <<>> /\ live' = SubSeq(live, 1, Len(live) - 1)
         /\ UNCHANGED <<shared, fns, flags, tick, cap>>
(* the leaf budget: a recursive draw has its own; a nested one of the same strategy restores the outer one's                  *)
RecBegin == /\ Len(cap) < MaxNest /\ cap' = Append(cap, [left |-> MaxLeaves, built |-> 0])
            /\ UNCHANGED <<shared, fns, flags, tick, live>>
RecLeaf == /\ cap # <<>>
           /\ LET c == cap[Len(cap)] IN
              cap' = [cap EXCEPT ![Len(cap)] = IF c.left > 0 THEN [left |-> c.left - 1, built |-> c.built + 1]
                                               ELSE [left |-> MaxLeaves, built |-> 0]]      \* limit reached: all is drawn again
           /\ UNCHANGED <<shared, fns, flags, tick, live>>
RecEnd == /\ cap # <<>> /\ cap' = SubSeq(cap, 1, Len(cap) - 1)
          /\ UNCHANGED <<shared, fns, flags, tick, live>>
Next == (\E k \in Keys : DrawShared(k)) \/ (\E f \in Funs, a \in Args : Call(f, a)) \/ (\E n \in Names : Flag(n)) \/ Enter \/ Leave
        \/ RecBegin \/ RecLeaf \/ RecEnd
Spec == Init /\ [][Next]_vars

OneValuePerKey == /\ \A x \in Examples : \A r, s \in shared[x] : r.k = s.k => r = s
                  /\ \A f \in Funs : \A r, s \in fns[f] : r.k = s.k => r = s
                  /\ \A x \in Examples : \A r, s \in flags[x] : r.k = s.k => r = s
NothingCarriesOver == \A x, y \in Examples : x # y => \A r \in shared[x], s \in shared[y] : r.v # s.v
DrawnOnce == \A x \in Examples : \A r, s \in shared[x] : r.v = s.v => r = s
SomeEnabled == \A x \in Examples : GroupServed(Group, flags[x])
WithinLimit == \A i \in DOMAIN cap : cap[i].built <= MaxLeaves
(* decisions are never taken back while the example lasts                                                                     *)
Stable == [][\A x \in Examples : shared[x] \subseteq shared'[x] /\ flags[x] \subseteq flags'[x]]_vars
==============================================================================
