------------------------------ MODULE MCFilters ------------------------------
(* Rewriting any chain of two predicates (in either order) generates exactly what testing them does. *)
EXTENDS Filters
CONSTANT N
Vals == 0 .. N
V == [i \in Vals |-> [id |-> i, r |-> i, n |-> 0]]
Atoms == [op : {"lt", "le", "eq", "ge", "gt", "ne"}, a : Vals] \cup {[op |-> "tab", t |-> s] : s \in {<<0, 2>>, <<1>>, <<>>}}
Some == {[op |-> "le", a |-> 1], [op |-> "gt", a |-> 0], [op |-> "tab", t |-> <<0, 2>>]}
Terms == Atoms \cup {[op |-> o, ps |-> <<p, q>>] : o \in {"and", "or"}, p \in Atoms, q \in Some} \cup {[op |-> "not", ps |-> <<p>>] : p \in Atoms}
VARIABLES base, first, second, steps, tested
mvars == <<base, first, second, steps, tested>>
Init == /\ base \in {[lo |-> a, hi |-> b] : a \in Vals, b \in Vals} /\ first \in Terms /\ second \in Atoms
        /\ steps = 0 /\ tested = {}
Apply == /\ steps < 2
         /\ LET p == IF steps = 0 THEN first ELSE second   r == Rewrite(p) IN
            /\ base' = Meet(base, r.b)
            /\ tested' = IF r.keep THEN tested \cup {p} ELSE tested
         /\ steps' = steps + 1 /\ UNCHANGED <<first, second>>
Next == Apply
Spec == Init /\ [][Next]_mvars
Generated == {i \in Vals : base.lo <= i /\ i <= base.hi /\ \A p \in tested : Holds(p, V[i])}
Exact == [][(steps' = 2) => Generated' \subseteq Flow(Vals, <<first, second>>, 1, V)]_mvars
Complete == [][{i \in Generated : Holds(IF steps = 0 THEN first ELSE second, V[i])} = Generated']_mvars
==============================================================================
