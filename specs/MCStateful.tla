----------------------------- MODULE MCStateful ------------------------------
(* A small machine with two initialize rules, a rule that makes values (in two bundles), one that reads and one that          *)
(* consumes; all its runs.                                                                                                    *)
EXTENDS Stateful
CONSTANTS Steps, MaxVals
A(b, u) == [b |-> b, use |-> u, direct |-> 1]
R(init, args, targets, pre) == [init |-> init, args |-> args, targets |-> targets, pre |-> pre]
Mach == [steps |-> Steps, nb |-> 2,
         rules |-> << R(1, <<>>, <<1>>, <<>>), R(1, <<>>, <<>>, <<>>), R(0, <<>>, <<1, 2>>, <<>>), R(0, <<A(<<1>>, 0), A(<<2>>, 1)>>, <<>>, <<[m |-> 2, r |-> 1]>>),
                      R(0, <<A(<<1>>, 1), A(<<1>>, 1)>>, <<2>>, <<>>) >>,
         invs |-> << [pre |-> <<>>, during |-> 0], [pre |-> <<[m |-> 3, r |-> 0]>>, during |-> 1] >>]
VARIABLES todo, bundles, n, due, phase, cur, fresh, gone, order
vars == <<todo, bundles, n, due, phase, cur, fresh, gone, order>>
Init == todo = Inits(Mach) /\ bundles = <<<<>>, <<>>>> /\ n = 0 /\ due = DueInvs(Mach, Inits(Mach), 0) /\ phase = "idle" /\ cur = 0 /\ fresh = 1 /\ gone = {} /\ order = <<>>
Picks(args) == IF args = <<>> THEN {<<>>}
   ELSE LET one(a) == {<<<<b, v>>>> : b \in Range(a.b), v \in UNION {Range(bundles[c]) : c \in Range(a.b)}} IN
        IF Len(args) = 1 THEN {<<x>> : x \in one(args[1])} ELSE {<<x, y>> : x \in one(args[1]), y \in one(args[2])}
Call == /\ phase = "idle" /\ due = {}
        /\ \E r \in DOMAIN Mach.rules : /\ MayCall(Mach, todo, bundles, n, r)
             /\ \E args \in Picks(Mach.rules[r].args) : /\ ArgsOk(Mach, bundles, r, args)
                  /\ bundles' = Taken(Mach, bundles, r, args) /\ cur' = r /\ todo' = todo \ {r} /\ order' = Append(order, r)
                  /\ gone' = gone \cup {<<b, v>> \in {<<b, v>> \in (1 .. 2) \X (1 .. MaxVals) : v \in Range(bundles[b])} : v \notin Range(Taken(Mach, bundles, r, args)[b])}
        /\ n' = n + 1 /\ phase' = "in" /\ UNCHANGED <<due, fresh>>
Return == /\ phase = "in" /\ \E k \in 0 .. 2 : /\ fresh + k <= MaxVals + 1
             /\ LET vals == IF Mach.rules[cur].targets = <<>> THEN <<>> ELSE [i \in 1 .. k |-> fresh + i - 1] IN
                bundles' = Added(Mach, bundles, cur, vals) /\ fresh' = fresh + Len(vals)
          /\ due' = DueInvs(Mach, todo, n) /\ phase' = "idle" /\ UNCHANGED <<todo, n, cur, gone, order>>
Check == /\ phase = "idle" /\ \E i \in due : due' = due \ {i} /\ (phase' = "idle" \/ phase' = "raised") /\ UNCHANGED <<todo, bundles, n, cur, fresh, gone, order>>
Raise == phase = "in" /\ phase' = "raised" /\ UNCHANGED <<todo, bundles, n, due, cur, fresh, gone, order>>
Teardown == (phase = "raised" \/ (phase = "idle" /\ due = {})) /\ phase' = "down" /\ UNCHANGED <<todo, bundles, n, due, cur, fresh, gone, order>>
Next == Call \/ Return \/ Check \/ Raise \/ Teardown
Spec == Init /\ [][Next]_vars
(* (values are fresh, so a consumed one can be nowhere again)                                                                 *)
GoneForGood == \A p \in gone : p[2] \notin Range(bundles[p[1]])
InitFirst == \A i \in DOMAIN order : Mach.rules[order[i]].init = 1 <=> i <= Cardinality(Inits(Mach)) 
InitOnce == \A i, j \in DOMAIN order : i # j /\ Mach.rules[order[i]].init = 1 => order[i] # order[j]
Limit == n <= Steps
==============================================================================
