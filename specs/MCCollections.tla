---------------------------- MODULE MCCollections ----------------------------
EXTENDS Collections
CONSTANT N
Tables == [0 .. (N - 1) -> 0 .. 1] \cup {[x \in 0 .. (N - 1) |-> x]}
Some == {[x \in 0 .. (N - 1) |-> x % 2], [x \in 0 .. (N - 1) |-> x \div 2]}
Configs == {[min |-> a, max |-> b, elems |-> 0 .. (N - 1), keys |-> ks] :
              a \in 0 .. 3, b \in 0 .. 3, ks \in {<<>>} \cup {<<k>> : k \in Tables} \cup {<<k, m>> : k \in Tables, m \in Some}}
Init == LoopInit({c \in Configs : c.min <= c.max})
Spec == Init /\ [][LoopNext]_cvars
==============================================================================
