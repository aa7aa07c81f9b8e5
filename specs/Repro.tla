-------------------------------- MODULE Repro --------------------------------
(* Two worlds with the same test, seed and saved examples.  A world has a global generator (glob), an order in which hashing goes through  *)
(* sets (hash), an order in which the database lists what is saved (list) and a past (past: what other tests left in caches).              *)
(* A run tries two of the saved examples, chosen with its own stream of numbers, then makes N more; the body may use the global generator. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Saved, Leak
Worlds == {1, 2}
VARIABLES glob, past, list, hash, own, log, at
vars == <<glob, past, list, hash, own, log, at>>
Orders == {s \in [1 .. Cardinality(Saved) -> Saved] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Init == /\ glob \in [Worlds -> 0 .. 2] /\ past = [w \in Worlds |-> 0] /\ list \in [Worlds -> Orders] /\ hash \in [Worlds -> 0 .. 1]
        /\ own = [w \in Worlds |-> 0] /\ log = [w \in Worlds |-> <<>>] /\ at = [w \in Worlds |-> "before"]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
(* the next number of the test's own stream, which nothing else has a part in                                                            *)
Draw(i) == (i * 5 + 3) % 7
(* another test, or anything else in the process                                                                                         *)
Other(w) == /\ at[w] \in {"before", "over"} /\ \E g \in 0 .. 2 : glob' = [glob EXCEPT ![w] = g]
            /\ \E p \in 0 .. 1 : past' = [past EXCEPT ![w] = p] /\ UNCHANGED <<list, hash, own, log, at>>
(* an example: the global generator starts at 0 in its body, and is as before after it                                                   *)
Body(w, x) == log' = [log EXCEPT ![w] = Append(@, <<x, IF Leak = "glob" THEN glob[w] ELSE 0>>)] /\ (IF Leak = "restore" THEN glob' = [glob EXCEPT ![w] = 1] ELSE UNCHANGED glob)
Reuse(w) == /\ at[w] = "before"
            /\ LET s == IF Leak = "list" THEN list[w] ELSE Sorted(Saved) IN Body(w, s[1 + (Draw(own[w]) % Len(s))])
            /\ own' = [own EXCEPT ![w] = @ + 1] /\ at' = [at EXCEPT ![w] = "new"] /\ UNCHANGED <<past, list, hash>>
New(w) == /\ at[w] = "new" /\ Len(log[w]) < N + 1
          /\ Body(w, 100 + Draw(own[w]) + (IF Leak = "hash" THEN hash[w] ELSE 0) + (IF Leak = "past" THEN past[w] ELSE 0))
          /\ own' = [own EXCEPT ![w] = @ + 1] /\ UNCHANGED <<past, list, hash, at>>
End(w) == at[w] = "new" /\ Len(log[w]) = N + 1 /\ at' = [at EXCEPT ![w] = "over"] /\ UNCHANGED <<glob, past, list, hash, own, log>>
Next == \E w \in Worlds : Other(w) \/ Reuse(w) \/ New(w) \/ End(w)
Spec == Init /\ [][Next]_vars
SameExamples == \A i \in 1 .. N + 1 : i <= Len(log[1]) /\ i <= Len(log[2]) => log[1][i] = log[2][i]
(* nothing of a test is left in the global generator                                                                                     *)
NothingLeft == [][\A w \in Worlds : log'[w] # log[w] => glob'[w] = glob[w]]_vars
==============================================================================
