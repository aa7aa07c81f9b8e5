------------------------------ MODULE MCReplay -------------------------------
(* All small programs (each draw's constraint may depend on the last choice) against all small prefixes: a replay records    *)
(* a sequence that replays to itself, uses permitted choices only, and a prefix of it overruns after the same draws.         *)
EXTENDS Replay
CONSTANTS Depth, PrefixLen
Cs == {[t |-> "integer", lo |-> <<0>>, hi |-> <<2>>, to |-> 1], [t |-> "integer", lo |-> <<2>>, hi |-> <<>>, to |-> 0],
       [t |-> "boolean", only |-> ""], [t |-> "boolean", only |-> "yes"],
       [t |-> "bytes", min |-> 1, max |-> <<1>>]}
Choices == {[t |-> "integer", v |-> <<i>>] : i \in 0 .. 3} \cup {[t |-> "boolean", v |-> <<i>>] : i \in 0 .. 1} \cup {[t |-> "bytes", v |-> <<>>], [t |-> "bytes", v |-> <<1>>]}
(* a program: constraint of draw n, given whether the previous choice was "odd"                                              *)
Programs == [1 .. Depth -> [{0, 1} -> Cs]]
Odd(x) == IF x.v = <<>> THEN 0 ELSE x.v[1] % 2
VARIABLES prog, prefix, rec, second, phase
vars == <<prog, prefix, rec, second, phase>>
Init == /\ prog \in Programs /\ prefix \in UNION {[1 .. n -> Choices] : n \in 0 .. PrefixLen}
        /\ rec = <<>> /\ second = <<>> /\ phase = "first"
Con(s) == prog[Len(s) + 1][IF s = <<>> THEN 0 ELSE Odd(s[Len(s)])]
SimplestOf(c) == CHOOSE x \in Choices \cup {[t |-> "bytes", v |-> <<0>>]} : Simplest(c, x)
First == /\ phase = "first" /\ IF Len(rec) = Depth \/ Len(rec) = Len(prefix) THEN phase' = "second" /\ UNCHANGED rec
            ELSE LET c == Con(rec) p == prefix[Len(rec) + 1] x == IF Permitted(c, p) THEN p ELSE SimplestOf(c) IN
                 DrawOk(prefix, 0, Len(rec) + 1, c, <<>>, x) /\ rec' = Append(rec, x) /\ UNCHANGED phase
         /\ UNCHANGED <<prog, prefix, second>>
Second == /\ phase = "second" /\ IF Len(second) = Depth \/ Len(second) = Len(rec) THEN phase' = "done" /\ UNCHANGED second
             ELSE LET c == Con(second) p == rec[Len(second) + 1] x == IF Permitted(c, p) THEN p ELSE SimplestOf(c) IN
                  second' = Append(second, x) /\ UNCHANGED phase
          /\ UNCHANGED <<prog, prefix, rec>>
Next == First \/ Second
Spec == Init /\ [][Next]_vars
Fixpoint == phase = "done" => second = rec
SimplestPermitted == \A c \in Cs : Permitted(c, SimplestOf(c))
Valid == \A i \in DOMAIN rec : Permitted(prog[i][IF i = 1 THEN 0 ELSE Odd(rec[i - 1])], rec[i])
==============================================================================
