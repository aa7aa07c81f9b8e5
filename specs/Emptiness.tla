------------------------------ MODULE Emptiness ------------------------------
(* Systems of strategies defined in terms of each other.  A node: k kind, r refs, m minimum size.       *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
(* can node n make a value if the nodes in S can? *)
Can(sys, n, S) ==
  CASE sys[n].k = "nothing" -> FALSE
    [] sys[n].k = "just" -> TRUE
    [] sys[n].k = "alt" -> \E x \in Range(sys[n].r) : x \in S
    [] sys[n].k = "tup" -> \A x \in Range(sys[n].r) : x \in S
    [] sys[n].k = "list" -> sys[n].m = 0 \/ sys[n].r[1] \in S
    [] OTHER -> sys[n].r[1] \in S        \* map, filter, flatmap, deferred, fixed dictionary of one
RECURSIVE Lfp(_, _)
Lfp(sys, S) == LET T == S \cup {n \in DOMAIN sys : Can(sys, n, S)} IN IF T = S THEN S ELSE Lfp(sys, T)
NonEmpty(sys) == Lfp(sys, {})      \* finite derivations exist for these
(* the leaves that can be the whole value of a node, through at most d transforming nodes *)
RECURSIVE Tops(_, _, _)
Flat(sys, S) == S \cup UNION {Range(sys[n].r) : n \in {x \in S : sys[x].k \in {"alt", "deferred"}}}
RECURSIVE Closure(_, _)
Closure(sys, S) == IF Flat(sys, S) = S THEN S ELSE Closure(sys, Flat(sys, S))
Tops(sys, S, d) ==
  LET C == Closure(sys, S) IN
  {n \in C : sys[n].k = "just"} \cup
  (IF d = 0 THEN {} ELSE LET M == {n \in C : sys[n].k \in {"map", "filter"}} IN
     IF M = {} THEN {} ELSE Tops(sys, UNION {Range(sys[n].r) : n \in M}, d - 1))

(* the worklist algorithm: any sound first guess for the nodes seen, then updates with listeners until nothing changes *)
VARIABLES sys, start, mapping, seen, needs, listeners
evars == <<sys, start, mapping, seen, needs, listeners>>
Deps(s, n) == Range(s[n].r)
WInit(Systems, N) ==
  /\ sys \in Systems /\ start \in 1 .. N
  /\ seen \in {S \in SUBSET (1 .. N) : start \in S}
  /\ mapping \in SUBSET (seen \cap NonEmpty(sys))
  /\ needs = seen /\ listeners = [n \in 1 .. N |-> {}]
Update(n) ==
  LET new == IF Can(sys, n, mapping) THEN mapping \cup {n} ELSE mapping \ {n}
      lis == [x \in DOMAIN listeners |-> IF x \in Deps(sys, n) THEN listeners[x] \cup {n} ELSE listeners[x]]
      unseen == Deps(sys, n) \ seen
  IN /\ n \in needs
     /\ mapping' = new /\ listeners' = lis /\ seen' = seen \cup unseen
     /\ needs' = ((needs \ {n}) \cup unseen) \cup (IF new # mapping THEN lis[n] ELSE {})
     /\ UNCHANGED <<sys, start>>
WNext == \E n \in DOMAIN sys : Update(n)
Exact == needs = {} => mapping = (seen \cap NonEmpty(sys)) /\ start \in seen
Sound == mapping \subseteq NonEmpty(sys)
==============================================================================
