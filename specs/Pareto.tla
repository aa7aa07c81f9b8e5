------------------------------- MODULE Pareto -------------------------------
(* Examples with scores.  x.key: its place in the order of simplicity; x.st: 2 valid, 3 failing (x.org: as what); x.tags: parts of the     *)
(* test it went through; x.sc: its score for each label (Missing if it has none).                                                         *)
EXTENDS Integers, Sequences, FiniteSets
Missing == -1000000
Dominates(x, y) == /\ x.key < y.key /\ x.st >= y.st /\ y.tags \subseteq x.tags
                   /\ (x.st = 3 => y.st = 3 /\ x.org = y.org)
                   /\ \A n \in DOMAIN x.sc : x.sc[n] >= y.sc[n]
Relation(x, y) == CASE x.key = y.key -> "same" [] Dominates(x, y) -> "left" [] Dominates(y, x) -> "right" [] OTHER -> "none"
Keys(F) == {x.key : x \in F}
(* nothing that was seen is better than everything that is kept                                                                          *)
Covered(seen, F) == \A s \in seen : s.key \in Keys(F) \/ \E x \in F : Dominates(x, s)
Best(seen) == {s \in seen : \A r \in seen : ~Dominates(r, s)}
Undominated(F) == \A x, y \in F : ~Dominates(x, y)
(* The way examples are kept: up to L comparisons that fail to evict, and up to L different ones against which the rest is compared, in    *)
(* any order.  What is to the right of d (less simple) is compared with d; what is to its left with everything that dominates so far.     *)
Init0(d) == [d |-> d, pc |-> "right", fails |-> 0, dom |-> <<d>>, rem |-> {}]
(* c is compared with the dominators one after the other                                                                                 *)
RECURSIVE Walk(_, _, _, _, _)
Swap(dom, j) == SubSeq([dom EXCEPT ![j] = dom[Len(dom)]], 1, Len(dom) - 1)
Walk(c, dom, j, replaced, rem) ==
  IF j > Len(dom) THEN [dom |-> Append(dom, c), rem |-> rem]     (* (a second time, if it has replaced another) *)
  ELSE LET v == dom[j] IN
    CASE Relation(c, v) = "left" -> IF replaced THEN Walk(c, Swap(dom, j), j, TRUE, rem \cup {v}) ELSE Walk(c, [dom EXCEPT ![j] = c], j + 1, TRUE, rem \cup {v})
      [] Relation(c, v) = "right" -> [dom |-> dom, rem |-> rem \cup {c}]
      [] Relation(c, v) = "same" -> [dom |-> dom, rem |-> rem]
      [] OTHER -> Walk(c, dom, j + 1, replaced, rem)
==============================================================================
