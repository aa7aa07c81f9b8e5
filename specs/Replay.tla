------------------------------- MODULE Replay --------------------------------
(* Drawing choices with a recorded prefix.  A choice is [t |-> type, v |-> tuple of integers]; numbers are ranks in their     *)
(* order (so only comparisons matter), text and bytes are code points.  Constraints are records with the field t and          *)
(*   integer: lo, hi (<<>> = none, else <<rank>>), to;  boolean: only ("no", "yes" or "");                                    *)
(*   float: lo, hi, nan (0/1), zeros <<rank of -0.0, of 0.0>>, tiny <<rank of -m, of m>> (m the smallest nonzero magnitude)   *)
(*   string: iv (intervals), min, max (<<>> none);  bytes: min, max.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
SizeOk(c, v) == Len(v) >= c.min /\ (c.max = <<>> \/ Len(v) <= c.max[1])
InIv(iv, p) == \E i \in DOMAIN iv : iv[i][1] <= p /\ p <= iv[i][2]
IsNaN(v) == Len(v) = 2
Permitted(c, x) ==
  /\ x.t = c.t
  /\ CASE c.t = "integer" -> (c.lo = <<>> \/ c.lo[1] <= x.v[1]) /\ (c.hi = <<>> \/ x.v[1] <= c.hi[1])
       [] c.t = "boolean" -> IF c.only = "no" THEN x.v[1] = 0 ELSE IF c.only = "yes" THEN x.v[1] = 1 ELSE TRUE
       [] c.t = "float" -> IF IsNaN(x.v) THEN c.nan = 1
                           ELSE /\ c.lo <= x.v[1] /\ x.v[1] <= c.hi
                                /\ ~(c.zeros[2] < x.v[1] /\ x.v[1] < c.tiny[2]) /\ ~(c.tiny[1] < x.v[1] /\ x.v[1] < c.zeros[1])
       [] c.t = "string" -> SizeOk(c, x.v) /\ \A i \in DOMAIN x.v : InIv(c.iv, x.v[i])
       [] c.t = "bytes" -> SizeOk(c, x.v)
       [] OTHER -> FALSE
(* simplest character: the digit zero or the first after it, else the last one before                                        *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
FirstChar(iv) == LET up == {i \in DOMAIN iv : iv[i][2] >= 48} IN
  IF up = {} THEN MaxOf({iv[i][2] : i \in DOMAIN iv}) ELSE LET lo == MinOf({iv[i][1] : i \in up}) IN IF lo > 48 THEN lo ELSE 48
Simplest(c, x) ==
  CASE c.t = "integer" -> x = [t |-> c.t, v |-> <<IF c.lo # <<>> /\ c.to < c.lo[1] THEN c.lo[1] ELSE IF c.hi # <<>> /\ c.to > c.hi[1] THEN c.hi[1] ELSE c.to>>]
    [] c.t = "boolean" -> x = [t |-> c.t, v |-> <<IF c.only = "yes" THEN 1 ELSE 0>>]
    [] c.t = "float" -> /\ Permitted(c, x)                  \* zero if it is allowed
                        /\ (Permitted(c, [t |-> c.t, v |-> <<c.zeros[2]>>]) => x.v = <<c.zeros[2]>>)
    [] c.t = "string" -> x = [t |-> c.t, v |-> [i \in 1 .. c.min |-> FirstChar(c.iv)]]
    [] OTHER -> x = [t |-> c.t, v |-> [i \in 1 .. c.min |-> 0]]
(* May a draw under c return x?  i: position in the prefix (1-based); forced: <<>> or <<choice>>; tmpl: 1 if a "simplest"    *)
(* template follows the prefix; free: 1 if fresh choices may be made after it                                                *)
DrawOk(prefix, tmpl, i, c, forced, x) ==
  IF forced # <<>> THEN x = forced[1]
  ELSE IF i <= Len(prefix) THEN (IF Permitted(c, prefix[i]) THEN x = prefix[i] ELSE Simplest(c, x))
  ELSE IF tmpl = 1 THEN Simplest(c, x) ELSE Permitted(c, x)
ReplayClause(prefix, tmpl, i, c, forced) ==
  IF forced # <<>> THEN "ForcedReturned" ELSE IF i <= Len(prefix) THEN (IF Permitted(c, prefix[i]) THEN "UsedAsItIs" ELSE "ReplacedBySimplest")
  ELSE IF tmpl = 1 THEN "TemplateGivesSimplest" ELSE "AlwaysPermitted"
==============================================================================
