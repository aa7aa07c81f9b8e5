-------------------------- MODULE ChoiceOrderTrace ---------------------------
(* Results recorded from the conversions between choices and indices, and from enumerating all children. *)
EXTENDS ChoiceOrder, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, bad
vars == <<t, l, bad>>
Range(s) == {s[i] : i \in DOMAIN s}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
Ok(c, v) == CASE c.k = "int" -> IntOk(c, v) [] c.k = "bool" -> BoolOk(c, v) [] c.k = "seq" -> SeqOk(c, v) [] OTHER -> FloatOk(c, v)
Index(c, v) == CASE c.k = "int" -> IntIndex(c, v) [] c.k = "bool" -> BoolIndex(c, v) [] OTHER -> SeqIndex(c, v)
Simpler(c, v, w) == CASE c.k = "int" -> IntSimpler(c, v, w) [] c.k = "bool" -> v < w [] OTHER -> SeqSimpler(v, w)
Count(c) == CASE c.k = "int" -> IntCount(c) [] c.k = "bool" -> BoolCount(c) [] c.k = "seq" -> SeqCount(c)
              [] OTHER -> Cardinality({o \in c.lo .. c.hi : FloatOk(c, o)})
Verdict(e) ==
  CASE e.op = "index" ->     \* value, its index, the value that index gives back, permitted?, trivial?
         IF (e.ok = 1) # Ok(e.c, e.v) THEN "Permitted"
         ELSE IF e.i # Index(e.c, e.v) THEN "IndexCountsSimplerChoices"
         ELSE IF e.back # e.v THEN "ConversionsAreInverse"
         ELSE IF e.triv >= 0 /\ (e.triv = 1) # (e.i = 0) THEN "TrivialMeansIndexZero" ELSE ""
    [] e.op = "permitted" -> IF (e.ok = 1) # Ok(e.c, e.v) THEN "Permitted" ELSE ""
    [] e.op = "from" ->      \* every index below the count gives a permitted value with that index
         IF ~Ok(e.c, e.v) THEN "IndexGivesPermittedChoice"
         ELSE IF Index(e.c, e.v) # e.i THEN "ConversionsAreInverse" ELSE ""
    [] e.op = "compare" ->   \* two values too complex to number here: sign of the difference of their indices
         IF e.back # <<e.v, e.w>> THEN "ConversionsAreInverse"
         ELSE IF e.cmp # (IF e.v = e.w THEN 0 ELSE IF Simpler(e.c, e.v, e.w) THEN -1 ELSE 1) THEN "IndexOrdersBySimplicity" ELSE ""
    [] e.op = "children" ->  \* the enumeration (as sequence) and the stated maximum
         IF e.max # Count(e.c) \/ Len(e.all) # Count(e.c) THEN "ChildrenAreExactlyThePermitted"
         ELSE IF \E x \in Range(e.all) : ~Ok(e.c, x) THEN "ChildrenAreExactlyThePermitted"
         ELSE IF Cardinality(Range(e.all)) # Len(e.all) THEN "ChildrenAreDistinct"
         ELSE IF e.c.k # "float" /\ \E i \in DOMAIN e.all : Index(e.c, e.all[i]) # i - 1 THEN "ChildrenInOrder" ELSE ""
    [] e.op = "float" ->     \* 64 bits of a float, the 65 bits of its index, what that gives back
         IF e.i # FloatIndex(e.v, 11, 52, 56) THEN "FloatIndexIsDocumentedOrder"
         ELSE IF e.back # e.v THEN "ConversionsAreInverse" ELSE ""
    [] e.op = "clamped" ->   \* any index under any bounds gives a permitted float; permitted ones are untouched
         IF ~FloatOk(e.c, e.v) THEN "IndexGivesPermittedChoice"
         ELSE IF FloatOk(e.c, e.raw) /\ e.raw # e.v THEN "ConversionsAreInverse" ELSE ""
    [] OTHER -> "UnexpectedException"
Next == /\ l <= Len(Traces[t].ev) /\ bad' = Verdict(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
