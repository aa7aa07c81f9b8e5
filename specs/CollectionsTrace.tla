--------------------------- MODULE CollectionsTrace --------------------------
(* All results of real collection strategies over small element spaces. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad
L == INSTANCE Collections WITH cfg <- 0, result <- 0, count <- 0, rejections <- 0, phase <- 0, target <- 0, forced <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
vars == <<t, l, bad>>
Range(s) == {s[i] : i \in DOMAIN s}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
Table(k) == [x \in {p[1] : p \in Range(k)} |-> (CHOOSE p \in Range(k) : p[1] = x)[2]]
Config(e) == [min |-> e.min, max |-> e.max, elems |-> Range(e.elems), keys |-> [i \in DOMAIN e.keys |-> Table(e.keys[i])]]
Legal(e, s) ==
  CASE e.kind = "list" -> L!Fits(Config(e), s)
    [] e.kind = "set" -> L!Fits(Config(e), s) /\ L!Ascending(s)
    [] e.kind = "dict" ->    \* <<key, value>> pairs
         /\ Len(s) >= e.min /\ Len(s) <= e.max
         /\ \A i \in DOMAIN s : s[i][1] \in Range(e.elems) /\ s[i][2] \in Range(e.vals)
         /\ \A i, j \in DOMAIN s : i < j => s[i][1] < s[j][1]
    [] e.kind = "fixed" ->   \* all required keys, some optional ones, each with a value of its own
         /\ \A i \in DOMAIN s : \E f \in Range(e.fields) : f.key = s[i][1] /\ s[i][2] \in Range(f.vals)
         /\ \A f \in Range(e.fields) : f.req = 1 => \E i \in DOMAIN s : s[i][1] = f.key
         /\ \A i, j \in DOMAIN s : i < j => s[i][1] < s[j][1]
    [] e.kind = "tuple" -> Len(s) = Len(e.parts) /\ \A i \in DOMAIN s : s[i] \in Range(e.parts[i])
    [] OTHER -> L!SameBag(s, e.elems)       \* permutation
RECURSIVE Power(_, _)
Power(n, k) == IF k = 0 THEN 1 ELSE n * Power(n, k - 1)
RECURSIVE FieldProd(_, _)
FieldProd(f, n) == IF n = 0 THEN 1 ELSE (IF f[n].req = 1 THEN 0 ELSE 1) * FieldProd(f, n - 1) + Cardinality(Range(f[n].vals)) * FieldProd(f, n - 1)
Expected(e) ==      \* how many legal collections there are
  CASE e.kind = "list" -> Cardinality(L!Lists(Config(e)))
    [] e.kind = "set" -> Cardinality({S \in SUBSET Range(e.elems) : Cardinality(S) >= e.min /\ Cardinality(S) <= e.max})
    [] e.kind = "dict" -> Cardinality(UNION {[S -> Range(e.vals)] : S \in {K \in SUBSET Range(e.elems) : Cardinality(K) >= e.min /\ Cardinality(K) <= e.max}})
    [] e.kind = "fixed" -> FieldProd(e.fields, Len(e.fields))
    [] e.kind = "tuple" -> L!Prod(e.parts, Len(e.parts))
    [] OTHER -> Cardinality({f \in [DOMAIN e.elems -> Range(e.elems)] : L!SameBag(f, e.elems)})
Verdict(e) ==
  IF e.errors # <<>> THEN "NoInternalErrors"
  ELSE IF \E s \in Range(e.results) : ~Legal(e, s) THEN "SizeUniquenessElements"
  ELSE IF e.complete = 1 /\ Cardinality(Range(e.results)) # Expected(e) THEN "EveryCollectionCanBeGenerated"
  ELSE IF e.refused = 1 /\ Expected(e) # 0 THEN "OnlyImpossibleConstraintsRefused" ELSE ""
Next == /\ l <= Len(Traces[t].ev) /\ bad' = Verdict(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
