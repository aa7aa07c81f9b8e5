---------------------------- MODULE IntervalsTrace ----------------------------
(* Results recorded from the real interval sets and character queries. *)
EXTENDS Intervals, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, bad
vars == <<t, l, bad>>
Range(s) == {s[i] : i \in DOMAIN s}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
Verdict(e) ==
  CASE e.op \in {"or", "and", "sub"} ->
         IF ~Canonical(e.r) THEN "SortedDisjointMerged"
         ELSE IF \E p \in Critical(<<e.a, e.b, e.r>>) : In(e.r, p) # Op(e.op, In(e.a, p), In(e.b, p)) THEN "SetAlgebra" ELSE ""
    [] e.op = "look" ->     \* size, members by position, positions of members, order by simplicity
         IF e.size # Size(e.a) THEN "IndexingIsExact"
         ELSE IF \E x \in Range(e.items) : ~(In(e.a, x[2]) /\ Below(e.a, x[2]) = x[1]) THEN "IndexingIsExact"
         ELSE IF \E x \in Range(e.index) : IF In(e.a, x[1]) THEN x[2] # Below(e.a, x[1]) ELSE x[2] # -1 THEN "IndexInvertsLookup"
         ELSE IF \E x \in Range(e.above) : x[2] # Below(e.a, x[1]) THEN "IndexInvertsLookup"
         ELSE IF \E x \in Range(e.has) : (x[2] = 1) # In(e.a, x[1]) THEN "Membership"
         ELSE IF \E x \in Range(e.order) : ~(In(e.a, x[2]) /\ RankOf(e.a, x[2]) = x[1] /\ x[3] = x[1]) THEN "SimplicityOrder"
         ELSE ""
    [] e.op = "string" ->
         IF ~Canonical(e.r) THEN "SortedDisjointMerged"
         ELSE IF \E p \in Critical(<<e.r>>) \cup Range(e.chars) : In(e.r, p) # (p \in Range(e.chars)) THEN "SetAlgebra" ELSE ""
    [] e.op = "query" ->     \* points: <<code point, category, encodable>>
         LET inc == Range(e.inc) exc == Range(e.exc) cats == Range(e.cats) IN
         IF ~Canonical(e.r) THEN "SortedDisjointMerged"
         ELSE IF \E x \in Range(e.points) :
              In(e.r, x[1]) # (((x[2] \in cats /\ x[1] >= e.lo /\ x[1] <= e.hi) \/ x[1] \in inc) /\ x[1] \notin exc /\ x[3] = 1)
              THEN "QueryIsExact" ELSE ""
    [] OTHER -> "UnexpectedException"
Next == /\ l <= Len(Traces[t].ev) /\ bad' = Verdict(Traces[t].ev[l]) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
