---------------------------- MODULE DrawStateTrace ---------------------------
(* Draws of real shared strategies, generated functions, flags and recursive strategies.                                     *)
(* Every event: [op, x (example), k (key, argument list or name, canonical), o (function or flag object), v, ...].           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad, shared, fns, flags, groups, open, used, sigs
D == INSTANCE DrawState WITH shared <- {}, fns <- {}, flags <- {}, tick <- 0, live <- <<>>, cap <- <<>>,
       Examples <- {}, Keys <- {}, Funs <- {}, Args <- {}, Names <- {}, Group <- {}, MaxLeaves <- 0, MaxTick <- 0, MaxNest <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
vars == <<t, l, bad, shared, fns, flags, groups, open, used, sigs>>
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = "" /\ shared = {} /\ fns = {} /\ flags = {} /\ groups = {} /\ open = {} /\ used = {} /\ sigs = {}
Range(s) == {s[i] : i \in DOMAIN s}
(* memos are keyed by the example (or object) together with the key                                                         *)
OfFlag(o) == {[k |-> r.k[2], v |-> r.v] : r \in {q \in flags : q.k[1] = o}}
GroupOf(o) == LET g == {r \in groups : r.k = o} IN IF g = {} THEN {} ELSE Range((CHOOSE r \in g : TRUE).v)
Verdict(e) ==
  LET new == e.v \notin used IN
  CASE e.op = "error" -> "NoInternalError"
    [] e.op = "shared" ->
        IF D!Has(shared, <<e.x, e.k>>) THEN (IF e.v # D!Get(shared, <<e.x, e.k>>) THEN "SameKeySameValue" ELSE IF e.drawn # 0 THEN "DrawnOnce" ELSE "")
        ELSE IF ~new THEN "NothingCarriesOver" ELSE ""
    [] e.op = "call" ->
        IF e.x \notin open THEN "NotCallableAfterExample"
        ELSE IF e.pure = 0 THEN (IF ~new THEN "NothingCarriesOver" ELSE "")
        ELSE IF D!Has(fns, <<e.o, e.k>>) THEN (IF e.v # D!Get(fns, <<e.o, e.k>>) THEN "EqualArgumentsEqualResult" ELSE IF e.drawn # 0 THEN "DrawnOnce" ELSE "")
        ELSE IF ~new THEN "NothingCarriesOver" ELSE ""
    [] e.op = "refused" -> IF e.x \in open THEN "CallableDuringExample" ELSE ""
    [] e.op = "flag" ->
        IF D!Has(flags, <<e.o, e.k>>) /\ e.v # D!Get(flags, <<e.o, e.k>>) THEN "FlagKeepsItsValue"
        ELSE IF e.x \in open /\ ~D!GroupServed(GroupOf(e.o), OfFlag(e.o) \cup {[k |-> e.k, v |-> e.v]}) THEN "GroupEnabled"
        ELSE IF e.x \notin open /\ ~D!Has(flags, <<e.o, e.k>>) /\ e.v # 1 THEN "UndecidedFlagsAreEnabledAfterwards" ELSE ""
    [] e.op = "rec" -> IF e.v > e.k \/ (e.low > 0 /\ e.v < e.low) THEN "WithinLeafLimit" ELSE ""
    [] e.op = "end" -> IF \E r \in sigs : r.k = e.k /\ r.v # e.v THEN "SameChoicesSameExample" ELSE ""
    [] OTHER -> ""
Next ==
  /\ l <= Len(Traces[t].ev) /\ bad' = Verdict(Ev) /\ l' = l + 1 /\ UNCHANGED t
  /\ used' = IF Ev.op \in {"shared", "call"} THEN used \cup {Ev.v} ELSE used
  /\ shared' = IF Ev.op = "shared" /\ ~D!Has(shared, <<Ev.x, Ev.k>>) THEN D!Put(shared, <<Ev.x, Ev.k>>, Ev.v) ELSE shared
  /\ fns' = IF Ev.op = "call" /\ Ev.pure = 1 /\ ~D!Has(fns, <<Ev.o, Ev.k>>) THEN D!Put(fns, <<Ev.o, Ev.k>>, Ev.v) ELSE fns
  /\ flags' = IF Ev.op = "flag" /\ Ev.x \in open /\ ~D!Has(flags, <<Ev.o, Ev.k>>) THEN D!Put(flags, <<Ev.o, Ev.k>>, Ev.v) ELSE flags
  /\ groups' = IF Ev.op = "flags" THEN D!Put(groups, Ev.o, Ev.v) ELSE groups
  /\ open' = IF Ev.op = "begin" THEN open \cup {Ev.x} ELSE IF Ev.op = "end" THEN open \ {Ev.x} ELSE open
  /\ sigs' = IF Ev.op = "end" THEN sigs \cup {[k |-> Ev.k, v |-> Ev.v]} ELSE sigs
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
