---------------------------- MODULE ExampleDBTrace ----------------------------
(* Validates recorded histories of real (nested) databases.  Each trace carries its own topology.
   Event: [op, h, k, k2, v, res] ; res is the list a fetch returned (with duplicates, if any).
   A fetch may also be read value by value, while the database goes on changing ("begin", then "next" with the value or nothing;
   v names the iterator): what was there all the time has to come exactly once, what never was doesn't come.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, db, its, bad
vars == <<t, l, db, its, bad>>

Range(s) == {s[i] : i \in DOMAIN s}
W(h) == Range(Traces[t].topo[h].w)
R(h) == Range(Traces[t].topo[h].r)

M == INSTANCE ExampleDB WITH Keys <- {}, Vals <- {}, Leaves <- {}, Topo <- <<>>, db <- db

Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = ""
        /\ its = << >>
        /\ db = [x \in 1 .. Traces[t].leaves |-> [k \in Range(Traces[t].keys) |-> {}]]

Apply(e) == CASE e.op = "save"   -> M!SaveTo(db, W(e.h), e.k, e.v)
              [] e.op = "delete" -> M!DeleteFrom(db, W(e.h), e.k, e.v)
              [] e.op = "move"   -> M!MoveIn(db, W(e.h), e.k, e.k2, e.v)
              [] OTHER           -> db
(* must: there all the time since it began, and not given yet; may: there at some time since; given: what it gave *)
Iters(e) == LET now(i) == M!FetchOf(db', R(i.h), i.k)
                upd(i) == [i EXCEPT !.must = @ \cap now(i), !.may = @ \cup now(i)]
                old == [x \in DOMAIN its |-> upd(its[x])]
                s == M!FetchOf(db, R(e.h), e.k)
            IN  CASE e.op = "begin" -> [x \in DOMAIN its \cup {e.v} |-> IF x = e.v THEN [h |-> e.h, k |-> e.k, must |-> s, may |-> s, given |-> {}] ELSE its[x]]
                  [] e.op = "next" /\ e.res # << >> -> [its EXCEPT ![e.v].must = @ \ {e.res[1]}, ![e.v].given = @ \cup {e.res[1]}]
                  [] OTHER -> old
NextVerdict(e, i) == IF e.res = << >> THEN IF i.must = {} THEN "" ELSE "FetchIsMapOfSets"
                     ELSE IF e.res[1] \in i.given THEN "FetchWithoutDuplicates"
                     ELSE IF e.res[1] \notin i.may THEN "FetchIsMapOfSets" ELSE ""
Verdict(e) == IF e.op = "error" THEN "UnexpectedException"
              ELSE IF e.op = "next" THEN NextVerdict(e, its[e.v])
              ELSE IF e.op # "fetch" THEN ""
              ELSE IF Range(e.res) # M!FetchOf(db, R(e.h), e.k) THEN "FetchIsMapOfSets"
              ELSE IF Cardinality(Range(e.res)) # Len(e.res) THEN "FetchWithoutDuplicates" ELSE ""
Next == /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l] IN db' = Apply(e) /\ bad' = Verdict(e) /\ its' = Iters(e)
        /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
