--------------------------------- MODULE MCRun ---------------------------------
(* All short histories of one test (and of one it runs inside its body) that Run.tla allows, and what must then be true of them.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Runner, NExplicit, Multi, Observe, Nested
VARIABLES S, h
R == INSTANCE Run
Cfg == [runner |-> Runner, multi |-> Multi, explicit |-> [i \in 1 .. NExplicit |-> [a |-> i, b |-> 0, x |-> i = 2, all |-> FALSE, ok |-> <<"f1">>]], phases |-> <<"explicit", "generate">>, max |-> 2,
        observe |-> Observe, verbose |-> FALSE, quiet |-> FALSE, unsat |-> FALSE, blob |-> FALSE, repro |-> "none", repa |-> <<-1, -1>>]
Inner == [Cfg EXCEPT !.runner = "none", !.explicit = <<>>]
X(o) == CASE o = "ok" -> 0 [] o = "f1" -> 1 [] o = "f2" -> 2 [] o = "reject" -> 3 [] o = "int" -> 4 [] OTHER -> 5
Outs == {"ok", "f1", "f2", "reject", "int", "overrun"}
End(k, o) == [k |-> k, out |-> o, x |-> X(o), org |-> X(o)]
Shown == {TRUE, FALSE}
Errs == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<4>>, <<0>>}
Ret(es) == [k |-> "ret", kind |-> "err", errs |-> [i \in DOMAIN es |-> [x |-> es[i], type |-> IF es[i] = 0 THEN "Unsatisfiable" ELSE "", kids |-> <<>>, a |-> 1, b |-> 0, explicit |-> TRUE, notes |-> <<>>, falsifying |-> 1, blob |-> TRUE]]]
Events ==
  {[k |-> "run", cfg |-> Cfg], [k |-> "run", cfg |-> Inner]}
  \cup {[k |-> "setup", shown |-> s, note |-> 0] : s \in Shown} \cup {[k |-> "exec", shown |-> s, note |-> 0] : s \in Shown}
  \cup {[End("setupend", o) EXCEPT !.k = "setupend"] @@ [tok |-> 7] : o \in {"ok", "f1"}}
  \cup {[k |-> "draw", name |-> "a", shown |-> s, note |-> 0] : s \in Shown} \cup {End("drawn", o) @@ [name |-> "a", v |-> 1] : o \in {"ok", "overrun"}}
  \cup {[k |-> "body", a |-> 1, b |-> bb, explicit |-> e, shown |-> s, note |-> 0] : bb \in {0, -1}, e \in {TRUE, FALSE}, s \in Shown}
  \cup {End("end", o) : o \in Outs} \cup {[k |-> "tear", tok |-> q] : q \in {0, 7}} \cup {End("tearend", o) : o \in {"ok", "f2"}} \cup {[k |-> "execend"]}
  \cup {[k |-> "reg", id |-> i] : i \in {1, 2}} \cup {End("clean", o) @@ [id |-> i, refused |-> TRUE] : i \in {1, 2}, o \in {"ok", "f2"}}
  \cup {[k |-> "use", i |-> 1], [k |-> "seedmod", seed |-> 1]}
  \cup {[k |-> "rec", how |-> w, status |-> s, phase |-> IF w = "engine" THEN "generate" ELSE "", a |-> 1, b |-> bb, known |-> kn, events |-> <<>>, targets |-> <<>>, rep |-> <<1, bb>>]
        : w \in {"explicit", "engine", "final"}, s \in {"passed", "failed", "gave_up"}, bb \in {0, -1}, kn \in {<<>>, <<"a">>, <<"a", "b">>}}
  \cup {Ret(es) : es \in Errs}
(* ids 1, 2: what the program sees; 3: the state examples begin with; 4: what the seed leads to                                           *)
Gs == {<<i>> : i \in 1 .. 4}
Fresh(e, g) == /\ (e.k = "use" => g[1] \in {1, 2})
               /\ (e.k = "seedmod" /\ S.seeded = {} => g = <<4>>)
               /\ (e.k \in R!Starts /\ S.zero = <<0>> => g = <<3>>)
Allowed(e) == /\ (e.k = "run" => IF S.frames = <<>> THEN h = <<>> /\ e.cfg = Cfg ELSE Nested /\ Len(S.frames) = 1 /\ R!Top(S).ex.at = "body" /\ e.cfg = Inner)
              /\ (e.k \in {"reg", "seedmod", "use"} => Len(S.frames) >= 1 /\ R!Top(S).ex.at \in {"body", "setting"})
              /\ (e.k = "reg" => \A i \in DOMAIN h : (h[i].k = "reg" /\ h[i].n = Len(S.frames)) => h[i].id < e.id)
              /\ (Observe => e.k # "seedmod")
              /\ (Len(S.frames) = 0 => e.k = "run")
Init == S = [frames |-> <<>>, rng |-> <<1>>, reg |-> {1}, live |-> <<TRUE>>, zero |-> <<0>>, seeded |-> {}] /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E e \in Events : /\ Allowed(e)
                             /\ LET m == R!Move(S, e @@ [g |-> <<1>>])
                                    g1 == IF e.k \in R!Starts \cup {"use", "seedmod"} THEN Gs ELSE {m.s.rng} IN
                                \E g \in g1 : /\ Fresh(e, g)
                                              /\ LET r == R!Step(S, e @@ [g |-> g]) IN r.bad = {} /\ S' = r.s
                                              /\ h' = Append(h, (e @@ [g |-> g, n |-> Len(S.frames), tok |-> 0, id |-> 0, out |-> "", x |-> 0, shown |-> FALSE]))
Spec == Init /\ [][Next]_<<S, h>>
View == <<S, h>>
(* ---- of the histories themselves (outer test only) ---------------------------------------------------------------------------------- *)
Outer == SelectSeq(h, LAMBDA e : e.n = 1)
Idx(k) == {i \in DOMAIN Outer : Outer[i].k = k}
Begins == IF Runner = "both" THEN Idx("setup") ELSE IF Runner = "exec" THEN Idx("exec") ELSE {i \in DOMAIN Outer : Outer[i].k = "draw" \/ (Outer[i].k = "body" /\ Outer[i].explicit)}
Outside == Idx("rec") \cup Idx("ret")
Marks == Begins \cup Outside
(* between an example's beginning and whatever comes after the example                                                                   *)
Until(i) == {j \in DOMAIN Outer : j > i /\ \A q \in Marks : q > i => j < q}
Done(i) == \E q \in Marks : q > i
Count(k, I) == Cardinality({j \in I : Outer[j].k = k})
SetupAndTeardownPair == Runner = "both" => \A i \in Begins : Done(i) => Count("tear", Until(i)) = 1 /\ \A j \in Until(i) : Outer[j].k \in {"body", "draw", "end"} => \E q \in Until(i) : q > j /\ Outer[q].k = "tear"
CleanUpsRunOnce == \A i \in Begins : Done(i) => \A j \in Until(i) \cup {i} : Outer[j].k = "reg" => Cardinality({q \in Until(i) : q > j /\ Outer[q].k = "clean" /\ Outer[q].id = Outer[j].id}) = 1
CleanUpsInOrder == \A i \in Begins : \A j1, j2, q1, q2 \in Until(i) : (Outer[j1].k = "reg" /\ Outer[j2].k = "reg" /\ j1 < j2 /\ Outer[q1].k = "clean" /\ Outer[q2].k = "clean" /\ Outer[q1].id = Outer[j1].id /\ Outer[q2].id = Outer[j2].id) => q1 < q2
SameStart == \A i, j \in Begins : Outer[i].g = Outer[j].g
Undisturbed == \A i \in Outside : Outer[i].g = <<1>>
OneRecordEach == Observe => \A i \in Begins : Done(i) => \E q \in Marks : q > i /\ Outer[q].k = "rec" /\ \A p \in Marks : p > i => q <= p
FailuresSurface == \A i \in Idx("ret") : Outer[i].errs = <<>> =>
   \A j \in Idx("end") : Outer[j].out \in {"f1", "f2"} =>
      \/ \E q \in DOMAIN Outer : q > j /\ Outer[q].out \in {"reject", "f1", "f2"} /\ Outer[q].k = "clean"
      \/ (Runner = "both" /\ \E q \in DOMAIN Outer : q > j /\ Outer[q].k = "tearend" /\ Outer[q].out # "ok")
      \/ (NExplicit = 2 /\ Outer[j].out = "f1")
NothingInvented == \A i \in Idx("ret") : \A e \in R!Range(Outer[i].errs) : e.x # 0 => \E j \in DOMAIN h : h[j].x = e.x
ExplicitFirst == \A i, j \in Idx("body") : (Outer[i].explicit /\ ~Outer[j].explicit) => i < j
================================================================================
