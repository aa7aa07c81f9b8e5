--------------------------------- MODULE Run ---------------------------------
(* A test as its author sees it: what happens around and inside each of its examples, and how the run ends.                              *)
(*                                                                                                                                      *)
(* The state S of the world is [frames, rng, reg, live, zero, seeded]: a stack of running tests (a test may run another one from its     *)
(* body), the present states of all random number generators, which of them are registered and still there, the state each of them has   *)
(* when an example begins (0: not seen yet; it must always be the same) and the states which random_module's seeds lead to.              *)
(*                                                                                                                                      *)
(* Step(S, e) is [s, bad]: the state after event e, and the names of the rules that e breaks.  Events:                                   *)
(*   run [cfg]   setup, exec, draw [name], body [a, b, explicit]: an example goes on (or a new one begins)   [shown, note]: were notes   *)
(*   of this example shown   setupend, drawn [name, v], end, tearend [out, x, org]: that part came to an end   tear [tok]   execend      *)
(*   reg, clean [id, out, x, org, refused]   note, event, target, retarget   use [i], register [i], drop [i], seedmod [seed]              *)
(*   rec: an observer was told of an example   stats   ret [kind, errs]                                                                  *)
(* e.g are the states of the generators after the event.                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
C(p, name) == IF p THEN {} ELSE {name}
Min2(a, b) == IF a < b THEN a ELSE b
Error == [x |-> 0, out |-> "ok", org |-> 0, kids |-> <<>>]
Fails == {"f1", "f2", "f3", "exit"}
Fatal == {"int", "skip"}
(* ---- one test ----------------------------------------------------------------------------------------------------------------------- *)
Idle == [at |-> "idle", err |-> Error, tasks |-> <<>>, cerrs |-> <<>>, token |-> 0, a |-> -1, b |-> -1, ka |-> FALSE, kb |-> FALSE, body |-> FALSE, shown |-> FALSE, notes |-> <<>>,
         events |-> {}, targets |-> <<>>, outer |-> <<>>, mng |-> {}, smod |-> 0, expl |-> 0, stopped |-> FALSE]
Frame(cfg) == [cfg |-> cfg, ex |-> Idle, stage |-> IF cfg.repro # "none" THEN "repro" ELSE "explicit", nx |-> 1, halt |-> FALSE, errs |-> <<>>, ncalls |-> 0, nvalid |-> 0, fails |-> {}, seen |-> {}, fin |-> <<>>, fatal |-> Error,
               loose |-> FALSE, pend |-> <<>>, phases |-> [reuse |-> <<>>, generate |-> <<>>, shrink |-> <<>>], calls |-> <<>>, best |-> <<>>, noted |-> FALSE]
Sets(f) == f.cfg.runner \in {"setup", "both"}
Tears(f) == f.cfg.runner \in {"teardown", "both"}
Execs(f) == f.cfg.runner \in {"exec", "exec+both"}
(* what an example that is in progress may do next                                                                                       *)
Ended(x) == x.at \in {"over", "torn"}
Finished(f) == LET x == f.ex IN IF Tears(f) THEN x.at = "torn" ELSE x.at = "over"
First(f) == IF Execs(f) THEN "exec" ELSE IF Sets(f) THEN "setup" ELSE "go"
Explicit(f) == f.stage = "explicit" /\ "explicit" \in Range(f.cfg.phases) /\ f.nx <= Len(f.cfg.explicit) /\ ~f.halt
(* how the example came out: the last error wins, several errors of clean-ups are wrapped up together, and nothing can bring back to life *)
(* an example that was stopped                                                                                                           *)
Kind(e) == CASE e.out \in Fails -> "fail" [] e.out \in Fatal -> "fatal" [] e.out = "reject" -> "invalid" [] e.out = "overrun" -> "stop" [] e.out = "group" -> "fail" [] e.out = "ok" -> "valid" [] OTHER -> "other"
Group(es) == [x |-> 0, out |-> IF \E i \in DOMAIN es : es[i].out = "int" THEN "int" ELSE "group", org |-> 0, kids |-> [i \in DOMAIN es |-> es[i].x]]
Raised(x) == IF x.cerrs = <<>> THEN x.err ELSE IF Len(x.cerrs) = 1 THEN x.cerrs[1] ELSE Group(x.cerrs)
Outcome(f) == LET r == Raised(f.ex) IN IF f.ex.stopped /\ f.ex.expl = 0 /\ Kind(r) \in {"fail", "invalid"} THEN [r EXCEPT !.out = "overrun"] ELSE r
(* an explicit example's outcome, seen through its expectation: what is to be reported of it ("": nothing)                               *)
Judged(f, r) ==
  LET p == f.cfg.explicit[f.ex.expl] IN
  IF ~p.x THEN (IF r.out \in {"ok", "reject"} THEN "" ELSE "exc")
  ELSE IF r.out = "ok" THEN "passed"
  ELSE IF r.out = "reject" THEN ""
  ELSE IF r.out = "int" THEN (IF p.all THEN "refused" ELSE "exc")
  ELSE IF r.out \in Range(p.ok) THEN "" ELSE "exc"
Stops(f, how, r) == ~f.cfg.multi \/ (how = "exc" /\ r.out \in Fatal)
(* the example is over: nothing of it is left, and it counts                                                                             *)
Close(f) ==
  IF f.ex.at = "idle" THEN [f |-> f, bad |-> {}]
  ELSE LET x == f.ex
           r == Outcome(f)
           k == Kind(r)
           sum == [out |-> r.out, k |-> k, x |-> r.x, org |-> IF r.out = "group" THEN -1 ELSE r.org, kids |-> r.kids, a |-> x.a, b |-> x.b, ka |-> x.ka, kb |-> x.kb, body |-> x.body, notes |-> x.notes, shown |-> x.shown, events |-> x.events, targets |-> x.targets,
                   how |-> IF x.expl > 0 THEN "explicit" ELSE IF f.stage = "repro" THEN "repro" ELSE IF x.shown /\ ~f.cfg.verbose THEN "final" ELSE "engine"]
           bad == C(Finished(f), "B01:ExamplesAreFinished") \cup C(x.tasks = <<>>, "B01:CleanUpsAllRun")
                  \cup C(x.shown <=> (f.cfg.verbose \/ sum.how # "engine"), "B01:NotesOnlyWhenReported")
                  \cup C(f.cfg.observe /\ f.pend # <<>> => f.cfg.observe = FALSE, "E13:EveryExampleIsRecorded")
           g == [f EXCEPT !.ex = Idle, !.pend = IF f.cfg.observe /\ sum.how # "repro" THEN <<sum>> ELSE <<>>]
           g2 == IF sum.how = "explicit" THEN
                   LET how == Judged(f, r) IN [g EXCEPT !.nx = x.expl + 1, !.errs = IF how = "" THEN @ ELSE Append(@, [sum |-> sum, how |-> how]), !.halt = how # "" /\ Stops(f, how, r), !.loose = @ \/ k = "other"]
                 ELSE IF sum.how = "repro" THEN [g EXCEPT !.calls = Append(@, sum)]
                 ELSE IF sum.how = "final" THEN [g EXCEPT !.fin = Append(@, sum), !.loose = @ \/ k = "other"]
                 ELSE [g EXCEPT !.ncalls = @ + 1, !.nvalid = @ + IF k = "valid" THEN 1 ELSE 0, !.fails = IF k = "fail" THEN @ \cup {<<sum.org, sum.out>>} ELSE @, !.seen = IF k = "fail" THEN @ \cup {<<sum.a, sum.b, sum.org>>} ELSE @,
                                !.fatal = IF k = "fatal" THEN r ELSE @, !.loose = @ \/ k = "other",
                                !.calls = Append(@, [k |-> k, events |-> x.events]),
                                !.best = IF k \in {"valid", "fail"} THEN Append(@, x.targets) ELSE @]
       IN [f |-> g2, bad |-> bad]
(* ---- beginnings ---------------------------------------------------------------------------------------------------------------------- *)
(* the example that begins now                                                                                                           *)
Begin(f, S) == [f EXCEPT !.ex = [Idle EXCEPT !.at = First(f), !.outer = S.rng, !.mng = S.reg, !.expl = IF Explicit(f) THEN f.nx ELSE 0],
                         !.stage = IF Explicit(f) \/ f.stage = "repro" THEN @ ELSE "engine"]
MayRun(f) == f.stage = "repro" \/ Explicit(f) \/ (f.errs = <<>> /\ {"reuse", "generate"} \cap Range(f.cfg.phases) # {})
(* does this event open a new example?  (the one before must then be over)                                                               *)
Opens(f, e) == f.ex.at = "idle" \/ Ended(f.ex) \/ (e.k \in {"setup", "exec"}) \/ (e.k = "draw" /\ e.name = "a" /\ f.ex.at # "go" /\ f.ex.at # "exec")
(* ---- what each part of an example does ------------------------------------------------------------------------------------------------ *)
Err(e) == [x |-> e.x, out |-> e.out, org |-> e.org, kids |-> <<>>]
Over(x, e) == IF e.out = "ok" THEN x ELSE [x EXCEPT !.at = "over", !.err = Err(e), !.stopped = @ \/ e.out = "overrun"]
Shows(x, e) == [x EXCEPT !.shown = e.shown, !.notes = IF e.shown THEN Append(@, e.note) ELSE @]
Part(f, e) ==
  LET x == f.ex IN
  CASE e.k = "setup" -> [x |-> [Shows(x, e) EXCEPT !.at = "setting"], bad |-> C(x.at = "setup", "B01:SetupComesFirst")]
    [] e.k = "setupend" -> [x |-> Over([x EXCEPT !.at = "go", !.token = IF e.out = "ok" THEN e.tok ELSE 0], e), bad |-> C(x.at = "setting", "B01:SetupComesFirst")]
    [] e.k = "exec" -> [x |-> [Shows(x, e) EXCEPT !.at = "go"], bad |-> C(x.at = "exec", "B01:RunnerRunsTheExample")]
    [] e.k = "execend" -> [x |-> [x EXCEPT !.at = "over"], bad |-> C(x.at \in {"over", "go"}, "B01:RunnerRunsTheExample")]
    [] e.k = "draw" -> [x |-> [Shows(x, e) EXCEPT !.at = "drawing"], bad |-> C(x.at = "go", "B01:SetupComesFirst") \cup C(x.expl = 0, "E12:ExplicitArgumentsAreGiven") \cup C(IF e.name = "a" THEN ~x.ka ELSE ~x.kb, "B01:BodyRunsOnce")]
    [] e.k = "drawn" -> [x |-> Over([x EXCEPT !.at = "go", !.a = IF e.name = "a" /\ e.out = "ok" THEN e.v ELSE @, !.b = IF e.name = "b" /\ e.out = "ok" THEN e.v ELSE @,
                                                !.ka = @ \/ (e.name = "a" /\ e.out = "ok"), !.kb = @ \/ (e.name = "b" /\ e.out = "ok")], e), bad |-> C(x.at = "drawing", "B01:SetupComesFirst")]
    [] e.k = "body" -> [x |-> [Shows(x, e) EXCEPT !.at = "body", !.body = TRUE, !.a = e.a, !.b = e.b, !.ka = TRUE, !.kb = TRUE],
                        bad |-> C(x.at = "go", "B01:SetupComesFirst") \cup C(e.explicit <=> x.expl > 0, "E12:ExplicitExamplesFirst")
                                \cup C(x.expl > 0 /\ e.explicit => f.cfg.explicit[x.expl].a = e.a /\ f.cfg.explicit[x.expl].b = e.b, "E12:GivenArguments")
                                \cup C(x.expl = 0 => x.a = e.a /\ x.b = e.b, "E01:DrawnArguments")]
    [] e.k = "end" -> [x |-> IF e.out = "ok" THEN [x EXCEPT !.at = "over"] ELSE Over(x, e), bad |-> C(x.at = "body", "B01:BodyRunsOnce")]
    [] e.k = "tear" -> [x |-> [x EXCEPT !.at = "tearing"], bad |-> C(Tears(f) /\ x.at = "over", "B01:TeardownAfterTheExample") \cup C(e.tok = x.token, "B01:TeardownGetsTheToken")]
    [] e.k = "tearend" -> [x |-> [Over(x, e) EXCEPT !.at = "torn"], bad |-> C(x.at = "tearing", "B01:TeardownAfterTheExample")]
    [] e.k = "reg" -> [x |-> [x EXCEPT !.tasks = Append(@, [id |-> e.id, rng |-> <<>>, mng |-> {}])], bad |-> C(~Ended(x), "B01:ContextOfTheExample")]
    [] e.k = "note" -> [x |-> [x EXCEPT !.notes = IF e.shown THEN Append(@, e.id) ELSE @], bad |-> C(e.shown = x.shown, "B01:NotesOnlyWhenReported")]
    [] e.k = "event" -> [x |-> [x EXCEPT !.events = @ \cup {e.key}], bad |-> {}]
    [] e.k = "target" -> [x |-> [x EXCEPT !.targets = Append(@, <<e.key, e.score>>)], bad |-> C(\A i \in DOMAIN x.targets : x.targets[i][1] # e.key, "B01:OneScorePerLabel")]
    [] e.k = "retarget" -> [x |-> x, bad |-> C(\E i \in DOMAIN x.targets : x.targets[i][1] = e.key, "B01:OneScorePerLabel")]
    [] OTHER -> [x |-> x, bad |-> {}]
(* restoring tasks (rng # <<>>) run before the user's clean-up that comes next                                                          *)
RECURSIVE Restore(_, _, _)
Restored(S, task) == [i \in DOMAIN S.rng |-> IF ~S.live[i] THEN 0 ELSE IF i \in task.mng THEN task.rng[i] ELSE S.rng[i]]
Restore(S, tasks, all) == IF tasks = <<>> \/ (Head(tasks).rng = <<>> /\ ~all) THEN [rng |-> S.rng, tasks |-> tasks]
                          ELSE IF Head(tasks).rng = <<>> THEN [rng |-> S.rng, tasks |-> tasks]
                          ELSE Restore([S EXCEPT !.rng = Restored(S, Head(tasks))], Tail(tasks), all)
(* ---- the end of the run ---------------------------------------------------------------------------------------------------------------- *)
Says(r, c, f) == /\ (c.k \in {"fail", "fatal"} /\ c.kids = <<>>) => r.x = c.x
                 /\ (c.kids # <<>>) => r.kids = c.kids
Prints(r, c, f) == ~f.cfg.quiet /\ c.body => r.a = c.a /\ r.b = c.b /\ r.falsifying = 1
NotesOf(r, c, f) == ~f.cfg.quiet => Range(c.notes) \subseteq Range(r.notes) /\ Range(r.notes) \subseteq Range(c.notes)
Good(c, r) == \/ c.how = "exc" /\ (r.x = c.sum.x /\ (c.sum.kids # <<>> => r.kids = c.sum.kids))
              \/ c.how = "passed" /\ r.x = 0 /\ r.type = "AssertionError"
              \/ c.how = "refused" /\ r.x = 0 /\ r.type = "InvalidArgument"
(* one failure is reported if several were found but multi is off                                                                        *)
Ret(f, e) ==
  LET errs == e.errs
      es == IF f.errs # <<>> /\ Last(f.errs).how = "exc" /\ Last(f.errs).sum.out = "skip" THEN <<Last(f.errs)>> ELSE f.errs
      engine == {"reuse", "generate"} \cap Range(f.cfg.phases) # {}
      ran == "explicit" \in Range(f.cfg.phases) /\ f.cfg.explicit # <<>>
  IN IF f.stage = "repro" THEN
       (CASE f.cfg.repro \in {"version", "junk"} -> C(f.calls = <<>> /\ Len(errs) = 1 /\ errs[1].type = "InvalidArgument", "E12:UnreadableBlob")
          [] OTHER -> C(Len(f.calls) = 1, "E12:BlobRunsOnce")
                      \cup C(Len(f.calls) >= 1 /\ f.cfg.repro = "exact" /\ f.calls[1].body => f.calls[1].a = f.cfg.repa[1] /\ f.calls[1].b = f.cfg.repa[2], "E12:BlobIsTheExample")
                      \cup C(Len(f.calls) = 1 /\ f.calls[1].k \in {"fail", "fatal"} => Len(errs) = 1 /\ Says(errs[1], f.calls[1], f), "E12:BlobFailsTheSame")
                      \cup C(Len(f.calls) = 1 /\ f.calls[1].k \in {"valid", "invalid", "stop"} => Len(errs) = 1 /\ errs[1].type = "DidNotReproduce", "E12:BlobMustFail"))
     ELSE IF f.loose THEN {}
     ELSE C(~Explicit(f), "E12:AllExplicitExamplesRun")
     \cup IF es # <<>> THEN
       C(Len(errs) = Len(es), "E12:ErrorsOfExplicitExamples")
       \cup C(Len(errs) = Len(es) => \A i \in DOMAIN es : Good(es[i], errs[i]), "E12:ErrorsOfExplicitExamples")
       \cup C(Len(errs) = Len(es) /\ ~f.cfg.quiet => \A i \in DOMAIN es : es[i].sum.body => errs[i].a = es[i].sum.a /\ errs[i].b = es[i].sum.b /\ errs[i].falsifying = 1 /\ errs[i].explicit, "E12:ReportOfExplicitExamples")
       \cup C(Len(errs) = Len(es) => \A i \in DOMAIN es : NotesOf(errs[i], es[i].sum, f), "B01:NotesOfTheReportedExample")
     ELSE IF f.fatal.out # "ok" THEN C(Len(errs) = 1 /\ (IF f.fatal.kids = <<>> THEN errs[1].x = f.fatal.x ELSE errs[1].kids = f.fatal.kids), "E01:FatalErrorsPropagate")
     ELSE IF f.fails # {} THEN
       C(errs # <<>>, "E01:FailureNotDropped")
       \cup C(\A i \in DOMAIN errs : errs[i].type = "" \/ errs[i].kids # <<>>, "E01:OnlyTheTestsErrors")
       \cup IF f.cfg.verbose THEN {} ELSE
         C(Len(errs) = Len(f.fin), "E01:ReportedExamplesAreRerun")
         \cup C(Len(errs) = Len(f.fin) => \A i \in DOMAIN errs : Says(errs[i], f.fin[i], f), "E01:ReportsWhatTheBodyRaised")
         \cup C(Len(errs) = Len(f.fin) => \A i \in DOMAIN errs : Prints(errs[i], f.fin[i], f), "E01:PrintsTheArguments")
         \cup C(Len(errs) = Len(f.fin) => \A i \in DOMAIN errs : NotesOf(errs[i], f.fin[i], f), "B01:NotesOfTheReportedExample")
         \cup C(\A i \in DOMAIN f.fin : <<f.fin[i].a, f.fin[i].b, f.fin[i].org>> \in f.seen, "E01:ReportedExamplesHadFailed")
         \cup C(IF f.cfg.multi THEN {f.fin[i].org : i \in DOMAIN f.fin} = {o[1] : o \in f.fails} ELSE Len(f.fin) = 1, "E01:AllFailuresAreReported")
         \cup C(f.cfg.blob /\ ~f.cfg.quiet => \A i \in DOMAIN errs : errs[i].blob, "E01:BlobIsPrinted")
     ELSE C(f.fin = <<>>, "E01:FailureNotDropped")
          \cup C(errs = <<>> \/ (Len(errs) = 1 /\ errs[1].type \in ({"Unsatisfiable", "SkipTest"} \cup (IF f.cfg.unsat THEN {"FailedHealthCheck"} ELSE {}))), "E01:NoFailureInvented")
          \cup C(errs = <<>> => f.nvalid > 0 \/ (f.ncalls = 0 /\ ran), "E01:SuccessNeedsAnExample")
          \cup C(errs # <<>> /\ errs[1].type = "Unsatisfiable" => f.nvalid = 0 /\ f.ncalls > 0, "E01:UnsatisfiableMeansNone")
          \cup C(errs # <<>> /\ errs[1].type = "SkipTest" => f.ncalls = 0 /\ ~ran, "E01:SkippedMeansNone")
(* ---- observers and statistics ------------------------------------------------------------------------------------------------------------ *)
Status(c) == CASE c.k = "valid" -> "passed" [] c.k \in {"invalid", "stop"} -> "gave_up" [] c.k = "fail" -> "failed" [] OTHER -> "any"
Rec(f, e) ==
  IF ~f.cfg.observe THEN {"E13:NoRecordWithoutObserver"}
  ELSE IF f.pend = <<>> THEN {"E13:OneRecordPerExample"}
  ELSE LET c == f.pend[1]
           inXfail == c.how = "explicit" /\ f.cfg.explicit[f.nx - 1].x
       IN C(Status(c) \in {"any", e.status} \/ inXfail, "E13:Status")
          \cup C(e.how = c.how \/ (f.cfg.verbose /\ {e.how, c.how} = {"final", "engine"}), "E13:HowGenerated")
          \cup C(c.body => e.rep = <<c.a, c.b>>, "E13:Representation")
          \cup C(e.how = "engine" => e.phase \in {"reuse", "generate", "target", "shrink"}, "E13:Phase")
          \cup C(e.how = "engine" => e.phase \in Range(f.cfg.phases) \/ (e.phase = "shrink" /\ "explain" \in Range(f.cfg.phases)), "E06:DisabledPhases")
          \cup C(e.how = "engine" => (f.phases.shrink # <<>> => e.phase = "shrink") /\ (f.phases.generate # <<>> => e.phase # "reuse"), "E06:PhasesInOrder")
          \cup C((c.ka /\ c.how # "explicit") \/ (c.how = "explicit" /\ c.body) <=> "a" \in Range(e.known), "E13:Arguments")
          \cup C((c.kb /\ c.how # "explicit") \/ (c.how = "explicit" /\ c.body) <=> "b" \in Range(e.known), "E13:Arguments")
          \cup C("a" \in Range(e.known) => e.a = c.a, "E13:Arguments") \cup C("b" \in Range(e.known) => e.b = c.b, "E13:Arguments")
          \cup C(Range(e.events) = c.events, "E13:EventsOfTheExample")
          \cup C(Range(e.targets) = {c.targets[i][1] : i \in DOMAIN c.targets}, "E13:TargetsOfTheExample")
StatOf(k) == CASE k = "valid" -> {"valid"} [] k \in {"invalid"} -> {"invalid"} [] k = "stop" -> {"invalid", "overrun"} [] k = "fail" -> {"interesting"} [] OTHER -> {"valid", "invalid", "interesting", "overrun"}
Stats(f, e) ==
  LET all == e.phases[1] \o e.phases[2] \o e.phases[3]
      (* with notes shown all the time, final examples can't be told from others                                                       *)
      right == Len(all) = Len(f.calls) \/ (f.cfg.verbose /\ Len(all) < Len(f.calls))
  IN
  C(right, "E13:StatisticsCountEveryExample")
  \cup C(right => \A i \in DOMAIN all : all[i].s \in StatOf(f.calls[i].k), "E13:StatisticsStatus")
  \cup C(right => \A i \in DOMAIN all : Range(all[i].e) = f.calls[i].events, "E13:StatisticsEvents")
  \cup C(f.cfg.observe => /\ Len(e.phases[1]) = Len(f.phases.reuse) /\ Len(e.phases[2]) = Len(f.phases.generate) /\ Len(e.phases[3]) = Len(f.phases.shrink), "E13:StatisticsPhases")
  \cup C(~f.loose => e.distinct = Cardinality({o[1] : o \in f.fails}), "E13:DistinctFailures")
  \cup LET labels == UNION {{f.best[i][j][1] : j \in DOMAIN f.best[i]} : i \in DOMAIN f.best}
           scores(n) == UNION {{f.best[i][j][2] : j \in {j \in DOMAIN f.best[i] : f.best[i][j][1] = n}} : i \in DOMAIN f.best}
       IN C({t[1] : t \in Range(e.targets)} = labels /\ \A t \in Range(e.targets) : t[1] \in labels => t[2] \in scores(t[1]) /\ \A s \in scores(t[1]) : s <= t[2], "E11:BestScores")
(* ---- one event ---------------------------------------------------------------------------------------------------------------------------- *)
Inside == {"setup", "exec", "draw", "body", "setupend", "drawn", "end", "tear", "tearend", "execend", "reg", "note", "event", "target", "retarget", "seedmod", "clean"}
Starts == {"setup", "exec", "draw", "body"}
Top(S) == Last(S.frames)
Put(S, f) == [S EXCEPT !.frames[Len(S.frames)] = f]
(* leaving an example: the generators are as they were before it                                                                         *)
Leave(S, f) == IF f.ex.at = "idle" THEN S
               ELSE LET rng == Restore(S, SelectSeq(f.ex.tasks, LAMBDA q : q.rng # <<>>), TRUE).rng
                    IN [S EXCEPT !.rng = [i \in DOMAIN S.rng |-> IF ~S.live[i] THEN 0 ELSE IF i \in f.ex.mng THEN f.ex.outer[i] ELSE rng[i]]]
(* the restoring tasks that are left at the end of the example                                                                           *)
Settle(f) == [f EXCEPT !.ex.tasks = SelectSeq(@, LAMBDA q : q.rng = <<>>)]
Zeroed(S, e) == [S EXCEPT !.zero = [i \in DOMAIN S.rng |-> IF i \in S.reg /\ S.live[i] /\ S.zero[i] = 0 THEN e.g[i] ELSE S.zero[i]],
                          !.rng = [i \in DOMAIN S.rng |-> IF i \in S.reg /\ S.live[i] THEN (IF S.zero[i] = 0 THEN e.g[i] ELSE S.zero[i]) ELSE S.rng[i]]]
Known(S, s, i) == {q \in S.seeded : q[1] = s /\ q[2] = i}
Move(S, e) ==
  IF e.k = "use" THEN [s |-> [S EXCEPT !.rng[e.i] = e.g[e.i]], bad |-> {}]
  ELSE IF e.k = "register" THEN [s |-> [S EXCEPT !.reg = @ \cup {e.i}], bad |-> {}]
  ELSE IF e.k = "drop" THEN [s |-> [S EXCEPT !.live[e.i] = FALSE, !.rng[e.i] = 0, !.reg = @ \ {e.i}], bad |-> {}]
  ELSE IF e.k = "run" THEN [s |-> [S EXCEPT !.frames = Append(@, Frame(e.cfg))], bad |-> {}]
  ELSE IF S.frames = <<>> THEN [s |-> S, bad |-> {"B01:OutsideAnyTest"}]
  ELSE IF e.k \in Inside THEN
    LET f0 == Top(S)
        opens == e.k \in Starts /\ Opens(f0, e)
        c == IF opens THEN Close(Settle(f0)) ELSE [f |-> f0, bad |-> {}]
        S1 == IF opens THEN Leave(S, f0) ELSE S
        f1 == IF opens THEN Begin(c.f, S1) ELSE f0
        S2 == IF opens THEN Zeroed(S1, e) ELSE S1
        bad1 == c.bad \cup C(opens => MayRun(c.f), "E12:NothingAfterAFailingExample") \cup C(opens /\ f1.cfg.observe => c.f.pend = <<>>, "E13:EveryExampleIsRecorded")
    IN IF e.k = "clean" THEN
         LET r == Restore(S2, f1.ex.tasks, FALSE)
             x == f1.ex
             ok == r.tasks # <<>> /\ Head(r.tasks).id = e.id
             x2 == [x EXCEPT !.tasks = IF r.tasks = <<>> THEN <<>> ELSE Tail(r.tasks), !.cerrs = IF e.out = "ok" THEN @ ELSE Append(@, Err(e))]
         IN [s |-> [Put(S2, [f1 EXCEPT !.ex = x2]) EXCEPT !.rng = r.rng],
             bad |-> bad1 \cup C(ok, "B01:CleanUpsInOrder") \cup C(Finished(f1), "B01:CleanUpsComeLast") \cup C(e.refused, "B01:RefusedOutside")]
       ELSE IF e.k = "seedmod" THEN
         IF f1.ex.smod # 0 THEN [s |-> S2, bad |-> bad1 \cup C(f1.ex.smod = e.seed, "R01:OneSeedPerExample")]
         ELSE LET mng == {i \in S2.reg : S2.live[i]}
                  x2 == [f1.ex EXCEPT !.smod = e.seed, !.tasks = Append(@, [id |-> 0, rng |-> S2.rng, mng |-> mng])]
                  S3 == [Put(S2, [f1 EXCEPT !.ex = x2]) EXCEPT
                           !.seeded = @ \cup {<<e.seed, i, e.g[i]>> : i \in {i \in mng : Known(S2, e.seed, i) = {}}},
                           !.rng = [i \in DOMAIN S2.rng |-> IF i \in mng THEN (IF Known(S2, e.seed, i) = {} THEN e.g[i] ELSE (CHOOSE q \in Known(S2, e.seed, i) : TRUE)[3]) ELSE S2.rng[i]]]
              IN [s |-> S3, bad |-> bad1]
       ELSE LET p == Part(f1, e) IN [s |-> Put(S2, [f1 EXCEPT !.ex = p.x]), bad |-> bad1 \cup p.bad]
  ELSE (* an event outside of all examples of this test                                                                                  *)
    LET f0 == Top(S)
        c == Close(Settle(f0))
        S1 == Leave(S, f0)
        f1 == c.f
    IN IF e.k = "rec" THEN
         LET ph == IF e.phase = "target" THEN "generate" ELSE e.phase
             f2 == [f1 EXCEPT !.pend = <<>>, !.phases = IF e.how = "engine" /\ ph \in {"reuse", "generate", "shrink"} THEN [@ EXCEPT ![ph] = Append(@, e.status)] ELSE @]
         IN [s |-> Put(S1, f2), bad |-> c.bad \cup Rec(f1, e)]
       ELSE IF e.k = "stats" THEN [s |-> Put(S1, f1), bad |-> c.bad \cup Stats(f1, e)]
       ELSE [s |-> [S1 EXCEPT !.frames = SubSeq(S1.frames, 1, Len(S1.frames) - 1)],
             bad |-> c.bad \cup Ret(f1, e) \cup C(f1.cfg.observe => f1.pend = <<>>, "E13:EveryExampleIsRecorded")]
Step(S, e) == LET m == Move(S, e) IN [s |-> [m.s EXCEPT !.rng = e.g], bad |-> m.bad \cup C(m.s.rng = e.g, "R01:StatesOfGenerators")]
==============================================================================
