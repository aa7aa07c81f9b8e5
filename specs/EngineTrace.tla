----------------------------- MODULE EngineTrace -----------------------------
(* Recorded runs of the real engine.  A trace has a table of examples (ex: sequences of numbers) and events:                             *)
(*   begin [n (max_examples), m, s, q (saved under the primary, secondary and pareto key, smallest first; an entry that can't be read is an example that starts with -5), db, phases, multi, leaves (-1: unknown), health, stable, kill] *)
(*   call [ex, out]   save / delete / move [key, to, ex] with keys m (primary), s (secondary), q (pareto)   fetch [key]                      *)
(*   end [out (ok, fail, group, flaky, unsat, health, kbd, error), fails, better, shrinks]                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, bad, cfg, prim, sec, outs, seq, best, found, recorded, valid, rejected, hc, last, clash, asks, louts, reuse, stale, valid0, over0
S == INSTANCE Engine
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
X(i) == IF i = 0 THEN <<-1>> ELSE Traces[t].ex[i]
vars == <<t, l, bad, cfg, prim, sec, outs, seq, best, found, recorded, valid, rejected, hc, last, clash, asks, louts, reuse, stale, valid0, over0>>
None == [x \in {} |-> 0]
Start == /\ outs = None /\ seq = <<>> /\ best = None /\ found = {} /\ recorded = {} /\ valid = 0 /\ rejected = 0 /\ hc = 0 /\ last = {} /\ clash = 0 /\ asks = None /\ louts = <<>> /\ valid0 = 0 /\ over0 = 0
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ cfg = [none |-> 0] /\ prim = {} /\ sec = {} /\ reuse = <<>> /\ stale = {} /\ Start
Has(p) == p \in S!Range(cfg.phases)
Out(e) == IF e \in DOMAIN outs THEN outs[e] ELSE ""
Failing == Ev.op = "call" /\ Ev.out \in S!Fails
Better == Failing /\ (Ev.out \notin found \/ S!Simpler(X(Ev.ex), X(best[Ev.out])))
Stable == cfg.stable = 1
C(p, name) == IF p THEN {} ELSE {name}
Reusing == reuse # <<>>
(* A saved example is tried by running an example that agrees with it (cut or extended at random); it is passed over without a run when  *)
(* what it was extended to has been run before.                                                                                          *)
Known(i) == \E e \in DOMAIN outs : S!Agree(X(reuse[i]), X(e))
Matches == {i \in DOMAIN reuse : S!Agree(X(reuse[i]), X(Ev.ex)) /\ \A j \in 1 .. i - 1 : Known(j)}
AllKnown == \A i \in DOMAIN reuse : Known(i)
At == CHOOSE i \in Matches : \A j \in Matches : i <= j
(* of these entries it's certain that they ran and didn't fail                                                                           *)
Stale == {e \in stale : \E x \in DOMAIN outs : Len(X(x)) <= Len(X(e)) /\ S!Agree(X(x), X(e)) /\ outs[x] \notin S!Fails}
(* the call tries another saved example                                                                                                 *)
Corpus == Has("reuse") /\ cfg.db = 1 /\ \E e \in S!Range(cfg.s) \cup S!Range(cfg.q) : S!Agree(X(e), X(Ev.ex))
OnCall ==
  C(cfg.db = 1 /\ Stable => found \subseteq recorded, "E03:RecordedBeforeNext")
  \cup C(Ev.out \in S!Fails /\ Stable => ~(Ev.ex \in DOMAIN outs /\ outs[Ev.ex] # Ev.out), "E08:HarnessDeterministic")
  \cup C(Reusing /\ Stable => Matches # {} \/ AllKnown, "E02:SavedExamplesFirst")
  \cup C((~Reusing /\ ~Has("generate") /\ ~Has("target") /\ found = {}) => Corpus, "E06:DisabledPhases")
  \cup C((~Reusing /\ found # {} /\ ~Has("shrink") /\ ~Has("explain") /\ Stable) => (Ev.out \in found /\ Ev.ex = best[Ev.out]) \/ Corpus, "E06:DisabledPhases")
  \cup C((Stable /\ ~(Has("reuse") /\ cfg.db = 1) /\ found = {} /\ Ev.out # "over") => Out(Ev.ex) \in {"", "over"}, "E07:NeverTwice")
  \cup C((~Reusing /\ found = {}) => valid < cfg.n, "E06:MaxExamples")
  \cup C(found = {} => Len(seq) < S!CallLimit(cfg.n), "E06:CallLimit")
OnSave ==
  C(Ev.key = "m" /\ Stable => Out(Ev.ex) \in S!Fails, "E10:OnlyFailuresAreSaved")
  \cup C(Ev.key = "m" /\ Stable /\ Out(Ev.ex) \in S!Fails => best[Out(Ev.ex)] = Ev.ex, "E04:OnlySimplerReplaces")
OnDelete == {}
After(p, s) == C(Stable => S!Recoverable(recorded, p \cup s, Out), "E03:NeverLost")
Reported == {S!FailName(Ev.fails[i]) : i \in DOMAIN Ev.fails}
LastCalls(n) == {seq[i] : i \in (Len(seq) - n + 1) .. Len(seq)}
Simplest == CHOOSE f \in found : \A g \in found : g = f \/ S!Simpler(X(best[f]), X(best[g]))
(* the run ended because its budget, its limit on calls or the space of examples was used up                                            *)
Ended == valid >= cfg.n \/ Len(seq) >= S!CallLimit(cfg.n) \/ (cfg.leaves >= 0 /\ Cardinality({e \in DOMAIN outs : outs[e] # "over"}) = cfg.leaves)
Over == Ev.out \in {"ok", "unsat"}
(* nothing saved was tried first                                                                                                        *)
Fresh == cfg.m = <<>> /\ cfg.s = <<>> /\ cfg.q = <<>>
OnEnd ==
  C(Stable /\ Ev.out \in {"ok", "unsat"} => found = {}, "E01:FailureNotDropped")
  \cup C(Ev.out \in {"fail", "group"} => found # {}, "E01:NoFailureInvented")
  \cup C(Ev.out = "skip" => seq = <<>>, "E01:OnlyTheTestsErrors")
  \cup C(Ev.out # "error", "E01:OnlyTheTestsErrors")
  \cup C(Ev.out \in {"fail", "group"} => Reported \subseteq found, "E05:OnlyFoundFailures")
  \cup C(Ev.out \in {"fail", "group"} /\ cfg.multi = 1 => Reported = found, "E05:EveryFailureReported")
  \cup C(Ev.out \in {"fail", "group"} => Cardinality(Reported) = Len(Ev.fails), "E05:ReportedOnce")
  \cup C((Ev.out = "fail" => Len(Ev.fails) = 1) /\ (Ev.out = "group" => Len(Ev.fails) > 1), "E05:GroupIffSeveral")
  \cup C(Stable /\ Ev.out \in {"fail", "group"} /\ cfg.multi = 0 => Reported = {Simplest}, "E05:SimplestOnly")
  \cup C(Stable /\ Ev.out \in {"fail", "group"} => Len(seq) >= Len(Ev.fails) /\ LastCalls(Len(Ev.fails)) = {best[f] : f \in Reported \cap found}, "E04:ReportedIsSimplest")
  \cup C(Stable /\ Ev.out \in {"fail", "group"} /\ Has("shrink") /\ Ev.shrinks < 450 /\ cfg.m = <<>> => Ev.better = <<>>, "E04:LocallyMinimal")
  \cup C(Stable => Ev.out # "flaky", "E08:DeterministicNotFlaky")
  \cup C(~Stable /\ found # {} => Ev.out \notin {"ok", "unsat"}, "E08:FlakyNotClean")
  \cup C(~Stable /\ Ev.out \in {"fail", "group"} => Len(louts) >= Len(Ev.fails) /\ \A f \in Reported : \E i \in (Len(louts) - Len(Ev.fails) + 1) .. Len(louts) : louts[i] = f, "E08:VanishedNotReportedPlain")
  \cup C(~Stable /\ Ev.out = "flaky" => Reported \subseteq found, "E08:OnlyRealFailuresCarried")
  \cup C(~Stable /\ Ev.out = "flaky" /\ Ev.key = "FlakyFailure" => Reported # {}, "E08:FailuresCarried")
  \cup C(~Stable => Ev.out # "error" /\ (Ev.out = "skip" => seq = <<>>), "E08:NoInternalError")
  \cup C(clash > 0 => Ev.out \notin {"ok", "unsat"}, "E08:InconsistencyReported")
  \cup C(Ev.out = "unsat" => valid = 0, "E10:UnsatisfiableOnlyWithoutValid")
  \cup C(Ev.out = "ok" /\ seq # <<>> => valid > 0, "E10:UnsatisfiableReported")
  \cup C(Stable /\ Over /\ Has("generate") => Ended, "E07:NoFalseExhaustion")
  \cup C(Stable /\ Over /\ Has("generate") /\ cfg.leaves >= 0 /\ cfg.leaves < cfg.n => Cardinality({e \in DOMAIN outs : outs[e] # "over"}) = cfg.leaves, "E07:FiniteSpaceCovered")
  \cup C(Stable /\ cfg.db = 1 /\ Ev.out \in {"fail", "group"} => \A f \in found : best[f] \in prim, "E02:MinimalSaved")
  \cup C(Stable /\ cfg.db = 1 /\ Ev.out \in {"ok", "fail", "group", "unsat"} => (Stale \ last) \cap (prim \cup sec) = {}, "E02:StaleRemoved")
  \cup C(Stable /\ Ev.out \in {"ok", "fail", "group", "unsat"} /\ ~Ended => AllKnown, "E02:AllSavedTried")
  \cup C(Stable /\ cfg.db = 1 /\ Has("reuse") /\ Over /\ AllKnown /\ (~Ended \/ Len(seq) > Len(cfg.m) + Len(cfg.s)) => prim = {}, "E02:StaleRemoved")
  \cup C(Stable /\ cfg.db = 1 /\ Has("reuse") /\ Over /\ AllKnown /\ Len(cfg.m) + Len(cfg.s) <= (IF Has("generate") THEN S!Max(2, (cfg.n + 9) \div 10) ELSE S!Max(2, cfg.n)) /\ (~Ended \/ Len(seq) > Len(cfg.m) + Len(cfg.s)) => sec = {}, "E02:StaleRemoved")
  \cup C(Ev.out = "health" /\ Fresh => cfg.health = 1 /\ valid0 < 10 /\ CASE Ev.key = "filter" -> rejected = 50 [] Ev.key = "large" -> over0 = 20 [] Ev.key = "base" -> Len(seq) = 1 /\ over0 = 0 [] OTHER -> FALSE, "E10:HealthCheckAtLimit")
  \cup C(cfg.health = 1 /\ hc = 1 /\ Fresh /\ ~Ended => Ev.out = "health", "E10:HealthCheckFires")
Verdict == CASE Ev.op = "call" -> OnCall
             [] Ev.op = "save" -> OnSave \cup After(IF Ev.key = "m" THEN prim \cup {Ev.ex} ELSE prim, IF Ev.key = "s" THEN sec \cup {Ev.ex} ELSE sec)
             [] Ev.op = "delete" -> After(IF Ev.key = "m" THEN prim \ {Ev.ex} ELSE prim, IF Ev.key = "s" THEN sec \ {Ev.ex} ELSE sec)
             [] Ev.op = "move" -> After(prim \ {Ev.ex}, sec \cup {Ev.ex})
             [] Ev.op = "end" -> OnEnd
             [] OTHER -> {}
Put(f, k, v) == (k :> v) @@ f
Readable(e) == X(e) = <<>> \/ X(e)[1] >= 0
Begin == /\ cfg' = Ev /\ outs' = None /\ seq' = <<>> /\ best' = None /\ found' = {} /\ recorded' = {} /\ valid' = 0 /\ rejected' = 0 /\ hc' = 0 /\ last' = {} /\ clash' = 0 /\ asks' = None /\ louts' = <<>> /\ valid0' = 0 /\ over0' = 0
         /\ prim' = S!Range(Ev.m) /\ sec' = S!Range(Ev.s) /\ stale' = {}
         /\ reuse' = IF "reuse" \in S!Range(Ev.phases) /\ Ev.db = 1 THEN SelectSeq(Ev.m, Readable) ELSE <<>>
Call == /\ outs' = Put(outs, Ev.ex, Ev.out) /\ seq' = Append(seq, IF Stable THEN Ev.ex ELSE IF Ev.out \in S!Fails THEN Ev.ex ELSE 0)
        /\ louts' = Append(louts, Ev.out)
        (* what a test asked for or did after the same choices as before, where the two differ; a failing example that passes is found out in the end *)
        /\ clash' = clash + IF Stable THEN 0 ELSE Cardinality({i \in DOMAIN Ev.asks : LET p == SubSeq(X(Ev.ex), 1, i - 1) IN p \in DOMAIN asks /\ asks[p] # Ev.asks[i]})
        /\ asks' = IF Stable THEN asks ELSE [p \in DOMAIN asks \cup {SubSeq(X(Ev.ex), 1, i - 1) : i \in DOMAIN Ev.asks} |-> IF p \in DOMAIN asks THEN asks[p] ELSE Ev.asks[Len(p) + 1]]
        /\ valid' = valid + IF Ev.out = "p" THEN 1 ELSE 0
        (* health checks count from the second example on (the first is the simplest one), until ten were valid                        *)
        /\ rejected' = rejected + IF Ev.out = "r" /\ seq # <<>> THEN 1 ELSE 0
        /\ over0' = over0 + IF Ev.out = "over" /\ seq # <<>> THEN 1 ELSE 0
        /\ valid0' = valid0 + IF Ev.out = "p" /\ seq # <<>> THEN 1 ELSE 0
        /\ last' = IF Reusing /\ Matches # {} THEN {reuse[At]} ELSE last
        /\ found' = IF Failing THEN found \cup {Ev.out} ELSE found
        /\ hc' = IF valid0 < 10 /\ found' = {} /\ (rejected' = 50 \/ over0' = 20) THEN 1 ELSE hc
        /\ best' = IF Better THEN Put(best, Ev.out, Ev.ex) ELSE best
        /\ reuse' = IF ~Reusing THEN reuse ELSE IF Matches = {} \/ (Failing /\ cfg.multi = 0) THEN <<>> ELSE SubSeq(reuse, At + 1, Len(reuse))
        /\ stale' = stale \cup (IF Reusing /\ Matches # {} THEN {reuse[i] : i \in 1 .. At} ELSE {})
        /\ UNCHANGED <<cfg, prim, sec, recorded>>
Db == /\ prim' = CASE Ev.op = "save" /\ Ev.key = "m" -> prim \cup {Ev.ex} [] Ev.op = "delete" /\ Ev.key = "m" -> prim \ {Ev.ex} [] Ev.op = "move" /\ Ev.key = "m" -> prim \ {Ev.ex} [] OTHER -> prim
      /\ sec' = CASE Ev.op = "save" /\ Ev.key = "s" -> sec \cup {Ev.ex} [] Ev.op = "delete" /\ Ev.key = "s" -> sec \ {Ev.ex} [] Ev.op = "move" /\ Ev.to = "s" -> sec \cup {Ev.ex} [] OTHER -> sec
      /\ recorded' = IF Ev.op = "save" /\ Ev.key = "m" /\ Out(Ev.ex) \in S!Fails THEN recorded \cup {Out(Ev.ex)} ELSE recorded
      /\ UNCHANGED <<cfg, outs, seq, best, found, valid, rejected, hc, last, clash, asks, louts, reuse, stale, valid0, over0>>
Next == /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ UNCHANGED t /\ bad' = Verdict
        /\ CASE Ev.op = "begin" -> Begin
             [] Ev.op = "call" -> Call
             [] OTHER -> Db
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # {} => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
