#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ spec checked with TLC; "
CLAIMS = {
 "D01": (TV + "every model transition replayed on the real databases, random histories validated as traces",
         "Exhaustive over the model with two leaves, two keys and two values (all transitions replayed on in-memory, directory, redis and background databases and, sampled, on compositions); larger histories are sampled. Trusts fakeredis."),
 "D02": (TV + "every transition of the listener model replayed on the real databases, random histories validated as traces",
         "All transitions of a five-handle model (sampled in quick); random compositions with in-memory and redis leaves. The directory database's asynchronous file watching is not covered."),
 "D03": (TV + "the file-system steps model-checked with crashes and faults; intermediate directory contents of real calls, injected faults and overlapped calls validated as traces",
         "Two concurrent processes, one spurious failure in the model; on the real code every intermediate state of every call from every initial state over two keys and two values, each file-system call failing once, and other calls at (sampled) lines. Process crashes only, not power loss."),
 "D04": (TV + "a scaled-down codec model-checked exhaustively; recorded encodings and decodings validated as traces",
         "The scaled-down model is exhaustive up to two choices; the real codec is run on all size boundaries and random and damaged encodings."),
 "K01": (TV + "every model transition replayed on the real caches, random operation sequences validated as traces",
         "Exhaustive over a small cache model; longer histories sampled."),
 "V05": (TV + "interval algebra and order model-checked on a small universe; recorded results of the real operations validated as traces",
         "All pairs of interval sets over a small universe (sampled in quick), random sets over all of Unicode; character queries are compared with unicodedata at all interval ends and sampled points."),
 "C02": (TV + "numberings model-checked on small domains; recorded conversions and enumerations validated as traces",
         "All small integer bounds and targets, all short strings over small alphabets, float intervals near zero and elsewhere; bit-exact float encoding on special and random patterns. Larger spaces are sampled."),
 "R02": (TV + "a random object's methods and memo model-checked; recorded call sequences of real generated random objects validated as traces",
         "All methods with sampled arguments, seeds, copies and states; distributions with degenerate parameters are not distinguished."),
 "V01": (TV + "the generating loop model-checked against the set of legal collections; all results of real strategies over small element spaces validated as traces",
         "Element spaces of at most five values and sizes of at most five; completeness only where all choice sequences could be executed."),
 "V04": (TV + "the state an example remembers model-checked; recorded draws, calls and flag queries of real strategies in random programs of several, also nested, examples validated as traces",
         "Two examples, two keys, two names in the model; random programs over up to five shared strategies, two functions, two flag sets and two recursive strategies."),
 "V03": (TV + "the worklist computation of emptiness model-checked against least fixed points on all small systems; answers and draws of real systems of strategies validated as traces",
         "All systems of two (thorough: three) members in the model; real systems of up to six members are sampled, in several orders of asking."),
 "V02": (TV + "rewriting of predicate chains model-checked against testing them; results of real filtered strategies validated as traces",
         "Predicates are generated as source code, partials, methods and opaque functions; completeness over finite spaces and at probe values around all constants. Regular-expression filters: soundness, and completeness only over finite texts."),
 "C01": (TV + "replay of a recorded choice sequence model-checked as a fixed point; recorded executions and replays of random draw programs and real strategies validated as traces",
         "Small draw programs and prefixes exhaustively in the model; random programs of all five kinds of choice and a catalogue of some eighty strategies, with damaged, cut and extended prefixes."),
 "S01": (TV + "bundles, preconditions, initialisation and teardown model-checked; recorded runs of generated state machines validated as traces",
         "Two bundles, three rules in the model; generated machines of up to six rules, three bundles, inheritance and swarm testing, with failures, rejections and interrupts at every place."),
 "S02": (TV + "naming of values model-checked; printed programs of generated failing state machines executed and compared step by step as traces",
         "Values are distinguished by identity; the printed program is executed in a fresh machine. Machines as in S01."),
 "E02": (TV + "the engine's database protocol model-checked; recorded runs of the real engine on generated tests, edited in between and with damaged databases, validated as traces",
         "Examples are sequences of small numbers; secondary examples are sampled by the engine and only checked where all of them have to be tried."),
 "E03": (TV + "the engine's database protocol model-checked with a kill between any two steps; runs of the real engine interrupted at calls of the test and at writes to the database, and resumed, validated as traces",
         "Interrupts by KeyboardInterrupt at every call and before every write (sampled in quick); the durability of single writes is D03."),
 "E04": (TV + "the engine model-checked; complete recorded runs of the real engine validated as traces, with the neighbours of every reported example executed",
         "Generated tests over numbers and over sixteen other strategies; local minimality with respect to leaving out or zeroing one choice."),
 "E05": (TV + "the engine model-checked; recorded runs on generated tests with up to six failures, told apart by type, line, context or group, validated as traces",
         "Failures raised in one file; exception groups of depth one. Sampled."),
 "E06": (TV + "the engine model-checked; recorded runs with all combinations of phases and many budgets validated as traces",
         "Explicit examples are E12's."),
 "E07": (TV + "the engine model-checked; recorded runs on generated tests with finitely many examples validated as traces against their exact number",
         "Tests with at most 300 examples (complete coverage), others for repetition only."),
 "E08": (TV + "a test that answers at random, against an engine that remembers, model-checked; recorded runs of tests that change their behaviour in twelve ways validated as traces",
         "Changes at any call, in what is drawn, how it ends, and which error is raised."),
 "G01": (TV + "profiles, contexts and resolution model-checked over all short histories; recorded histories of the real settings on three threads validated as traces",
         "All eleven settings with legal and illegal values; histories of some 25 operations."),
 "E10": (TV + "the engine model-checked; recorded runs on generated tests that mostly reject or overrun validated as traces",
         "Slow generation is not checked (time)."),
 "B01": (TV + "the life of an example (setup, body, teardown, clean-ups, nesting) model-checked; recorded runs of real generated tests validated as traces",
         "Four kinds of test (plain, method with executor, setup/teardown hooks, state machine); every way an example can end, clean-ups that raise or register more; sampled."),
 "R01": (TV + "the life of a run with registered generators model-checked; recorded generator states at the start of every example and at the end of every real run validated as traces",
         "Generators: random, numpy, registered instances, ones that fail to seed; nested runs; garbage collection of generators at any point. Sampled."),
 "E01": (TV + "the life of a run model-checked; recorded runs of real generated tests - every call of the body, its arguments and the error raised - validated as traces",
         "Generated tests with up to three arguments over ints, lists, text, flatmaps, data() and state; phases, seeds, databases and verbosity vary. Deterministic bodies. Sampled."),
 "E09": (TV + "which sources of entropy a run may use model-checked by self-composition; runs of generated tests in processes with different hash seeds, generator states, thread counts and histories compared and validated as traces",
         "Two processes per pair, with the same modules loaded; no deadlines; sets are compared as sets. Sampled."),
 "E11": (TV + "the front's incremental algorithm model-checked against its definition on all small sequences; recorded fronts after every addition to real fronts, and scores of recorded engine runs, validated as traces",
         "Model: sequences of up to five examples over small vectors. Real fronts: up to 60 examples of three scores. Timing-related events excluded."),
 "E12": (TV + "the explicit examples' part of a run model-checked; recorded runs of real generated tests with explicit examples, expectations and reproduction blobs validated as traces",
         "Up to five explicit examples per test; blobs valid, stale, corrupted. Sampled."),
 "E13": (TV + "a run with observers model-checked; records, statistics and executed examples of real generated runs validated as traces",
         "Observation records of choices, timing and coverage are not compared. Sampled."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i][:2]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC; specs in specs/, harness in lib/, one driver per property in checks/."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
