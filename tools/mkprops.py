#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property; run it to regenerate the file)."""
import json, os
S = "hypothesis-python/src/hypothesis/"
out = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- example databases
P("D01", "Every example database behaves as a map from keys to sets of values",
  "For every sequence of save, delete, move and fetch calls, each database class (in-memory, directory, read-only, multiplexed, background-write, redis) answers every fetch with exactly the set of values that a plain map from keys to sets would hold: saving is idempotent, deleting an absent value does nothing, moving removes from the source and adds to the destination even if the value was absent from the source, and keys never leak into one another. A read-only wrapper never changes the wrapped database, a multiplexed one applies every write to all members and fetches the union without duplicates; values may be saved and deleted while a fetch is iterated (what is there throughout comes exactly once, and the iteration doesn't fail because of it), and a background-write one lets every fetch see every earlier write.",
  ["histories", "inputs"], "All operation sequences over any keys and values (including empty, equal source and destination, and values shared between keys), for every class and for nested compositions of them.",
  "The unit tests and the one rule-based test drive short random sequences on few compositions; they cannot cover all histories over all transitions of every class.",
  ["database.py", "extra/redis.py"],
  [("save/fetch/delete/move of each class", "database.py"), ("redis set operations", "extra/redis.py")],
  [("key -> set of values", "what the database holds", "database.py")], ["return of fetch() after each call"])
P("D02", "Database listeners hear exactly the changes that happened",
  "While a listener is registered it is called once for every real change of the database it listens to - a save event when a value is newly stored, a delete event when a stored value is removed, in the order of the changes - and not for saves of already stored values or deletes of absent ones; a move counts as a delete from the source if it was there and a save to the destination if it was new. Listeners that were removed, or not yet added, hear nothing, adding one twice calls it twice, and composite databases relay the events of what they wrap: a background-write database those of the database it writes to, a multiplexed one those of each of its members, whoever made the change; a read-only wrapper, which changes nothing, reports nothing.",
  ["histories"], "All interleavings of add_listener, remove_listener, clear_listeners, save, delete and move on the in-memory and redis databases and on wrappers around them, including re-adding after clearing and listeners that unregister themselves while being called.",
  "Tests look at a handful of short scripted histories; listener state (attached or not to the wrapped database) is a state machine whose every transition matters.",
  ["database.py"],
  [("start/stop listening transitions", "database.py:ExampleDatabase"), ("_broadcast_change", "database.py")],
  [("listeners", "the registered callbacks", "database.py")], ["calls of the registered callbacks"])
P("D03", "The on-disk database survives crashes and concurrent processes",
  "If a process is interrupted, or a file-system call fails, at any point of any save, delete or move on a directory database, then every later fetch returns only values that were really saved under that key in full, never a partial or foreign value, and values not touched by the interrupted call are all still there. A save that returned without interference can be fetched by any process afterwards, a move never loses the value from both keys, and concurrent savers of different values under the same key do not lose one another's values.",
  ["crash_points", "schedules", "fault_sequences"], "Every file-system call of every operation as the crash or failure point, and every interleaving of file-system steps of two processes working on the same directory.",
  "Tests run operations to completion in one process; they never stop between the temporary file and the rename, nor interleave two processes.",
  ["database.py"],
  [("write to a temporary file then rename", "database.py:DirectoryBasedExampleDatabase.save"), ("rename, else delete and save", "database.py:DirectoryBasedExampleDatabase.move")],
  [("directory tree", "key directories and value files", "database.py:DirectoryBasedExampleDatabase")], ["fetch() from a fresh database object on the same path"])

P("D04", "Saved choice sequences round-trip exactly, and junk never breaks anything",
  "Serialising any sequence of choices - booleans, integers of any size and sign, floats including signed zeros and every bit pattern of not-a-number, byte strings, text including lone surrogates, of any length - and reading it back gives the same sequence, with the same types and bit patterns, and different sequences never serialise to the same bytes. Reading back any other bytes gives either nothing or a sequence of choices, and never raises.",
  ["inputs"], "All choice sequences and all byte strings.",
  "The space of values, sizes (one-byte, multi-byte lengths) and truncations is unbounded; tests sample it.",
  ["database.py"],
  [("choices_to_bytes, choices_from_bytes and the variable-length sizes", "database.py")],
  [("tag, size, payload", "one encoded choice", "database.py:choices_to_bytes")], ["bytes returned by choices_to_bytes", "result of choices_from_bytes"])

# ---------------------------------------------------------------- running a test
P("E01", "A test is reported as failing exactly when a real example of it fails",
  "Running a property-based test raises an error from the test body if and only if some example that was actually executed raised it: a test whose executed examples all pass or are rejected returns normally (or reports that nothing could be generated, or a failed health check), and a failing one raises the exception the body raised on the reported example, whose printed arguments are the ones the body was last called with and, passed to the body again, fail the same way. The examples that made it fail are never dropped: once an example has failed, the run does not end as a success.",
  ["programs", "inputs", "configurations"], "All deterministic test bodies over any strategies, under all combinations of phases, settings, database contents and seeds.",
  "Tests assert one outcome for one body at a time; the claim is about every combination of body, settings, phase and database content.",
  ["core.py", "internal/conjecture/engine.py"],
  [("execute_once / run_engine final replay", "core.py:StateForActualGivenExecution"), ("interesting_examples bookkeeping", "internal/conjecture/engine.py:ConjectureRunner.test_function")],
  [("interesting examples", "best failing example per distinct failure", "internal/conjecture/engine.py")], ["exception out of the decorated test", "calls of the test body"])
P("E02", "Saved failing examples are replayed first, and stale ones discarded",
  "When a test with a database runs and reuse is enabled, the examples saved for it are executed before any new example is generated, simplest first, so a saved example that still fails makes the run fail at once without generating; saved entries that no longer fail, or cannot be decoded, are removed from where they were stored. After a run that found failures the minimal example of every reported failure is stored under the test's key, and no reported failure's example is only under another test's key.",
  ["histories", "inputs", "configurations"], "All initial database contents (valid, stale, undecodable, primary and secondary entries), all test bodies, and all sequences of runs in which the body or settings change between runs.",
  "Tests script two-run histories with one saved example; they cannot cover arbitrary contents nor longer histories.",
  ["internal/conjecture/engine.py", "core.py", "database.py"],
  [("reuse_existing_examples", "internal/conjecture/engine.py"), ("save_choices / downgrade_choices / clear_secondary_key", "internal/conjecture/engine.py")],
  [("primary and secondary keys", "best and second-best failing examples of a test", "internal/conjecture/engine.py")], ["calls on the database and of the test body"])
P("E03", "A failure that was found is never lost, whatever interrupts the run",
  "From the moment an example has failed and been recorded until the end of the run, at every point in between - including every call to the database and every call of the test body, where the process may be killed or interrupted - the database holds, under the test's primary or secondary key, an example that fails with that same distinct failure. Once recorded, a distinct failure keeps a reproducing entry for the rest of the run even while simpler examples replace it.",
  ["crash_points", "histories"], "Every prefix of the sequence of database calls and test executions in a run, for all test bodies with one or several distinct failures and any initial database contents.",
  "Tests only look at the database after a run has ended (or in one scripted interrupt); every prefix of every run is a crash point.",
  ["internal/conjecture/engine.py"],
  [("move the old best to the secondary key before saving the new", "internal/conjecture/engine.py:ConjectureRunner.downgrade_choices"), ("save on interrupt", "internal/conjecture/engine.py:ConjectureRunner.test_function")],
  None, ["calls on the database"])
P("E04", "Shrinking only simplifies, and ends on a failing example of the same failure",
  "For each distinct failure, the sequence of examples kept as its best only ever gets strictly simpler - shorter choice sequence first, then smaller choices from the left - every kept example was executed and failed with that same failure, and the reported example is the simplest of all examples executed in that run that failed that way. When shrinking finishes without being cut off by a limit, no single choice of the reported example can be deleted, or lowered to its simplest value, with the test still failing the same way.",
  ["programs", "inputs"], "All deterministic test functions over choice sequences, any starting failing example, and any number of distinct failures found along the way.",
  "Shrink-quality tests check final results for chosen functions; the order, sameness and minimality claims are over every function and every intermediate step.",
  ["internal/conjecture/shrinker.py", "internal/conjecture/engine.py"],
  [("incorporate_test_data", "internal/conjecture/shrinker.py:Shrinker"), ("interesting_examples replacement", "internal/conjecture/engine.py:ConjectureRunner.test_function")],
  [("shrink target", "current best example", "internal/conjecture/shrinker.py")], ["executions of the test function and the examples reported at the end"])
P("E05", "Every distinct failure is reported once, or only the simplest if so configured",
  "With multiple-bug reporting on, a run that found several distinct failures (different exception type, raising line, or failures being handled when they were raised, or members of a group) reports each of them exactly once, in one group when there are several and as the plain exception when there is one; with it off, exactly one failure is raised and it belongs to the simplest failing example. A failure is never attributed to another failure's location, and no failure that was found during the run is missing from the report.",
  ["programs", "configurations"], "All test bodies with any number of distinct failures (by type, line, cause or group member) found in any order, in generation, replay or shrinking.",
  "Tests exercise two or three fixed bodies; discovery order and interplay with shrinking and replay vary with every body and seed.",
  ["core.py", "internal/conjecture/engine.py", "internal/escalation.py"],
  [("InterestingOrigin", "internal/escalation.py"), ("run_engine report loop", "core.py:StateForActualGivenExecution.run_engine")],
  None, ["the raised exception or exception group"])
P("E06", "Example budgets and phases are respected",
  "A run never executes more non-failing, non-rejected examples than max_examples in its generation phase once nothing has failed, never executes more than ten times that many examples (or a thousand, if larger) before a failure is found, and uses the whole budget unless the space is exhausted, a failure was found, or a limit was reached. Disabled phases do nothing: explicit examples, database reuse, generation, targeting and shrinking each run only if enabled, in that order, and with generation disabled no example that is not explicit or saved is executed.",
  ["configurations", "programs"], "All combinations of max_examples, phases, database contents and bodies with any mixture of passing, rejected, overrunning and failing examples.",
  "Tests check a few settings on a few bodies.",
  ["internal/conjecture/engine.py", "core.py"],
  [("exit conditions", "internal/conjecture/engine.py:ConjectureRunner.test_function"), ("should_generate_more", "internal/conjecture/engine.py")],
  [("valid_examples, call_count", "budget counters", "internal/conjecture/engine.py")], ["number and order of executions of the test body"])
P("E07", "No example is generated twice, and finite spaces are covered exactly",
  "For a deterministic test, random generation never executes the same choice sequence twice in a run, and predictions of what an already explored choice sequence would do always agree with what executing it does. If the test has fewer possible examples than its budget and none fails, a run executes every one of them exactly once and then stops because nothing is left - never earlier, and never claiming exhaustion while an unexplored example remains.",
  ["programs", "histories"], "All deterministic tests viewed as decision trees of choices (any branching, forced choices, rejected or failing leaves) and all orders of exploration.",
  "Tests sample fixed small trees; the claim is over every tree and exploration history.",
  ["internal/conjecture/datatree.py", "internal/conjecture/engine.py"],
  [("generate_novel_prefix / is_exhausted / rewrite", "internal/conjecture/datatree.py:DataTree"), ("TreeRecordingObserver", "internal/conjecture/datatree.py")],
  [("tree of explored choices", "which branches were seen and which are exhausted", "internal/conjecture/datatree.py")], ["choice sequences passed to the test function"])
P("E08", "Non-deterministic tests are reported as flaky, never as a clean result",
  "If a failure found during a run does not happen again when its example is replayed for the report, the run raises a flaky-test error that carries the original exceptions, and never returns normally nor reports the vanished failure as a plain failure. If replaying the same choices leads the test to ask for a different kind or range of choice, or to end differently, where earlier executions continued, the run reports inconsistent data generation or flakiness rather than silently accepting it, and deterministic tests are never reported as flaky.",
  ["histories", "programs"], "All tests whose outcome or data generation may depend on the number of earlier calls, with the change at any call index.",
  "Tests switch behaviour at one or two hand-picked call counts.",
  ["core.py", "internal/conjecture/datatree.py", "internal/conjecture/engine.py"],
  [("final replay check", "core.py:StateForActualGivenExecution.execute_once"), ("inconsistent_generation", "internal/conjecture/datatree.py")],
  None, ["exception out of the decorated test"])
P("E09", "Runs are reproducible: same test and seed, same examples",
  "With derandomize, or with the same explicit seed, two runs of the same test with the same settings and database contents, by the same Python with the same modules loaded and without time limits, execute the same examples in the same order and end with the same result, independently of the state of the global random number generators, of the hash seed (but for the order in which a set is iterated or printed), of the addresses of objects, and of which other tests ran before in the process. Different executions of a derandomized test in different processes agree as well.",
  ["programs", "configurations", "histories"], "All tests and settings, all prior histories of the process, all hash seeds.",
  "Tests compare two runs in one process; global state, hash randomisation and earlier tests are what breaks this.",
  ["core.py", "internal/conjecture/engine.py", "internal/entropy.py"],
  [("get_random_for_wrapped_test", "core.py")], None, ["calls of the test body"])
P("E10", "Rejected examples never count as passing or failing, and too many are reported",
  "An example whose assumption or filter fails is neither a pass nor a failure: it never makes the test fail, is never reported or saved, and does not use up the budget of valid examples. If no example satisfies the assumptions the run reports the test as unsatisfiable instead of passing, and a health check fires exactly when its documented limit is reached before ten valid examples were seen (fifty rejected examples, or twenty too-large ones), unless suppressed or a failure was found first.",
  ["programs", "configurations"], "All patterns of passing, rejected, overrunning and failing examples in any order, and all sets of suppressed health checks.",
  "Tests use bodies that always or never reject; the thresholds and their interplay with failures and suppression need all orders.",
  ["internal/conjecture/engine.py", "core.py", "control.py"],
  [("record_for_health_check", "internal/conjecture/engine.py"), ("Unsatisfiable check", "core.py")],
  [("health check state", "valid, invalid and overrun counts", "internal/conjecture/engine.py:HealthCheckState")], ["exception out of the decorated test", "calls of the test body"])
P("E11", "Target scores are tracked exactly, and the Pareto front is non-dominated",
  "The best score reported for each target label is the maximum over all valid executed examples of that run, never decreases, and targeting never changes whether a failure is found to be a failure. The set of saved trade-off examples keeps only examples that have a score, contains none that another kept one dominates (at least as simple, at least as good a status, on every score and in structure, failing the same way if failing), and contains no duplicates. While at most ten are kept it is exactly the non-dominated ones among all those offered; beyond that it may be an approximation, but no example is lost that is better than everything kept. Every example that leaves it is announced, and removed from the database.",
  ["programs", "histories"], "All sequences of executed examples with any statuses, lengths and multi-dimensional scores in any order.",
  "Tests add a few hand-made examples; dominance bookkeeping has many insertion orders.",
  ["internal/conjecture/pareto.py", "internal/conjecture/engine.py", "internal/conjecture/optimiser.py", "control.py"],
  [("ParetoFront.add", "internal/conjecture/pareto.py"), ("best_observed_targets", "internal/conjecture/engine.py")],
  [("front", "pairwise non-dominated examples", "internal/conjecture/pareto.py")], ["the front after each addition", "target statistics"])
P("E12", "Explicit examples run first, in order, exactly once, with their own rules",
  "Explicit examples are executed before anything else, from the top decorator down, each exactly once with exactly the given arguments; one that is rejected counts neither as passing nor as failing; the first failing one stops the run and is the one reported unless multiple-bug reporting is on, in which case every failing explicit example is executed and reported and nothing is generated. An example marked as expected to fail must raise an error matching its expectation, otherwise the run fails; with the explicit phase disabled none of them runs, and a reproduction blob, when given, replays exactly its recorded example and fails loudly if that example no longer fails or no longer decodes.",
  ["programs", "configurations"], "All lists of explicit examples with passing, failing, rejecting and expected-to-fail members, under all phases and reporting settings, and all recorded blobs including corrupted or stale ones.",
  "Tests use one or two explicit examples at a time.",
  ["core.py"],
  [("execute_explicit_examples", "core.py"), ("encode_failure / decode_failure / reproduce_failure", "core.py")], None, ["calls of the test body", "exception out of the decorated test"])
P("E13", "Observability and statistics agree with what was executed",
  "With an observer registered, every executed example yields exactly one test-case record, in execution order, whose status (passed, failed, gave up) and phase match what happened to that example and whose arguments are the ones the body was called with; without one, none is produced. The statistics of a run list, per phase, exactly the examples executed in that phase with their statuses, and the number of distinct failures they state is the number found so far. (Examples at which the whole run ends - the test is skipped or interrupted - and replayed reproduction blobs are excepted.)",
  ["programs", "configurations"], "All mixtures of passing, failing, rejected and explicit examples under all phases and settings.",
  "Tests check single fields on single runs; the bijection between executions and records is over every run.",
  ["internal/observability.py", "statistics.py", "core.py", "internal/conjecture/engine.py"],
  [("make_testcase / deliver_json_blob", "internal/observability.py"), ("_log_phase_statistics", "internal/conjecture/engine.py")], None, ["observability callbacks", "statistics callback"])

# ---------------------------------------------------------------- choices
P("C01", "Replaying a choice sequence is exact, and deviations are handled totally",
  "Replaying the recorded choices of any execution against the same code makes the same draws with the same results and the same status. Replaying any other sequence also never misbehaves: a recorded choice of the right type that satisfies the current constraints is used as it is, any other is replaced by the simplest permitted choice, forced choices are returned as forced, and running out of choices or exceeding the size limit stops the example as overrun - so every value any draw returns always satisfies its constraints.",
  ["inputs", "programs"], "All programs of draws (all five choice types and constraints, forced or not) against all prefixes of choices of any types and values, complete, truncated, extended or mutated.",
  "Tests sample pairs of program and prefix at random; misalignment handling has many combinations.",
  ["internal/conjecture/data.py", "internal/conjecture/choice.py", "internal/conjecture/engine.py"],
  [("_draw / _pop_choice", "internal/conjecture/data.py:ConjectureData"), ("choice_permitted", "internal/conjecture/choice.py")],
  [("prefix, index, length", "replay position and size", "internal/conjecture/data.py")], ["values returned by draws, recorded nodes, status"])
P("C02", "Choice indices order choices by simplicity, one to one",
  "For integers, booleans, strings and byte strings under every constraint, the permitted choices correspond one-to-one with the indices 0, 1, 2, ... (up to the number of permitted choices), the conversions in both directions are inverse to each other, and index 0 is the simplest choice: the shrink target (or nearest bound) for integers with smaller distance first, the empty or shortest collection first, and false before true. A float's index converts back to exactly that float and non-negative simple numbers come first; any index converted under bounds gives a float within them. Enumerating all children of a choice yields exactly the permitted choices, as many as the stated maximum.",
  ["inputs"], "All constraints (bounds, shrink targets, sizes, alphabets) and all permitted choices and indices under them.",
  "Property tests sample; off-by-one errors at particular bound/shrink-target combinations are easily missed. Here small constraint spaces are enumerated completely.",
  ["internal/conjecture/choice.py", "internal/conjecture/datatree.py"],
  [("choice_to_index / choice_from_index", "internal/conjecture/choice.py"), ("compute_max_children / all_children", "internal/conjecture/datatree.py")], None, ["return values of the conversions"])

# ---------------------------------------------------------------- stateful
P("S01", "Stateful tests only take legal steps, and check invariants after every one",
  "In every run of a rule-based state machine, every initialize rule runs exactly once before any normal rule, each executed rule's preconditions hold when it is called, every bundle argument is a value that is in that bundle at that moment, values taken from a consuming bundle argument are removed from the bundle and never seen again, and results are added to exactly the target bundles. All enabled invariants are checked after initialisation and after every step (and before it if they ask for that), teardown runs exactly once per run whether or not it failed, and no more rules are executed than the configured step count allows.",
  ["programs", "histories"], "All machine definitions (initialize rules, preconditions, consuming and flat-mapped bundles, multiple targets and results, invariants) and all step sequences chosen for them.",
  "Tests check single features on fixed machines.",
  ["stateful.py"],
  [("RuleStrategy.do_draw / is_valid", "stateful.py"), ("run_state_machine step loop", "stateful.py")],
  [("bundles, initialize rules left", "what may be chosen next", "stateful.py:RuleBasedStateMachine")], ["calls of rule, invariant and teardown methods"])
P("S02", "The program printed for a failing state machine reproduces the failure",
  "The steps printed for a failing state machine are exactly the calls made in its final run, in order, with each bundle value denoted by the name printed when it was produced, each distinct value name assigned once, and teardown last. Executing the printed program against the machine makes the same calls with the same arguments and fails with the same error.",
  ["programs", "histories"], "All machines and all failing step sequences, including several targets, multiple results, consumed values and mutated values.",
  "Tests compare the output of a few fixed machines with literal text.",
  ["stateful.py", "vendor/pretty.py"],
  [("_print_step / _add_results_to_targets", "stateful.py"), ("names_to_values", "stateful.py")], None, ["reported text", "calls of rule methods"])

# ---------------------------------------------------------------- runtime context
P("G01", "Settings resolve by explicit value, then parent, then current profile",
  "For every sequence of registering and loading profiles, creating settings with or without a parent, and entering or leaving local settings contexts, each setting's effective value is the one given explicitly, else its parent's, else that of the default in force when the settings object was created; the default is the most recently loaded profile, and leaving a local context restores exactly what was in force before, even after an exception. Settings objects never change after creation, invalid values are always rejected without side effects, and re-registering the current profile takes effect at once.",
  ["histories", "configurations"], "All interleavings of profile registration, loading, settings creation with any parent chain and nested contexts.",
  "Tests script a few short sequences around one or two settings.",
  ["_settings.py", "utils/dynamicvariables.py"],
  [("settings.__init__ fallback", "_settings.py"), ("register_profile / load_profile / local_settings", "_settings.py")],
  [("current profile, default", "what new settings inherit", "_settings.py")], ["attributes of settings objects"])
P("R01", "Tests neither see nor disturb the program's random number generators",
  "Every example of a test starts with all random number generators registered before it (the global one and any registered instance) in a state that does not depend on anything before that example, so a replayed example sees the same random values (one registered during an example is looked after from the next one on); and when a test run ends - by success, failure, rejection, error or interruption - every one of them is back in the state it had before the run, including ones registered during it. A draw from the strategy that chooses a seed makes the state depend only on that seed for the rest of that example.",
  ["histories", "programs"], "All interleavings of test runs (nested, failing, interrupted), registrations, deregistration by garbage collection, and uses of the generators in between.",
  "Tests check one generator around one test.",
  ["internal/entropy.py", "core.py", "strategies/_internal/core.py"],
  [("deterministic_PRNG", "internal/entropy.py"), ("RandomSeeder", "strategies/_internal/core.py")],
  [("registered generators and saved states", "what to reseed and restore", "internal/entropy.py")], ["getstate() of the generators"])
P("R02", "Generated random objects honour the random-module contract",
  "Every method of a generated random object returns only values that the same method of a standard random generator could return for the same arguments - in range, of the requested length, from the given population, without repeats where required - regardless of earlier calls, reseeding, copying or state restoring. After seeding with the same value, or restoring a saved state, or copying, the same sequence of calls yields the same sequence of results, and shuffling only permutes.",
  ["histories", "inputs"], "All sequences of method calls with any arguments mixed with seed, getstate, setstate and copy, in both modes.",
  "Tests call each method once on a fresh object or compare two identical sequences; they never reseed and then call with other arguments.",
  ["strategies/_internal/random.py"],
  [("ArtificialRandom state tree", "strategies/_internal/random.py")],
  [("state tree", "results already given out per state and call", "strategies/_internal/random.py:RandomState")], ["return values of the methods"])
P("B01", "Per-example setup, teardown and cleanup always pair up",
  "For every executed example, whatever way it ends (pass, failure, rejection, overrun, interrupt), setup runs before the example and teardown after it, exactly once each, and all clean-ups registered during the example run exactly once, in order of registration, after the teardown and before the next example starts, even when one of them raises. The context functions (note, event, target, assume, cleanup) affect only the example that is running, and are refused outside one.",
  ["programs", "histories"], "All ways an example can end, at any nesting depth of registered clean-ups, including clean-ups that raise and nested test functions.",
  "Tests check one ending at a time.",
  ["control.py", "core.py", "executors.py"],
  [("BuildContext.close", "control.py"), ("executors", "executors.py")],
  [("tasks", "registered clean-ups", "control.py:BuildContext")], ["calls of setup, teardown and clean-up callbacks"])

# ---------------------------------------------------------------- building blocks
P("K01", "Bounded caches stay bounded, keep pinned entries and evict in order",
  "After any sequence of insertions, lookups, pins and unpins, a bounded cache holds at most its maximum number of entries, a lookup returns the value last stored under that key, and no pinned entry is ever evicted; inserting into a full cache evicts exactly one unpinned entry, and the one its policy names (entries never used again first, then least recently used). Inserting a new key when everything is pinned is refused and changes nothing.",
  ["histories"], "All operation sequences on caches of all sizes.",
  "The existing model-based tests sample sequences; here every transition of small caches is covered.",
  ["internal/cache.py"],
  [("GenericCache heap, LRUReusedCache scoring, LRUCache", "internal/cache.py")],
  [("entries with scores and pins", "cache contents", "internal/cache.py")], ["contents of the cache after each call"])
P("V01", "Generated collections always satisfy their size and uniqueness constraints",
  "For every sequence of choices, a generated collection (list, set, dictionary, tuple, permutation, sampled subset) has a size between its minimum and maximum, contains only elements its element strategy can produce, and is unique by every requested key; when the constraints cannot be met the example is rejected, never failed by an internal error. Every collection meeting the constraints over a finite element space can be generated by some choice sequence.",
  ["inputs", "configurations"], "All choice sequences against all combinations of size bounds, uniqueness keys, filters and element strategies over small finite element spaces.",
  "Tests sample random examples; here choice sequences for small spaces are enumerated exhaustively and compared with the model's set.",
  ["strategies/_internal/collections.py", "internal/conjecture/utils.py", "strategies/_internal/strategies.py"],
  [("many", "internal/conjecture/utils.py"), ("UniqueListStrategy / UniqueSampledListStrategy", "strategies/_internal/collections.py")], None, ["drawn values"])
P("V02", "Filtering keeps exactly the elements that satisfy the predicate",
  "For every strategy and predicate, filtering - including when the predicate is rewritten into tighter bounds, applied in several steps, on sampled, mapped, combined or length-filtered collections - can generate exactly those values of the original that satisfy every predicate, and never one that does not. If no value satisfies them the example is rejected (or the strategy reported as impossible), and chained filters are equivalent to their conjunction in any order.",
  ["inputs", "programs"], "All predicates the rewriter understands (comparisons, partial applications, lambdas, length and regular predicates) with all bounds over small ranges, singly and chained, on integer, sampled, mapped, union and collection strategies.",
  "Tests check selected rewrites and sample values.",
  ["internal/filtering.py", "strategies/_internal/strategies.py", "strategies/_internal/numbers.py"],
  [("get_integer_predicate_bounds", "internal/filtering.py"), ("SampledFromStrategy / OneOfStrategy / FilteredStrategy", "strategies/_internal/strategies.py")], None, ["set of values generated by exhaustive exploration"])
P("V03", "Emptiness of mutually recursive strategies is computed exactly",
  "For every system of strategies defined in terms of each other (alternatives, tuples, lists, maps, filters, flat-maps, deferred and recursive references), a strategy is reported as empty if and only if no finite derivation of a value exists, and every member gets the same answer whichever member is asked first and however often. Drawing from a non-empty one terminates with a value or a rejection, never with unbounded recursion because an alternative was wrongly kept or dropped.",
  ["programs"], "All graphs of mutually recursive strategies up to a given size, and all orders of asking.",
  "Tests cover a handful of hand-written recursive definitions; wrong fixed points show only on particular graphs and query orders.",
  ["strategies/_internal/strategies.py", "strategies/_internal/deferred.py"],
  [("recursive_property fixed point", "strategies/_internal/strategies.py"), ("DeferredStrategy", "strategies/_internal/deferred.py")],
  [("mapping of strategies to values", "the fixed-point approximation", "strategies/_internal/strategies.py")], ["is_empty of each strategy"])
P("V04", "Shared, memoised and swarm choices are consistent within an example",
  "Within one example, every draw from a shared strategy with the same key yields the same value, drawn once (and one without a key is shared with itself only, even where others are over the same strategy); a generated pure function returns the same result for equal arguments and draws a result once per distinct argument list, and may not be called after its example ended. A recursive strategy never builds a value with more leaves than its limit, and swarm flags keep one value per name for the whole example, with at least one of a required group enabled; nothing of this carries over from one example to the next.",
  ["programs", "histories"], "All interleavings of draws from shared strategies, calls of generated functions and flag queries within and across examples.",
  "Tests check pairs of draws.",
  ["strategies/_internal/shared.py", "strategies/_internal/functions.py", "strategies/_internal/recursive.py", "strategies/_internal/featureflags.py"],
  [("SharedStrategy", "strategies/_internal/shared.py"), ("FunctionStrategy", "strategies/_internal/functions.py"), ("LimitedStrategy", "strategies/_internal/recursive.py"), ("FeatureFlags", "strategies/_internal/featureflags.py")], None, ["drawn values and results of calls"])
P("V05", "Character sets obey set algebra and stay sorted and disjoint",
  "Unions, differences and intersections of character-interval sets contain exactly the characters that set algebra says, stay sorted, disjoint and merged, and indexing them enumerates each member exactly once in order with position lookup as its inverse. The simplicity ordering used for shrinking is a permutation of the set that puts the digit zero first and the printable characters around it before others. Choosing characters by category, code point bounds, encoding, included and excluded characters gives exactly the characters those criteria describe.",
  ["inputs"], "All pairs of interval sets over small alphabets, complete.",
  "Tests sample random interval sets.",
  ["internal/intervalsets.py"],
  [("IntervalSet.union / difference / intersection / index / char_in_shrink_order", "internal/intervalsets.py")], None, ["return values"])

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(p, "w") as f:
        for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
    print(len(out), "properties")
