"""Random histories of whole tests with a given focus, checked against Run.tla."""
import json, random
import user, vf

INV = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % x for x in "SetupAndTeardownPair CleanUpsRunOnce CleanUpsInOrder SameStart Undisturbed OneRecordEach FailuresSurface NothingInvented ExplicitFirst".split())

def design(c, runner="none", explicit=0, multi=True, observe=False, nested=False, quick=7, thorough=9):
    """All short histories that Run.tla allows."""
    b = lambda x: "TRUE" if x else "FALSE"
    c.model("MCRun", INV + 'CONSTANTS MaxLen = %d Runner = "%s" NExplicit = %d Multi = %s Observe = %s Nested = %s\n' % (
        thorough if vf.THOROUGH else quick, runner, explicit, b(multi), b(observe), b(nested)), workers=4, timeout=3000)

def check(c, pid, n, weights, more=None, thorough=12, longest=3500):
    def one(i):
        rng = random.Random("%s/%d/%d" % (pid, vf.SEED, i))
        return user.trace(rng, "%s-%d" % (pid, i), more=more, **weights(rng))
    traces = [t for t in vf.pmap(one, range(n * (thorough if vf.THOROUGH else 1)), workers=8) if len(t["ev"]) <= longest]
    for t in traces:
        for e in t["ev"]:
            if e["k"] in ("setup", "exec", "tear", "reg", "clean", "body", "rec", "ret", "seedmod", "use", "register", "drop", "note", "target"): c.counts[e["k"]] += 1
            if e["k"] == "end": c.counts["body:" + e["out"]] += 1
            if e["k"] == "ret": c.counts["ret:" + ("ok" if not e["errs"] else "+".join(sorted({x["type"] or "the test's" for x in e["errs"]})))] += 1
    c.sample({"program": traces[0]["prog"][:600], "events": [{k: v for k, v in e.items() if k != "g"} for e in traces[0]["ev"][:12]]})
    c.judge("RunTrace", traces, only=pid + ":", shards=6)
    return traces
