"""Random runs of the real engine with a given focus, checked against EngineTrace.tla."""
import random
import engine, vf

FULL = ["reuse", "generate", "target", "shrink"]
NAMES = {"f%d" % i: i for i in range(1, 7)}

def weighted(**w):
    """A maker of decision trees with these weights for pass, rejection and failure."""
    return lambda rng: engine.hashed(rng, (w.get("p", 0), w.get("r", 0), w.get("f", 0)))

def endless(rng):
    """A test that never stops choosing, except for some choices."""
    k, m = rng.choice([1, 3, 9]), rng.choice([1, 2, 50])
    salt = rng.random()
    p0 = rng.choice([0, .2, .5, .9])
    def step(p):
        if not p: return ("draw", k)
        short = random.Random("%s/%s" % (salt, p[0])).random() < p0
        return ("end", "p") if short and len(p) >= 2 else ("draw", k)
    p = engine.Program("endless", k, step, False)
    p.pad = 600
    return p

def altered(prog, rng):
    """The same test after an edit: some outcomes change (a bug was fixed, another one appeared)."""
    kind = rng.choice(["fixed", "fixed", "moved", "some", "longer"])
    salt = rng.randrange(10 ** 9)
    gone = {f for f in NAMES if rng.random() < .6}
    def step(p):
        if kind == "longer" and p and prog.step(p[:-1])[0] == "end": return prog.step(p[:-1])
        s = prog.step(p)
        if kind == "longer" and s[0] == "end" and len(p) < 8 and random.Random("%d/%s" % (salt, p)).random() < .3: return ("draw", prog.k)
        if s[0] != "end": return s
        if kind == "fixed": return ("end", "p") if s[1] in gone else s
        if kind == "moved": return ("end", {"f1": "f2", "f2": "f1"}.get(s[1], s[1]))
        if kind == "some" and random.Random("%d/%s" % (salt, p)).random() < .5: return ("end", "p" if s[1] in NAMES else "f3")
        return s
    return engine.Program(prog.name + "/" + kind, prog.k, step, prog.finite)

def junk(db, rng, prog, rec):
    """Entries that can't be read, or that are other tests' examples, under any key."""
    for key in "ms":
        for _ in range(rng.choice([0, 0, 1, 2])):
            b = rng.choice([b"\xff", b"\x5f", b"\xe0\x01", b"\x28", b"!\x00", b"\x81\xff", b"\xa1\x80"])
            db.data.setdefault(key, set()).add(b)
        for _ in range(rng.choice([0, 0, 1, 3])):
            db.data.setdefault(key, set()).add(engine.encode([rng.randint(0, prog.k) for _ in range(rng.randint(0, 6))]))

def check(c, pid, job, n, thorough=8):
    """job(rng, recorder) makes the runs of one trace."""
    def one(i):
        rng = random.Random("%s/%d/%d" % (pid, vf.SEED, i))
        rec = engine.Recorder()
        out = job(rng, rec)
        more = out if isinstance(out, list) else [rec]
        for r in more: r.finish()
        return [{"id": "%d.%d" % (i, j), "ex": r.table or [[0]], "ev": r.ev} for j, r in enumerate(more) if r.ev]
    n = n * (thorough if vf.THOROUGH else 1)
    traces = [t for g in vf.pmap(one, range(n)) for t in g]
    calls = sum(e["op"] == "call" for t in traces for e in t["ev"])
    ends = {}
    for t in traces:
        for e in t["ev"]:
            if e["op"] == "end": ends[e["out"]] = ends.get(e["out"], 0) + 1
    c.counts["runs of the engine"] = c.counts.get("runs of the engine", 0) + sum(ends.values())
    c.counts["examples executed"] = c.counts.get("examples executed", 0) + calls
    for k, v in ends.items(): c.counts["runs that ended with " + k] = c.counts.get("runs that ended with " + k, 0) + v
    c.sample({"runs": traces[0]["ev"][:12], "examples": traces[0]["ex"][:12]})
    return c.judge("EngineTrace", traces, only=(pid, "E01:"), shards=8)
