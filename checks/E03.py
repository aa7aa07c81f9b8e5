"""E03: a failure that was found is never lost, wherever the run is interrupted (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck
import random, vf

def job(rng, rec):
    """One run, interrupted at every call of the body and every write to the database in turn (or at some of them), each followed by a run that must find what was saved."""
    while True:
        prog = engine.program(rng, ("hashed", "listy", "pair")) if rng.random() < .4 else enginecheck.weighted(p=3, r=1, f=2)(rng)
        if prog.k < 31000: break
    cfg = {"max": rng.choice([3, 10, 20]), "multi": rng.random() < .7, "phases": rng.choice([enginecheck.FULL] * 4 + [["generate", "shrink"], ["reuse", "generate"]])}
    seed = rng.randrange(10 ** 6)
    prior = rng.random() < .4
    def setup():
        r = engine.Recorder(); db = engine.DB(r)
        if prior: engine.run(enginecheck.altered(prog, random.Random(seed)), r, db, dict(cfg, phases=enginecheck.FULL), seed + 1)
        return r, db
    base, db = setup()
    at = len(base.ev)
    kind, _ = engine.run(prog, base, db, cfg, seed)
    out = [base]
    if kind not in ("fail", "group"): return out if rng.random() < .2 else [base]
    calls = sum(e["op"] == "call" for e in base.ev[at:]); writes = sum(e["op"] in ("save", "delete", "move") for e in base.ev[at:])
    points = [("call", i + 1) for i in range(calls)] + [("write", i + 1) for i in range(writes)]
    # the interesting ones are those after the first failure
    points = rng.sample(points, min(len(points), 24 if vf.THOROUGH else 8))
    for what, i in points:
        r, db = setup()
        if what == "write": db.fault = i
        engine.run(prog, r, db, dict(cfg, kill=i if what == "call" else None), seed)
        db.fault = None
        engine.run(prog, r, db, dict(cfg, phases=enginecheck.FULL), seed + 2)
        out.append(r)
    return out

def run(c):
    c.model("MCEngine", "SPECIFICATION Spec\nCONSTANTS N = %d\n Origins = {\"f1\", \"f2\"}\n MaxCalls = 9\nINVARIANTS NeverLost RecordedBeforeNext BestIsSaved\nCHECK_DEADLOCK FALSE\n" % (4 if vf.THOROUGH else 3), workers=4)
    enginecheck.check(c, "E03", job, 110)
