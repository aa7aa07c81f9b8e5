"""E06: example budgets and phases (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck, usercheck
import itertools, vf

ALL = ["reuse", "generate", "target", "shrink", "explain"]
def job(rng, rec):
    if rng.random() < .01:                        # (many examples that are too large, up to the limit)
        p = enginecheck.endless(rng)
        return engine.run(p, rec, None, {"max": rng.choice([1, 10, 110]), "health": False, "multi": True, "phases": ["generate"]}, rng.randrange(10 ** 6)) and None
    db = engine.DB(rec) if rng.random() < .5 else None
    for _ in range(100):
        prog = rng.choice([enginecheck.weighted(p=30, r=2, f=1), enginecheck.weighted(p=1), enginecheck.weighted(p=1, r=30), enginecheck.weighted(p=2, r=5), engine.listy, engine.pair])(rng)
        if db is None or prog.k < 31000: break
    if db is not None and rng.random() < .6: enginecheck.junk(db, rng, prog, rec)
    for r in range(rng.randint(1, 3)):
        phases = [p for p in ALL if rng.random() < .7]
        if rng.random() < .3: phases.remove("generate") if "generate" in phases else None
        if r and rng.random() < .5: prog = enginecheck.altered(prog, rng)
        engine.run(prog, rec, db, {"max": rng.choice([1, 2, 3, 7, 10, 11, 20, 50, 120]), "multi": rng.random() < .7, "phases": phases, "target": rng.random() < .3}, rng.randrange(10 ** 6))

def weights(rng):
    return dict(observe=1, target=rng.choice([0, 1, 1]), actions=.9, fail=rng.choice([0, .1, .35]), fatal=0, phases=1, db=.5, nested=0, clean=.1, runner=.1, explicit=.2, health=.3)

def run(c):
    c.model("MCEngine", "SPECIFICATION Spec\nCONSTANTS N = %d\n Origins = {\"f1\", \"f2\"}\n MaxCalls = 3\nINVARIANTS EndsRight\nCHECK_DEADLOCK FALSE\n" % (4 if vf.THOROUGH else 3), workers=4)
    enginecheck.check(c, "E06", job, 400)
    usercheck.check(c, "E06", 80, weights)
