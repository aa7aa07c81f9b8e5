"""E05: every distinct failure is reported once, or only the simplest (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck
import vf

def job(rng, rec):
    db = engine.DB(rec) if rng.random() < .4 else None
    for _ in range(100):
        prog = rng.choice([enginecheck.weighted(p=4, r=1, f=2), enginecheck.weighted(p=20, r=2, f=2), enginecheck.weighted(p=0, r=1, f=3), engine.listy, engine.listy, engine.pair])(rng)
        if db is None or prog.k < 31000: break
    prog.ways = rng.sample(range(1, 15), 6) if rng.random() < .7 else range(1, 7)
    for r in range(rng.randint(1, 2)):
        engine.run(prog, rec, db, {"max": rng.choice([5, 20, 50, 100]), "multi": rng.random() < .65, "phases": rng.choice([enginecheck.FULL] * 3 + [["reuse", "generate"], ["reuse", "generate", "shrink", "explain"]])}, rng.randrange(10 ** 6))

def run(c):
    c.model("MCEngine", "SPECIFICATION Spec\nCONSTANTS N = %d\n Origins = {\"f1\", \"f2\"}\n MaxCalls = 9\nINVARIANTS EndsRight BestIsSimplest\nCHECK_DEADLOCK FALSE\n" % (4 if vf.THOROUGH else 3), workers=4)
    enginecheck.check(c, "E05", job, 450)
