"""E10: rejected examples never count as passing or failing, and too many are reported (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck
import vf

def job(rng, rec):
    prog = rng.choice([enginecheck.weighted(r=1), enginecheck.weighted(p=1, r=20), enginecheck.weighted(p=1, r=4), enginecheck.weighted(p=1, r=6, f=1), enginecheck.weighted(r=30, f=1), enginecheck.endless])(rng)
    db = engine.DB(rec) if rng.random() < .3 and not prog.pad else None
    for r in range(rng.randint(1, 2)):
        engine.run(prog, rec, db, {"max": rng.choice([1, 2, 5, 10, 30, 100]), "multi": rng.random() < .7, "health": rng.random() < .6, "phases": rng.choice([enginecheck.FULL, ["generate"], ["generate", "shrink"]])}, rng.randrange(10 ** 6))

def run(c):
    c.model("MCEngine", "SPECIFICATION Spec\nCONSTANTS N = %d\n Origins = {\"f1\", \"f2\"}\n MaxCalls = 9\nINVARIANTS EndsRight\nCHECK_DEADLOCK FALSE\n" % (4 if vf.THOROUGH else 3), workers=4)
    enginecheck.check(c, "E10", job, 300)
