"""E02: saved failing examples are tried first and stale ones discarded (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck
import vf

PHASES = [["reuse", "generate", "target", "shrink"]] * 4 + [["reuse", "generate"], ["reuse", "shrink"], ["reuse"], ["generate", "shrink"], ["generate"]]

def job(rng, rec):
    """The same test again and again, edited in between, with entries of every kind in the database."""
    while True:
        prog = engine.program(rng)
        if prog.k < 31000: break
    db = engine.DB(rec)
    if rng.random() < .5: enginecheck.junk(db, rng, prog, rec)
    for r in range(rng.randint(2, 4)):
        if r and rng.random() < .6: prog = enginecheck.altered(prog, rng)
        if rng.random() < .2: enginecheck.junk(db, rng, prog, rec)
        cfg = {"max": rng.choice([1, 3, 10, 30]), "multi": rng.random() < .6, "phases": rng.choice(PHASES), "health": rng.random() < .1}
        engine.run(prog, rec, db, cfg, rng.randrange(10 ** 6))

def run(c):
    c.model("MCEngine", "SPECIFICATION Spec\nCONSTANTS N = %d\n Origins = {\"f1\", \"f2\"}\n MaxCalls = 9\nINVARIANTS NeverLost BestIsSaved StaleGone EndsRight\nCHECK_DEADLOCK FALSE\n" % (4 if vf.THOROUGH else 3), workers=4)
    enginecheck.check(c, "E02", job, 500)
