"""E01: a test is reported as failing exactly when an example of it failed, and as what that example raised (Run.tla)."""
import engine, enginecheck, usercheck

def weights(rng):
    return dict(fail=rng.choice([.1, .35, .6]), fatal=rng.choice([0, .03, .1]), explicit=.1, phases=.4, db=.5, observe=.2, nested=rng.choice([0, 0, 0, .3]), clean=rng.choice([.1, .5]), cleanfail=.6, runner=.3, setupfail=.4, drawout=.3, health=.3, rand=rng.choice([0, .3]), verbosity=.2)

def job(rng, rec):
    db = engine.DB(rec) if rng.random() < .5 else None
    for _ in range(100):
        prog = rng.choice([enginecheck.weighted(p=4, r=1, f=2), enginecheck.weighted(p=20, r=2, f=1), enginecheck.weighted(p=1, r=1), enginecheck.weighted(r=1), engine.listy, engine.pair])(rng)
        if db is None or prog.k < 31000: break
    for r in range(rng.randint(1, 2)):
        engine.run(prog, rec, db, {"max": rng.choice([1, 5, 20, 60]), "multi": rng.random() < .6, "phases": [p for p in enginecheck.FULL + ["explain"] if rng.random() < .8]}, rng.randrange(10 ** 6))

def run(c):
    enginecheck.check(c, "E01", job, 150)
    usercheck.design(c, runner="none", quick=7)
    usercheck.check(c, "E01", 200, weights)
    c.assumptions += ["which of several failures is simplest, and what is run in which order, is judged by E02-E10"]
