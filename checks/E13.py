"""E13: observers and statistics agree with what was executed (Run.tla)."""
import usercheck

def weights(rng):
    return dict(observe=rng.choice([1, 1, .5]), explicit=.5, fail=rng.choice([.1, .35, .6]), fatal=rng.choice([0, .05]), phases=.4, db=.4, nested=rng.choice([0, 0, .4]), clean=.3, cleanfail=.3, runner=.3, setupfail=.4, drawdo=.4, drawout=.3, actions=.9, verbosity=.1)

def run(c):
    usercheck.design(c, observe=True, quick=7)
    usercheck.check(c, "E13", 180, weights)
    c.assumptions += ["no status is expected of examples that end the run (skips, interrupts)", "a replayed blob is not observed"]
