"""B01: setup, teardown and clean-ups always pair up; context functions speak of the running example (Run.tla)."""
import usercheck

def weights(rng):
    return dict(clean=rng.choice([.3, .8, 1.5]), cleanfail=rng.choice([0, .4, .8]), cleanint=rng.choice([1, 4, 9]), runner=rng.choice([.3, .9]), setupfail=.5, fatal=rng.choice([.03, .2]), fail=rng.choice([.1, .35, .6]), nested=rng.choice([0, 0, .5]), drawdo=.4, explicit=.3, rand=rng.choice([0, .2]), observe=.1)

def run(c):
    usercheck.design(c, runner="both", quick=7)
    usercheck.check(c, "B01", 220, weights)
    c.assumptions += ["an example is seen from its first visible moment: setup, the draw of the first argument, or the body", "an example whose only trace is inside the engine (none is known) wouldn't be seen"]
