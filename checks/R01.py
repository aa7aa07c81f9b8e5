"""R01: tests neither see nor disturb the program's random number generators (Run.tla)."""
import random, usercheck, user, vf

def weights(rng):
    return dict(rand=rng.choice([.4, .9]), nested=rng.choice([0, 0, .5]), clean=rng.choice([.1, .5]), cleanfail=rng.choice([0, .6]), runner=.3, setupfail=.4, fatal=rng.choice([.03, .2]), explicit=.3, observe=.4, drawdo=.3, db=.2)

class Bad(user.Like):
    """Seeding it fails at the n-th time."""
    def __init__(self, n, at): super().__init__(n); self.left = at
    def seed(self, s):
        self.left -= 1
        if not self.left: raise user.F1("can't be seeded")
        super().seed(s)

def failing(rng, ident):
    """A generator that can't be seeded is registered among others: the run fails, and all are as they were."""
    w = user.World(rng, [])
    gens = [user.Like(rng.randrange(10 ** 6)) for _ in range(rng.randint(1, 3))]
    gens.insert(rng.randrange(len(gens) + 1), Bad(5, rng.randint(1, 4)))
    w.gens = w.gens + gens
    for g in gens: user.register_random(g)
    before = w.states()
    @user.settings(max_examples=5, database=None, suppress_health_check=list(user.HealthCheck), deadline=None)
    @user.given(user.st.integers())
    def test(x):
        for g in w.gens:
            if rng.random() < .5: g.random()
    try: test()
    except (user.F1, user.HypothesisException, BaseExceptionGroup): pass
    return {"id": ident, "n": len(before), "start": before, "registered": [], "prog": "", "ev": [{"k": "run", "g": w.states(), "cfg": {"repro": "none"}}]}

def run(c):
    usercheck.design(c, runner="none", quick=7)
    usercheck.check(c, "R01", 200, weights)
    c.judge("RunTrace", vf.pmap(lambda i: failing(random.Random("R01f/%d/%d" % (vf.SEED, i)), "R01-failing-%d" % i), range(60)), only="R01:")
    c.assumptions += ["generators that are registered while an example runs are looked after from the next one on", "states of a generator are compared by the value of getstate()"]
