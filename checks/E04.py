"""E04: shrinking only simplifies and ends on a failing example of the same failure (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck
import random, vf
from hypothesis import strategies as st
from hypothesis.control import BuildContext
from hypothesis.errors import StopTest
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.choice import choice_to_index

# strategies with tests of their values: a value's class is the number of tests it passes, from the first on
KINDS = [(st.integers(), [lambda x: x != 0, lambda x: x > 7, lambda x: x > 300]), (st.integers(-20, 50), [lambda x: x < 0, lambda x: x < -5]), (st.integers(10), [lambda x: x % 3 == 2, lambda x: x > 100]),
         (st.booleans(), [lambda x: x]), (st.text(), [lambda x: len(x) > 0, lambda x: len(set(x)) > 1, lambda x: len(x) > 3]), (st.text("abc", max_size=6), [lambda x: "b" in x, lambda x: "bc" in x]),
         (st.binary(max_size=8), [lambda x: len(x) > 1, lambda x: any(b > 9 for b in x)]), (st.floats(), [lambda x: x > 1, lambda x: x > 1e6]), (st.floats(allow_nan=False), [lambda x: x < 0, lambda x: x != int(x) if abs(x) < 1e300 else False]),
         (st.sampled_from(range(9)), [lambda x: x > 2, lambda x: x == 7]), (st.lists(st.integers(0, 20)), [lambda x: len(x) > 1, lambda x: sum(x) > 15]), (st.lists(st.booleans(), max_size=5), [lambda x: sum(x) > 1]),
         (st.tuples(st.booleans(), st.integers(0, 9)), [lambda x: x[1] > 4, lambda x: x[0]]), (st.none() | st.integers(0, 99), [lambda x: x is not None, lambda x: x is not None and x > 50]),
         (st.sets(st.integers(0, 30)), [lambda x: len(x) > 1, lambda x: 7 in x]), (st.integers(0, 5).flatmap(lambda n: st.lists(st.integers(0, 9), min_size=n, max_size=n)), [lambda x: len(x) > 2, lambda x: x != sorted(x)])]

class Typed(engine.Program):
    """Draws of many types; what happens depends on the classes of the values."""
    def __init__(self, rng):
        self.parts = [rng.choice(KINDS) for _ in range(rng.randint(1, 4))]
        self.salt, self.w = rng.randrange(10 ** 9), rng.choice([(5, 1, 1), (3, 0, 1), (8, 1, 3)])
        self.nf = rng.choice([1, 1, 2, 3])
        self.name, self.k, self.finite = "typed", 0, False
        self.early = rng.random() < .3
    def outcome(self, cl):
        r = random.Random("%d/%s" % (self.salt, cl))
        if len(cl) < len(self.parts) and not (self.early and cl and r.random() < .3): return None
        return r.choices(["p", "r", "f%d" % r.randint(1, self.nf)], weights=self.w)[0]
    def body(self, data):
        cl = []
        while True:
            out = self.outcome(tuple(cl))
            if out: return out
            s, tests = self.parts[len(cl)]
            v = data.draw(s)
            n = 0
            while n < len(tests) and tests[n](v): n += 1
            cl.append(n)
    def neighbours(self, choices):
        """Outcomes of the sequences with one choice left out or made simplest."""
        def execute(ch):
            d = ConjectureData.for_choices(ch)
            try:
                with BuildContext(d, is_final=False): out = self.body(d)
            except StopTest: out = "over"
            d.freeze()
            return d, out
        base, _ = execute(choices)
        for i, node in enumerate(base.nodes):
            yield i, execute(choices[:i] + choices[i + 1:])
            if not node.trivial:
                from hypothesis.internal.conjecture.choice import choice_from_index
                yield i, execute(choices[:i] + (choice_from_index(0, node.type, node.constraints),) + choices[i + 1:])

def job(rng, rec):
    if rng.random() < .5:
        prog = rng.choice([enginecheck.weighted(p=4, r=1, f=3), enginecheck.weighted(p=10, r=1, f=2), engine.listy, engine.listy, engine.pair, engine.pair])(rng)
        engine.run(prog, rec, None, {"max": rng.choice([30, 100, 200]), "multi": rng.random() < .6, "phases": rng.choice([["generate", "shrink"], ["generate", "shrink", "explain"]])}, rng.randrange(10 ** 6))
        return
    engine.run(Typed(rng), rec, None, {"max": rng.choice([30, 100, 200]), "multi": rng.random() < .6, "phases": rng.choice([["generate", "shrink"], ["generate", "shrink", "explain"]])}, rng.randrange(10 ** 6))

def run(c):
    c.model("MCEngine", "SPECIFICATION Spec\nCONSTANTS N = %d\n Origins = {\"f1\", \"f2\"}\n MaxCalls = 9\nINVARIANTS BestIsSimplest BestIsSaved\nCHECK_DEADLOCK FALSE\n" % (4 if vf.THOROUGH else 3), workers=4)
    enginecheck.check(c, "E04", job, 420)
