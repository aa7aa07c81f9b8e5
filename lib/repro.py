"""Tests that are run in several processes, with other hash seeds, other states of the global generators and other tests before
them (E09).  As a program: repro.py JOB.json, with JOB = [{what: "test", n, mode, db} | {what: "noise", n} ...] prints one line per test that was run."""
import abc, base64, collections, contextlib, datetime, decimal, enum, fractions, inspect, io, json, os, random, sys, typing, warnings, zlib
import vf
sys.path.insert(0, vf.REPO_SRC)
warnings.simplefilter("ignore")
import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, assume, event, given, note, seed, settings, strategies as st, target
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.reporting import with_reporter
from hypothesis.stateful import Bundle, RuleBasedStateMachine, initialize, invariant, multiple, consumes, precondition, rule, run_state_machine_as_test

class Colour(enum.Enum): red = "r"; green = "g"; blue = "b"
class Mask(enum.Flag): a = 1; b = 2; c = 4
class Point(typing.NamedTuple): x: int; y: str
class Base(abc.ABC):
    @abc.abstractmethod
    def m(self): ...
class Left(Base):
    def __init__(self, v: int): self.v = v
    def m(self): ...
class Right(Base):
    def __init__(self, w: str = "w"): self.w = w
    def m(self): ...

def plain(v, depth=0):
    """What a value is, in words that don't depend on the process."""
    if isinstance(v, (set, frozenset)): return "{%s}" % ",".join(sorted(plain(x) for x in v))
    if isinstance(v, dict): return "%s{%s}" % (type(v).__name__, ",".join(plain(k) + ":" + plain(x) for k, x in v.items()))
    if isinstance(v, (list, tuple)): return "%s(%s)" % (type(v).__name__, ",".join(plain(x) for x in v))
    if isinstance(v, float): return v.hex()
    if isinstance(v, random.Random): return "random:%d,%d" % (v.getrandbits(20), v.randint(0, 99))
    if isinstance(v, Left): return "Left(%d)" % v.v
    if isinstance(v, Right): return "Right(%r)" % v.w
    if isinstance(v, type): return v.__name__
    if callable(v): return "function"
    if isinstance(v, collections.abc.Iterator): return "iter(%s)" % ",".join(plain(next(v)) for _ in range(3))
    return repr(v)
def crc(v): return zlib.crc32(v.encode("utf-8", "surrogatepass"))

WORDS = ["apple", "bear", "cat", "door", "eel", "fox", "gnu", "hat", "ink", "jam", "kit", "log"]
def strategy(rng, depth=2):
    sub = lambda: strategy(rng, depth - 1)
    leaf = [lambda: st.integers(), lambda: st.integers(-rng.randrange(300), rng.randrange(400)), lambda: st.floats(), lambda: st.floats(rng.choice([-0.0, 0.0, -5.0]), 10.0), lambda: st.booleans(), lambda: st.text(max_size=8),
            lambda: st.text(alphabet=rng.choice(["abc", "ab\U0001f600"]), max_size=5), lambda: st.binary(max_size=6), lambda: st.sampled_from(rng.sample(WORDS, rng.randint(2, 6))), lambda: st.sampled_from([(w, i) for i, w in enumerate(rng.sample(WORDS, 3))]),
            lambda: st.sampled_from(Colour), lambda: st.sampled_from(Mask), lambda: st.from_regex(rng.choice([r"[a-c]+\d?", r"(x|yy|z{2,3})\w", r"^(foo|bar)\s[^a-y]$", r"\S[é-ï]{1,3}"])), lambda: st.just(rng.choice(WORDS)), lambda: st.none(),
            lambda: st.dates(), lambda: st.datetimes(), lambda: st.timedeltas(), lambda: st.uuids(), lambda: st.decimals(allow_nan=False, places=2), lambda: st.fractions(max_denominator=9), lambda: st.characters(categories=["Lu", "Nd"]), lambda: st.complex_numbers(max_magnitude=5),
            lambda: st.randoms(use_true_random=rng.random() < .5), lambda: st.from_type(Base), lambda: st.from_type(typing.Union[int, str, typing.List[bool]]), lambda: st.from_type(Point), lambda: st.builds(Left), lambda: st.slices(7), lambda: st.emails(), lambda: st.ip_addresses(),
            lambda: st.from_type(typing.Literal["p", "q", 3]), lambda: st.timezone_keys(), lambda: st.random_module().map(lambda r: r.seed), lambda: st.from_type(typing.Dict[str, int]), lambda: st.from_type(type), lambda: st.functions(like=lambda x: x, returns=st.integers(0, 3)).map(lambda f: f(1) + f(2))]
    if depth <= 0: return rng.choice(leaf)()
    hashable = lambda: rng.choice([st.integers(0, 50), st.text(max_size=3), st.sampled_from(WORDS), st.sampled_from(Colour), st.tuples(st.sampled_from(WORDS), st.booleans())])
    shared = "key%d" % rng.randrange(3)
    node = [lambda: st.lists(sub(), max_size=rng.choice([2, 5, 8])), lambda: st.lists(hashable(), unique=True, max_size=6), lambda: st.sets(hashable(), max_size=5), lambda: st.frozensets(hashable(), max_size=4), lambda: st.dictionaries(hashable(), sub(), max_size=4),
            lambda: st.tuples(sub(), sub()), lambda: st.one_of(sub(), sub(), sub()), lambda: st.fixed_dictionaries({w: sub() for w in rng.sample(WORDS, 2)}, optional={w: sub() for w in rng.sample([x.upper() for x in WORDS], 2)}), lambda: st.permutations(rng.sample(WORDS, 4)),
            lambda: st.recursive(st.sampled_from(WORDS) | st.integers(0, 3), lambda c: st.lists(c, max_size=3) | st.tuples(st.sampled_from(WORDS[:4]), c), max_leaves=8), lambda: st.integers(0, 4).flatmap(lambda n: st.lists(st.sampled_from(WORDS), min_size=n, max_size=n)),
            lambda: sub().filter(lambda v: crc(plain(v)) % 5), lambda: st.tuples(st.shared(st.sampled_from(WORDS), key=shared), st.shared(st.sampled_from(WORDS), key=shared)), lambda: st.iterables(st.sampled_from(WORDS), max_size=4).map(lambda i: list(i)), lambda: sub() | st.just("other"), lambda: tree()]
    return rng.choice(node + leaf[:10])()
def tree():
    t = st.deferred(lambda: st.one_of(st.sampled_from(WORDS), st.tuples(st.sampled_from(["plus", "times"]), t, t), st.tuples(st.just("neg"), t)))
    return t

class Service:
    def __init__(self, names): self.names = names
    def call(self): ...
HINTS = [inspect.Parameter.empty, int, "Service", typing.Optional[Service], typing.Literal["a", "b"], typing.Annotated[int, Service(4)], typing.Annotated[str, plain, Service(set(WORDS)).call], typing.Annotated[int, lambda x: x],
         typing.Annotated[list[typing.Optional[int]], Left, Colour.red]]

class Failed(Exception): pass
def outcome(rng):
    k = rng.choice([2, 3, 5, 9, 30])
    kinds = rng.choice([(), ("fail",), ("fail", "assume"), ("fail", "fail2"), ("assume",), ("size",), ("size", "assume"), ("fail", "randfail")])
    targets, glob, events = rng.random() < .3, rng.random() < .3, rng.random() < .3
    def body(vals, log):
        text = plain(vals)
        if glob: text += "|%r" % random.random()
        log.append(text)
        n = crc(text)
        if events: event("kind", n % 3)
        if targets: target(float(len(text) % 50), label="length"); target(float(n % 17))
        if "assume" in kinds: assume(n % 4)
        if "size" in kinds and len(text) > 60 + n % 40:
            note("long %d" % len(text))
            raise Failed("size")
        if "fail" in kinds and n % (3 * k) == 1:
            raise Failed("fail")
        if "fail2" in kinds and n % (2 * k) == 3: raise ValueError("fail2")
        if "randfail" in kinds and text.count("a") + text.count("1") > 6: raise KeyError("randfail")
    return body

def passes(buggy, vals, log):
    try: buggy(vals, log)
    except (Failed, ValueError, KeyError): pass

def machine(rng, log):
    words = rng.sample(WORDS, 5)
    limit = rng.choice([3, 4, 6, 100])
    class M(RuleBasedStateMachine):
        things, others = Bundle("things"), Bundle("others")
        def __init__(self): super().__init__(); self.n = 0; log.append("start")
        @initialize(t=st.sampled_from(words))
        def begin(self, t): log.append("begin " + t)
        @rule(target=things, w=st.sampled_from(words))
        def add(self, w): log.append("add " + w); return w
        @rule(target=others, a=things, b=st.integers(0, 9))
        def pair(self, a, b): log.append("pair %s %d" % (a, b)); self.n += 1; return multiple(a, str(b))
        @precondition(lambda self: self.n > 0)
        @rule(o=consumes(others), l=st.lists(things, max_size=2))
        def use(self, o, l): log.append("use %s %s" % (o, l)); self.n += len(l)
        @rule(x=st.one_of(things, st.sampled_from(words)))
        def other(self, x): log.append("other " + x)
        @invariant()
        def small(self):
            if self.n >= limit: raise Failed("invariant")
    M.__name__ = M.__qualname__ = "Machine%d" % rng.randrange(1000)
    return M

PHASES = [[Phase.generate, Phase.shrink], list(Phase), [Phase.reuse, Phase.generate, Phase.target, Phase.shrink], [Phase.generate], [Phase.reuse, Phase.generate, Phase.shrink, Phase.explain]]
DBS = {}
def run(n, mode, keep, fixed=False):
    """Test n once (fixed: without its bugs); mode: derandomize, a seed (one of a few), or a seed for everything.  keep: with the database that its last run left."""
    rng = random.Random("program %d" % n)
    log, out = [], []
    stateful = rng.random() < .12
    if not keep or n not in DBS: DBS[n] = InMemoryExampleDatabase()
    db = DBS[n]
    content = lambda: sorted((k.hex(), sorted(v.hex() for v in vs)) for k, vs in db.data.items() if vs)
    before = content()
    s = settings(max_examples=rng.choice([5, 20, 30, 60]), phases=rng.choice(PHASES), deadline=None, derandomize=mode == "derandomize", database=db if mode != "derandomize" else None,
                 suppress_health_check=list(HealthCheck), print_blob=True, report_multiple_bugs=rng.random() < .7, stateful_step_count=10)
    body = outcome(rng)
    if fixed: buggy = body; body = lambda vals, log: passes(buggy, vals, log)
    if stateful:
        M = machine(rng, log)
        def fn():
            M.TestCase.settings = s
            run_state_machine_as_test(M, settings=s)
        if mode not in ("derandomize", "global"): fn = None
    if not stateful or fn is None:
        arity = rng.choice([1, 1, 2, 3])
        data = rng.random() < .2
        if arity == 1:
            def test(a): body([a], log)
        elif arity == 2:
            def test(a, b): body([a, b], log)
        else:
            def test(a, b, c): body([a, b, c], log)
        kw = {x: strategy(rng, rng.choice([0, 1, 1, 2])) for x in "abc"[:arity]}
        if data:
            inner = [strategy(rng, 1) for _ in range(2)]
            def test(data):
                vals = [data.draw(inner[0])]
                while len(vals) < 4 and crc(plain(vals)) % 3: vals.append(data.draw(inner[crc(plain(vals)) % 2]))
                body(vals, log)
            kw = {"data": st.data()}
        if rng.random() < .3:                                         # (what the author wrote down about the arguments doesn't matter)
            test.__annotations__ = {x: h for x in kw for h in [rng.choice(HINTS)] if h is not inspect.Parameter.empty}
        test.__name__ = test.__qualname__ = "test_%d" % n
        g = given(**kw)(test)
        if mode not in ("derandomize", "global"): g = seed(mode)(g)
        fn = s(g)
    result = "ok"
    import hypothesis.core as core
    if mode == "global": core.global_force_seed = 1000 + n % 3
    try:
        with with_reporter(out.append): fn()
    except BaseException as e:
        if isinstance(e, BaseExceptionGroup): result = "group " + " ".join("%s:%s" % (type(x).__name__, x) for x in e.exceptions)
        else: result = "%s: %s" % (type(e).__name__, str(e)[:300])
        subs = e.exceptions if isinstance(e, BaseExceptionGroup) else [e]
        out += [str(x) for y in subs for x in getattr(y, "__notes__", [])]
        # (which lines only failing examples ran is a guess that sees whatever the garbage collector does in between)
        out = [x for x in out if not x.startswith(("Explanation:", "    These lines were", "        /"))]
    finally: core.global_force_seed = None
    return {"n": n, "mode": str(mode) + (" fixed" if fixed else ""), "before": before, "calls": log, "result": result, "report": ["".join(sorted(x)) for x in out], "after": content()}

def noise(n):
    """Something that other tests might have done before."""
    r = random.Random("noise %d" % n)
    k = r.randrange(9)
    if k == 0: random.seed(r.randrange(10 ** 9))
    elif k == 1: [random.random() for _ in range(r.randrange(50))]
    elif k == 2:
        @settings(max_examples=20, database=None, deadline=None, suppress_health_check=list(HealthCheck))
        @given(strategy(r, 2), st.integers(0, 1), st.integers(0, True), st.floats(0, 10), st.floats(-0.0, 10))
        def other(a, b, c, d, e): random.random()
        other()
    elif k == 3: strategy(r, 2).validate()
    elif k == 4:
        with contextlib.suppress(Exception): strategy(r, 1).example()
    elif k == 5:
        import numpy; numpy.random.seed(r.randrange(10 ** 6)); numpy.random.random()
    elif k == 6:
        g = random.Random(r.random()); hypothesis.register_random(g); noise.kept = getattr(noise, "kept", []) + [g]
    elif k == 7:
        @settings(max_examples=30, database=None, deadline=None)
        @given(st.lists(st.integers()), st.randoms(), st.random_module())
        def other(l, x, m): random.random(); x.random(); assert len(l) < 3
        with contextlib.suppress(AssertionError): other()
    elif k == 8: gc_all()
def gc_all():
    import gc; gc.collect()

if __name__ == "__main__":
    job = json.load(open(sys.argv[1]))
    for d in job.get("path", []): sys.path.insert(0, d)
    for m in job.get("modules", []): __import__(m)
    random.seed(job.get("random"))
    for x in job["steps"]:
        if x["what"] == "noise": noise(x["n"])
        else: print("@@" + json.dumps(run(x["n"], x["mode"], x["keep"], x.get("fixed", False))))
