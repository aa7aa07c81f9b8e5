"""C01: replaying choice sequences (Replay.tla)."""
import math, random, struct, zlib
import vf
from explore import where
from hypothesis import strategies as st
from hypothesis.control import BuildContext
from hypothesis.errors import StopTest, UnsatisfiedAssumption
from hypothesis.internal.conjecture.choice import ChoiceTemplate
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.intervalsets import IntervalSet

TYPES = {bool: "boolean", int: "integer", float: "float", str: "string", bytes: "bytes"}
INF = float("inf")


def uleb(n):
    k = 1
    while n > 127: n >>= 7; k += 1
    return k

def size(v):
    """Bytes taken by a saved choice."""
    if isinstance(v, bool): return 1
    n = 8 if isinstance(v, float) else 1 + v.bit_length() // 8 if isinstance(v, int) else len(v.encode("utf-8", "surrogatepass")) if isinstance(v, str) else len(v)
    return 1 + n + (uleb(n) if n >= 31 else 0)


class Ranks:
    """Numbers of one event, in order; -0.0 comes before 0.0 and signs and payloads of not-a-number are told apart."""
    def __init__(self): self.ints, self.floats, self.nans = set(), set(), {}
    @staticmethod
    def bits(x):
        b = struct.unpack(">q", struct.pack(">d", x))[0]
        return b if b >= 0 else -(b & (2 ** 63 - 1)) - 1
    def add(self, v):
        if v is None or isinstance(v, (bool, str, bytes)): return
        if isinstance(v, int): self.ints.add(v)
        elif not math.isnan(v): self.floats.add(self.bits(v))
    def done(self):
        self.i = {v: k for k, v in enumerate(sorted(self.ints))}
        self.f = {v: k for k, v in enumerate(sorted(self.floats))}
    def choice(self, v):
        t = TYPES[type(v)]
        if t == "boolean": r = [int(v)]
        elif t == "integer": r = [self.i[v]]
        elif t == "float": r = [self.nans.setdefault(struct.pack(">d", v), len(self.nans)), 0] if math.isnan(v) else [self.f[self.bits(v)]]
        elif t == "string": r = [ord(x) for x in v]
        else: r = list(v)
        return {"t": t, "v": r}
    def constraint(self, t, k):
        o = lambda x: [] if x is None else [self.i[x]]
        fl = lambda x: self.f[self.bits(x)]
        if t == "integer": return {"t": t, "lo": o(k["min_value"]), "hi": o(k["max_value"]), "to": self.i[k["shrink_towards"]]}
        if t == "boolean": return {"t": t, "only": "no" if k["p"] <= 0 else "yes" if k["p"] >= 1 else ""}
        if t == "float":
            m = k["smallest_nonzero_magnitude"]
            return {"t": t, "lo": fl(k["min_value"]), "hi": fl(k["max_value"]), "nan": int(k["allow_nan"]), "zeros": [fl(-0.0), fl(0.0)], "tiny": [fl(-m), fl(m)]}
        mx = [] if k["max_size"] is None or k["max_size"] > 10 ** 9 else [k["max_size"]]
        if t == "bytes": return {"t": t, "min": k["min_size"], "max": mx}
        return {"t": t, "min": k["min_size"], "max": mx, "iv": [list(x) for x in k["intervals"].intervals]}


DEFAULTS = {"integer": dict(min_value=None, max_value=None, weights=None, shrink_towards=0),
            "float": dict(min_value=-INF, max_value=INF, allow_nan=True, smallest_nonzero_magnitude=5e-324),
            "string": dict(intervals=None, min_size=0, max_size=None), "bytes": dict(min_size=0, max_size=None), "boolean": dict(p=.5)}
ORDER = {t: list(d) for t, d in DEFAULTS.items()}


def watch(data, log):
    """Record the calls of data.draw_*, as the program sees them."""
    def wrap(t, draw):
        def f(*a, forced=None, observe=True, **kw):
            if not observe: return draw(*a, forced=forced, observe=observe, **kw)
            k = dict(DEFAULTS[t]); k.update(zip(ORDER[t], a)); k.update(kw)
            d = {"t": t, "k": k, "f": forced, "x": None}; log.append(d)
            v = draw(*a, forced=forced, observe=observe, **kw)
            d["x"] = (v,)
            return v
        return f
    for t in TYPES.values(): setattr(data, "draw_" + t, wrap(t, getattr(data, "draw_" + t)))


def run_program(fn, prefix, tmpl=None, rand=None, mx="prefix", room=None):
    """Execute fn(data); returns the raw outcome."""
    seq = tuple(prefix) + ((ChoiceTemplate("simplest", count=tmpl if tmpl != "all" else None),) if tmpl is not None else ())
    if mx == "prefix": data = ConjectureData.for_choices(seq, random=rand)
    else: data = ConjectureData(random=rand, prefix=seq, max_choices=mx)
    if room is not None: data.max_length = room
    log, err, val, body = [], [], "", "VALID"
    watch(data, log)
    try:
        with BuildContext(data, is_final=False): val = repr(fn(data))
    except StopTest: body = data.status.name
    except UnsatisfiedAssumption: data.status = Status.INVALID; body = "INVALID"
    except Exception as e: err = [where(e)]
    data.freeze()
    limit = None if tmpl == "all" else len(prefix) + (tmpl or 0) if mx == "prefix" or tmpl is not None else mx
    return {"prefix": list(prefix), "tmpl": tmpl, "max": limit, "room": data.max_length, "log": log, "nodes": list(data.choices), "status": data.status.name,
            "body": body, "val": val if body != "OVERRUN" else "", "errors": err}


def collect(o, r):
    for v in o["prefix"] + o["nodes"]: r.add(v)
    for d in o["log"]:
        r.add(d["f"]); r.add(d["x"] and d["x"][0])
        for k in ("min_value", "max_value", "shrink_towards"): r.add(d["k"].get(k))
        if d["t"] == "float":
            for x in (0.0, -0.0, d["k"]["smallest_nonzero_magnitude"], -d["k"]["smallest_nonzero_magnitude"]): r.add(x)


def event(o, r, again=0):
    draws = []
    for i, d in enumerate(o["log"]):
        x = [] if d["x"] is None else [r.choice(d["x"][0])]
        # a draw stopped for its size still has one: that of the choice it would have been
        sz = size(d["x"][0]) if d["x"] else size(d["f"]) if d["f"] is not None else 10 ** 6
        draws.append({"c": r.constraint(d["t"], d["k"]), "f": [] if d["f"] is None else [r.choice(d["f"])], "x": x, "sz": sz})
    return {"prefix": [r.choice(v) for v in o["prefix"]], "tmpl": int(o["tmpl"] is not None), "max": [] if o["max"] is None else [o["max"]], "room": o["room"], "draws": draws,
            "nodes": [r.choice(v) for v in o["nodes"]], "status": o["status"], "body": o["body"], "again": again, "val": o["val"], "errors": o["errors"]}


# ---------------------------------------------------------------------------- programs of draws
def spec(rng):
    t = rng.choice(list(DEFAULTS))
    if t == "integer":
        a, b = sorted(rng.choice([0, 1, -1, 3, -5, 255, 256, -256, 10 ** 6, 2 ** 64, -2 ** 70, 127, 128]) for _ in range(2))
        lo, hi = rng.choice([(a, b), (a, b), (a, None), (None, b), (None, None), (0, 1), (a, a)])
        s = rng.choice([0, 0, a, b, 7, -3, (a + b) // 2])
        k = dict(min_value=lo, max_value=hi, shrink_towards=s)
        if lo is not None and hi is not None and hi - lo > 2 and rng.random() < .2: k["weights"] = {lo: .2, lo + 1: .3}
        pool = [x for x in (lo, hi, 0, s) if x is not None and (lo is None or x >= lo) and (hi is None or x <= hi)]
    elif t == "boolean": k = dict(p=rng.choice([.5, .5, .1, .9, 0, 1, 0.0, 1.0])); pool = [False] if k["p"] == 0 else [True] if k["p"] == 1 else [True, False]
    elif t == "float":
        c = [-INF, -1e300, -1.5, -1.0, -5e-324, -0.0, 0.0, 5e-324, 1e-310, .5, 1.0, 3.0, 1e10, INF]
        a, b = sorted((rng.choice(c) for _ in range(2)), key=Ranks.bits)
        m = rng.choice([5e-324, 5e-324, 2.2250738585072014e-308])
        k = dict(min_value=a, max_value=b, allow_nan=rng.random() < .5, smallest_nonzero_magnitude=m)
        if 0 < abs(a) < m or 0 < abs(b) < m: k["smallest_nonzero_magnitude"] = 5e-324
        pool = [a, b]
    elif t == "string":
        cs = rng.choice(["abc", "0", "01", "a", "!#", "zA0", "\u00e9\ud800\U0001f600", "/", "Z[", "!a"])
        n = rng.choice([0, 0, 1, 2]); k = dict(intervals=IntervalSet.from_string(cs) if rng.random() < .8 else IntervalSet([[0, 0x10ffff]]), min_size=n, max_size=n + rng.choice([0, 1, 3, 50]))
        if rng.random() < .2: del k["max_size"]
        if rng.random() < .1 and n == 0: k["intervals"] = IntervalSet([])
        pool = [cs[0] * n] if len(k["intervals"]) else [""]
    else:
        n = rng.choice([0, 0, 1, 3]); k = dict(min_size=n, max_size=n + rng.choice([0, 1, 30, 40]))
        if rng.random() < .2: del k["max_size"]
        pool = [b"\x01" * n, b"\x00" * n]
    f = rng.choice(pool) if rng.random() < .15 else None
    return t, k, f


def program(rng):
    table = [spec(rng) for _ in range(rng.randint(1, 5))]
    length = rng.randint(1, 7)
    ending = rng.randrange(4)
    fixed = rng.random() < .3
    def fn(data):
        h, out = 0, []
        for i in range(length):
            t, k, f = table[(i if fixed else i + h) % len(table)]
            kw = dict(k)
            if f is not None: kw["forced"] = f
            v = getattr(data, "draw_" + t)(**kw)
            out.append(v); h = zlib.crc32(repr((h, v)).encode()) % 1000
        if h % 4 == ending: data.mark_invalid()
        return out
    return fn


def junk(rng):
    return rng.choice([True, False, 0, 1, -1, 255, 2 ** 64, -2 ** 70, 3, 0.0, -0.0, 1.0, .5, INF, -INF, math.nan, -math.nan, struct.unpack(">d", b"\x7f\xf0\0\0\0\0\0\1")[0], 5e-324, 1e-310,
                       "", "a", "0", "abc", "\ud800", "é", "!" * 3, b"", b"\0", b"\x01" * 3, b"\xff" * 35])


def mutate(rng, ch):
    ch = list(ch)
    for _ in range(rng.randint(1, 3)):
        m = rng.randrange(6)
        if m == 0 and ch: del ch[rng.randrange(len(ch)):]
        elif m == 1 and ch: del ch[rng.randrange(len(ch))]
        elif m == 2: ch.insert(rng.randint(0, len(ch)), junk(rng))
        elif m == 3 and ch: ch[rng.randrange(len(ch))] = junk(rng)
        elif m == 4 and len(ch) > 1: i, j = rng.sample(range(len(ch)), 2); ch[i], ch[j] = ch[j], ch[i]
        elif m == 5: ch += [junk(rng) for _ in range(rng.randint(1, 3))]
    return ch


# ---------------------------------------------------------------------------- real strategies
def tree(): return st.recursive(st.booleans(), lambda s: st.lists(s, max_size=3), max_leaves=5)

@st.composite
def comp(draw):
    n = draw(st.integers(0, 3)); s = st.integers(n, n + 5)
    return n, [draw(s) for _ in range(n)], draw(st.sampled_from("abc").filter(lambda x: n != 1 or x == "b"))

def interactive(data):
    n = data.draw(st.integers(0, 2)); return n, data.draw(st.lists(st.integers(0, n), max_size=3))

def catalogue():
    import datetime as dt, enum
    E = enum.Enum("E", "a b c")
    s = [st.integers(), st.integers(-3, 10 ** 5), st.integers(min_value=5), st.floats(), st.floats(0, 1, exclude_min=True), st.floats(width=16), st.floats(allow_nan=False, max_value=-1.5), st.text(), st.text("abc", min_size=2), st.text(st.characters(categories=["Lu", "Nd"])),
         st.binary(max_size=5), st.booleans(), st.lists(st.integers(0, 3)), st.lists(st.integers(0, 9), unique=True, min_size=2), st.lists(st.sampled_from(range(20)), unique=True), st.sets(st.integers()), st.frozensets(st.sampled_from("abcdef"), min_size=1), st.dictionaries(st.text(max_size=2), st.floats()),
         st.tuples(st.integers(), st.none() | st.text()), st.one_of(st.integers(0, 2), st.one_of(st.text("x"), st.booleans())), st.sampled_from(list(range(30))).filter(lambda x: x % 7 == 3), st.sampled_from(E), st.integers().filter(lambda x: x % 3 == 0), st.integers().map(str), st.integers(0, 4).flatmap(lambda n: st.lists(st.just(n), min_size=n)),
         st.permutations(range(5)), st.from_regex(r"[ab]+c?\d{2}(x|yz)*"), st.from_regex(r"\A(?i:a[^b]).$"), st.dates(), st.times(), st.datetimes(), st.timedeltas(), st.datetimes(dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 2)), st.decimals(places=2, min_value=0, max_value=9), st.decimals(allow_nan=False), st.fractions(0, 1), st.complex_numbers(max_magnitude=3), st.uuids(),
         st.emails(), st.ip_addresses(), st.slices(5), tree(), comp(), st.fixed_dictionaries({"a": st.integers(0, 2)}, optional={"b": st.text(max_size=1)}), st.builds(complex, st.floats(0, 1), st.floats(0, 1)), st.characters(), st.iterables(st.integers(0, 3), max_size=3).map(list), st.functions(like=lambda x: 0, returns=st.integers(0, 5), pure=True).map(lambda f: (f(1), f(2), f(1))),
         st.shared(st.integers(), key="k"), st.tuples(st.shared(st.integers(0, 9), key="k"), st.shared(st.integers(0, 9), key="k")), st.from_type(list[int]), st.from_type(dict[str, bool]), st.randoms(use_true_random=False).map(lambda r: (r.random(), r.randint(1, 6), r.choice("abc"))), st.randoms(use_true_random=True).map(lambda r: (r.random(), r.randint(1, 6))),
         st.lists(st.nothing()), st.deferred(lambda: st.none() | st.tuples(REC)), st.sampled_from([1, 2, 3]).map(lambda x: x * 2).filter(lambda x: x > 2), st.lists(st.floats(allow_nan=True), unique=True, max_size=4), st.sampled_from(range(10 ** 6)), st.text("ab", max_size=3).filter(str.isalpha), st.lists(st.lists(st.booleans(), max_size=2), min_size=1, max_size=3, unique_by=(len,)),
         st.integers(0, 10).filter(lambda x: x > 3).filter(lambda x: x < 6), st.timezones().map(str), st.ip_addresses(v=4), st.domains() if hasattr(st, "domains") else st.none(), st.random_module().map(lambda r: 0)]
    return [(repr(x), x) for x in s]
REC = st.none() | st.deferred(lambda: st.tuples(st.booleans(), REC))


def trace(rng, fn, n, real):
    ev = []
    def both(o):
        # a replay of what an overrunning execution recorded overruns in the same place
        p, r = run_program(fn, o["nodes"]), Ranks()
        collect(o, r); collect(p, r); r.done()
        ev.append(event(o, r)); ev.append(event(p, r, 1))
        return o["nodes"]
    cases = [both(run_program(fn, (), rand=random.Random(rng.random()), mx=None)) for _ in range(n)]
    for ch in list(cases):
        for _ in range(3 if not real else 2):
            pre = mutate(rng, ch)
            mode = rng.randrange(6)
            if mode <= 2: o = run_program(fn, pre)
            elif mode == 3: o = run_program(fn, pre, tmpl=rng.choice(["all", 1, 2, 4]), mx=rng.choice(["prefix", None]))
            elif mode == 4: o = run_program(fn, pre, rand=random.Random(rng.random()), mx=rng.choice([None, len(pre), len(pre) + 2, len(pre) + 50]))
            else: o = run_program(fn, pre, rand=random.Random(rng.random()), mx=None, room=rng.choice([0, 1, 5, 12, 40]))
            if sum(len(repr(v)) for v in o["nodes"]) < 3000: both(o)
    return ev


def run(c):
    big, rng = vf.THOROUGH, c.rng
    c.model("MCReplay", "SPECIFICATION Spec\nCONSTANTS Depth = %d\n PrefixLen = %d\nINVARIANTS Fixpoint SimplestPermitted Valid\nCHECK_DEADLOCK FALSE\n" % ((2, 3) if big else (2, 2)), workers=8)
    evs, traces = [], []
    for i in range(20000 if big else 900): traces.append({"id": "p%d" % i, "ev": trace(rng, program(rng), 2, False)})
    for i, (name, s) in enumerate(catalogue()):
        for j in range(20 if big else 2): traces.append({"id": "s%d.%d %s" % (i, j, name[:60]), "ev": trace(rng, lambda d: d.draw(s), 3, True)})
    for j in range(60 if big else 6): traces.append({"id": "i%d" % j, "ev": trace(rng, interactive, 3, True)})
    c.counts["executions"] = sum(len(t["ev"]) for t in traces)
    c.counts["draws"] = sum(len(e["draws"]) for t in traces for e in t["ev"])
    c.counts["overruns"] = sum(e["status"] == "OVERRUN" for t in traces for e in t["ev"])
    c.judge("ReplayTrace", traces, shards=8)
    c.sample({"trace": traces[0]["ev"][:2]})
    c.assumptions.append("Boolean probabilities between 0 and 2**-64 (or that close to 1) are not used.")
