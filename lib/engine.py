"""Runs of the real engine on generated tests, recorded as event lists for EngineTrace.tla.

A test is a program: a function of the choices made so far that says either to choose a number in 0..K or to stop with an outcome:
"p" (pass), "r" (rejected by assume), "f1".."f6" (one of six distinct failures).  The example is the sequence of numbers chosen."""
import math, os, random, sys, unittest, warnings
import vf
sys.path.insert(0, vf.REPO_SRC)
warnings.simplefilter("ignore")
from hypothesis import HealthCheck, Phase, Verbosity, assume, errors, given, seed, settings, strategies as st
from hypothesis.database import ExampleDatabase
from hypothesis.internal.conjecture.choice import choice_to_index

# ------------------------------------------------------------------ failures: distinct by type, by line, by what they were raised from, or by what they group
class A(Exception): pass
class B(Exception): pass
class G(ExceptionGroup):
    def __new__(cls, n, xs):
        g = super().__new__(cls, "group", xs); g.n = n
        return g
OURS = (A, B, G)
def number(e): return e.n if isinstance(e, G) else e.args[0]
def fail(n, way):
    if way <= 4: one(n, way)
    if way == 5: raise A(n)
    if way <= 6: raise A(n)
    if way <= 8:                                # the same line, out of the handling of different errors
        try: one(0, way - 6)
        except (A, B): raise A(n)
    if way <= 10:                               # out of the handling of an error that came out of the handling of different errors
        try:
            try: one(0, way - 6)
            except B: raise A(0)
        except A: raise B(n)
    raise G(n, [caught(k) for k in {11: (1,), 12: (1, 3), 13: (1, 4), 14: (2,)}[way]])
def caught(k):
    try: one(0, k)
    except (A, B) as e: return e
def one(n, way):
    # the same line with different types (1, 2), and two lines with the same type (3, 4)
    if way in (1, 2):
        raise (A if way == 1 else B)(n)
    if way == 3: raise B(n)
    else:
        raise B(n)

# ------------------------------------------------------------------ programs
class Program:
    """step(prefix) -> ("draw", K) or ("end", outcome)"""
    ways = range(1, 7)      # the ways in which the failures are raised
    pad = 0         # bytes chosen along with every number, to make examples large
    def __init__(self, name, k, step, finite): self.name, self.k, self.step, self.finite = name, k, step, finite
    def run(self, choices):
        """(choices used, outcome) or (choices, "over")"""
        p = []
        while True:
            s = self.step(tuple(p))
            if s[0] == "end": return tuple(p), s[1]
            if len(p) == len(choices): return tuple(p), "over"
            p.append(min(choices[len(p)], s[1]))
    def leaves(self, limit=4000):
        """Number of examples, or -1 if there are more than limit."""
        if not self.finite: return -1
        n, stack, seen = 0, [()], 0
        while stack:
            p = stack.pop()
            seen += 1
            if seen > limit: return -1
            s = self.step(p)
            if s[0] == "end": n += 1
            else: stack += [p + (v,) for v in range(s[1] + 1)]
        return n

def hashed(rng, bias=None):
    """A decision tree with random outcomes."""
    k, depth = rng.choice([(1, 3), (1, 5), (1, 6), (2, 3), (2, 4), (3, 2), (3, 3), (5, 2), (7, 1), (4, 6), (1, 12), (200, 3)])
    pstop, salt = rng.choice([0, 0.1, 0.3]), rng.randrange(10 ** 9)
    w = bias or rng.choice([(1, 0, 0), (6, 1, 0), (6, 2, 1), (3, 6, 0), (8, 1, 1), (20, 5, 1), (0, 1, 0), (1, 1, 1)])
    nf = rng.choice([1, 1, 2, 3, 6])
    memo = {}
    def step(p):
        if p in memo: return memo[p]
        r = random.Random("%d/%s" % (salt, p))
        if len(p) < depth and not (p and r.random() < pstop): out = ("draw", k)
        else: out = ("end", r.choices(["p", "r", "f%d" % r.randint(1, nf)], weights=w)[0])
        memo[p] = out
        return out
    return Program("tree(k=%d,depth=%d,stop=%s,weights=%s,failures=%d)" % (k, depth, pstop, w, nf), k, step, True)

def listy(rng):
    """A list, by length first or by continuation flags, with failures by its sum, its values or its length."""
    k = rng.choice([1, 3, 9, 100])
    style = rng.choice(["length", "flags"])
    most = min(k, rng.choice([3, 6, 9]))
    a, b, c = rng.randint(1, 3 * k), rng.randint(1, k), rng.randint(1, max(1, most))
    rules = rng.sample(["sum", "value", "length", "dup", "last"], rng.choice([1, 1, 2, 3]))
    rej = rng.choice([None, None, "even", "first"])
    def values(p):
        if style == "length":
            if not p: return None
            n = min(p[0], most)
            return list(p[1:]) if len(p) == 1 + n else None
        vals, i = [], 0
        while i < len(p):
            if p[i] == 0 or len(vals) == most: return vals
            if i + 1 >= len(p): return None
            vals.append(p[i + 1]); i += 2
        return vals if len(vals) == most else None
    def step(p):
        v = values(p)
        if v is None or (style == "flags" and not p): return ("draw", k)
        if rej == "even" and sum(v) % 2: return ("end", "r")
        if rej == "first" and v and v[0] == 0: return ("end", "r")
        for i, r in enumerate(rules):
            if (r == "sum" and sum(v) >= a) or (r == "value" and any(x >= b for x in v)) or (r == "length" and len(v) >= c) \
               or (r == "dup" and len(set(v)) < len(v)) or (r == "last" and len(v) > 1 and v[-1] > v[0]): return ("end", "f%d" % (i + 1))
        return ("end", "p")
    return Program("list(%s,k=%d,rules=%s,%d,%d,%d,reject=%s)" % (style, k, rules, a, b, c, rej), k, step, True)

def pair(rng):
    k = rng.choice([10, 50, 1000, 10 ** 6])
    n = rng.choice([2, 3])
    a = rng.randrange(k)
    kind = rng.choice(["diff", "sum", "prod", "mod", "bound"])
    def step(p):
        if len(p) < n: return ("draw", k)
        x, y = p[0], p[1]
        bad = {"diff": x > y + a // 2, "sum": x + y >= a, "prod": x * y > a * 3, "mod": x % 7 == 3 and y > 2, "bound": y >= a}[kind]
        if bad: return ("end", "f%d" % (1 + (x % 2 if kind in ("diff", "prod") else 0)))
        return ("end", "r" if kind == "mod" and x % 7 == 1 else "p")
    return Program("pair(k=%d,n=%d,%s,%d)" % (k, n, kind, a), k, step, False)

def program(rng, kinds=("hashed", "hashed", "listy", "pair")):
    return {"hashed": hashed, "listy": listy, "pair": pair}[rng.choice(kinds)](rng)

# ------------------------------------------------------------------ recording
def encode(choices, boolean=False):
    if boolean: return bytes(choices)
    return b"".join(bytes([(2 << 5) | (1 + c.bit_length() // 8)]) + c.to_bytes(1 + c.bit_length() // 8, "big", signed=True) for c in choices)
def decode(b):
    """The numbers saved as b, or None if it isn't that."""
    out, i = [], 0
    while i < len(b):
        if b[i] in (0, 1): out.append(b[i]); i += 1; continue
        if b[i] >> 5 != 2: return None
        n = b[i] & 31
        if n == 31 or n == 0 or i + 1 + n > len(b): return None
        out.append(int.from_bytes(b[i + 1: i + 1 + n], "big", signed=True)); i += 1 + n
    return None if any(v < 0 for v in out) else tuple(out)

BLANK = {"op": "", "ex": 0, "out": "", "key": "", "to": "", "fails": [], "n": 0}

class Recorder:
    def __init__(self):
        self.ev, self.table, self.ids = [], [], {}
    def id(self, choices):
        """Examples are numbered from 1; 0 is an entry that isn't a sequence of numbers."""
        if choices is None: return 0
        choices = tuple(int(x) for x in choices)
        if choices not in self.ids:
            self.table.append(list(choices)); self.ids[choices] = len(self.table)
        return self.ids[choices]
    def finish(self):
        """Large numbers give way to their ranks (order is all that counts)."""
        vals = {v for e in self.table for v in e if v >= 0}
        if max(vals, default=0) >= 2 ** 31:
            rank = {v: i for i, v in enumerate(sorted(vals | {0}))}
            self.table = [[rank.get(v, v) for v in e] for e in self.table]
    def entry(self, b):
        """The number of what a database entry holds; one that can't be read is like an example of its own."""
        ch = decode(b)
        if ch is None: ch = (-5,) + tuple(b)
        return self.id(ch)
    def add(self, op, **kw): self.ev.append(dict(BLANK, op=op, **kw))

class DB(ExampleDatabase):
    """A database in memory whose every call is recorded."""
    def __init__(self, rec):
        super().__init__()
        self.rec, self.data, self.fault = rec, {}, None
    def where(self, key): return "s" if key.endswith(b".secondary") else "q" if key.endswith(b".pareto") else "m"
    def tick(self):
        if self.fault is not None:
            self.fault -= 1
            if self.fault == 0: raise KeyboardInterrupt()
    def fetch(self, key):
        self.rec.add("fetch", key=self.where(key))
        yield from sorted(self.data.get(self.where(key), ()))
    def save(self, key, value):
        self.tick()
        self.data.setdefault(self.where(key), set()).add(bytes(value))
        self.rec.add("save", key=self.where(key), ex=self.rec.entry(value))
    def delete(self, key, value):
        self.tick()
        self.data.setdefault(self.where(key), set()).discard(bytes(value))
        self.rec.add("delete", key=self.where(key), ex=self.rec.entry(value))
    def move(self, src, dest, value):
        self.tick()
        self.data.setdefault(self.where(src), set()).discard(bytes(value))
        self.data.setdefault(self.where(dest), set()).add(bytes(value))
        self.rec.add("move", key=self.where(src), to=self.where(dest), ex=self.rec.entry(value))
    def ids(self, key): return [self.rec.entry(b) for b in sorted(self.data.get(key, ()), key=lambda b: (len(b), b))]

PH = {"reuse": Phase.reuse, "generate": Phase.generate, "target": Phase.target, "shrink": Phase.shrink, "explain": Phase.explain, "explicit": Phase.explicit}

def numbers(how, k):
    """A strategy for the numbers 0 .. k, which makes its choices as integers, floats, texts..."""
    tiny = 5e-324
    if how == "float": return st.floats(0.0, k * tiny).map(lambda x: round(x / tiny))
    if how == "zeros" and k: return st.floats(-0.0, (k - 1) * tiny).map(lambda x: round(x / tiny) + 1 if math.copysign(1, x) > 0 else 0)
    norm = 2.0 ** -1022         # (the first after zero if subnormal numbers aren't allowed)
    if how == "normal" and k: return st.floats(0.0, norm + (k - 1) * tiny, allow_subnormal=False).map(lambda x: round((x - norm) / tiny) + 1 if x else 0)
    if how == "normal-" and k > 1: return st.floats(-0.0, norm + (k - 2) * tiny, allow_subnormal=False).map(lambda x: round((x - norm) / tiny) + 2 if x else int(math.copysign(1, x) > 0))
    if how == "one": return st.floats(1.0, 1.0 + k * 2.0 ** -52).map(lambda x: round((x - 1) / 2.0 ** -52))
    if how == "text": return st.text([chr(48 + i) for i in range(k + 1)], min_size=1, max_size=1).map(lambda c: ord(c) - 48)
    if how == "sizes": return st.text("a", max_size=k).map(len)
    if how == "offset": return st.integers(10 ** 9, 10 ** 9 + k).map(lambda x: x - 10 ** 9)
    if how == "below": return st.integers(-k, 0).map(lambda x: -x)
    if how == "sampled": return st.sampled_from(range(k + 1))
    return st.integers(0, k)


def run(prog, rec, db=None, cfg=None, rngseed=0, behave=None, hook=None):
    """One run of the engine; appends begin, events and end to rec and returns (result kind, exception).
    behave(calls, prefix, step) may change what the test does (a test that isn't deterministic); hook(data, prefix, outcome) is called in the body."""
    cfg = dict({"max": 20, "phases": ["reuse", "generate", "target", "shrink"], "multi": True, "health": False}, **(cfg or {}))
    boolean = cfg.get("boolean", False)
    leaves = prog.leaves()
    typed = hasattr(prog, "body")
    rec.add("begin", n=cfg["max"])
    rec.ev[-1].update(m=db.ids("m") if db else [], s=db.ids("s") if db else [], q=db.ids("q") if db else [], db=int(db is not None), phases=cfg["phases"], multi=int(cfg["multi"]),
                      leaves=leaves, health=int(cfg["health"]), stable=int(behave is None))
    calls, last = [0], {}
    ints = {}
    def test(data):
        calls[0] += 1
        p, out, asks = [], "over", []
        try:
            while not typed:
                s = prog.step(tuple(p))
                if behave: s = behave(calls[0], tuple(p), s)
                asks.append(s[1])
                if s[0] == "end":
                    out = s[1]
                    break
                if prog.pad: data.draw(st.binary(min_size=prog.pad, max_size=prog.pad))
                if s[1] not in ints: ints[s[1]] = st.booleans() if boolean else numbers(cfg.get("types"), s[1])
                p.append(data.draw(ints[s[1]]))
            if typed: out = prog.body(data)
            if hook: hook(data, tuple(int(x) for x in p), out)
            if cfg.get("kill") == calls[0]: out = "k"; raise KeyboardInterrupt()
            if out == "r": assume(False)
            if out[0] == "f": fail(int(out[1]), prog.ways[int(out[1]) - 1])
        finally:
            if typed: last[out] = data.conjecture_data.choices; p = [choice_to_index(n.value, n.constraints) for n in data.conjecture_data.nodes]
            rec.add("call", ex=rec.id(p), out=out)
            if behave: rec.ev[-1]["asks"] = [str(x) for x in asks]
    test.__qualname__ = test.__name__ = "test"
    s = settings(max_examples=cfg["max"], phases=[PH[x] for x in cfg["phases"]], database=db, deadline=None, derandomize=False, print_blob=False,
                 report_multiple_bugs=cfg["multi"], suppress_health_check=[] if cfg["health"] else list(HealthCheck), stateful_step_count=5)
    fn = s(seed(rngseed)(given(st.data())(test)))     # (@seed switches the database off when it comes last)
    kind, exc, fails, which = "ok", None, [], ""
    try: fn()
    except errors.Flaky as e:
        kind, exc, which = "flaky", e, type(e).__name__
        fails = sorted({number(x) for x in getattr(e, "exceptions", ()) if isinstance(x, OURS)})
        # a definition that changed under way is raised in the body of the test and is carried too
        if any(isinstance(x, errors.FlakyStrategyDefinition) for x in getattr(e, "exceptions", ())): which += "+definition"
    except errors.Unsatisfiable as e: kind, exc = "unsat", e
    except errors.FailedHealthCheck as e:
        kind, exc = "health", e
        which = next((v for k, v in {"filter_too_much": "filter", "data_too_large": "large", "large_base_example": "base"}.items() if k in str(e)), "")
    except OURS as e: kind, exc, fails = "fail", e, [number(e)]
    except BaseExceptionGroup as e:
        kind, exc = "group", e
        fails = [number(x) for x in e.exceptions if isinstance(x, OURS)]
        if any(isinstance(x, errors.Flaky) for x in e.exceptions): kind = "flaky"
        elif any(isinstance(x, KeyboardInterrupt) for x in e.exceptions): kind = "kbd"      # (interrupted while it was replaying the failures)
        elif len(fails) != len(e.exceptions): kind = "error"
    except KeyboardInterrupt as e: kind, exc = "kbd", e
    except unittest.SkipTest as e: kind, exc = "skip", e
    except Exception as e:
        if vf.in_repo_tb(e) or not isinstance(e, errors.HypothesisException): kind, exc = "error", e
        else: kind, exc = "error", e
    rec.add("end", out=kind, key=which, fails=fails, n=calls[0])
    neighbours = []
    if kind in ("fail", "group") and behave is None:
        for f in fails:
            runs = [e for e in rec.ev if e["op"] == "call" and e["out"] == "f%d" % f]
            ch = tuple(rec.table[runs[-1]["ex"] - 1]) if runs else ()
            if typed:
                for i, (d, out) in prog.neighbours(last["f%d" % f]):
                    used = tuple(choice_to_index(n.value, n.constraints) for n in d.nodes)
                    if out == "f%d" % f and (len(used), used) < (len(ch), ch): neighbours.append([f, i + 1, rec.id(used)])
                continue
            for i in range(len(ch)):
                for c in ([ch[:i] + ch[i + 1:]] + ([ch[:i] + (0,) + ch[i + 1:]] if ch[i] else [])):
                    used, out = prog.run(c)
                    if out == "f%d" % f and (len(used), used) < (len(ch), ch): neighbours.append([f, i + 1, rec.id(used)])
    rec.ev[-1].update(better=neighbours, shrinks=sum(e["op"] == "move" and e["key"] == "m" for e in rec.ev))
    return kind, exc
