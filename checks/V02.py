"""V02: filtered strategies (Filters.tla)."""
import contextlib, datetime as dt, importlib.util, itertools, math, operator, os, re, struct
from decimal import Decimal
from fractions import Fraction
from functools import partial
import vf
from explore import outcomes, sweep, where
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument

OPS = {"lt": "<", "le": "<=", "eq": "==", "ge": ">=", "gt": ">", "ne": "!="}
FLIP = {"lt": "gt", "le": "ge", "eq": "eq", "ge": "le", "gt": "lt"}   # operator.f(arg, x)


class Source:
    """Predicates written to a real source file, because filters look at the source of what they are given."""
    def __init__(self): self.parts, self.n = ["import math, operator\nfrom functools import partial\nfrom fractions import Fraction\nfrom decimal import Decimal\nfrom datetime import date\n"], 0

    def add(self, rng, expr, style=None):
        """expr is an expression in x; returns the name of the function"""
        self.n += 1
        name = "p%d" % self.n
        style = style or rng.choice(["lambda", "lambda", "def", "wrapped", "pair", "arg", "default"])
        e = expr
        if style == "lambda": t = "%s = lambda x: %s" % (name, e)
        elif style == "def": t = "def %s(x):\n    return %s" % (name, e)
        elif style == "wrapped": t = "%s = (\n    lambda x: %s\n)" % (name, e)
        elif style == "pair": t = "%s, q%d = lambda x: %s, lambda x: x == 3" % (name, self.n, e)
        elif style == "arg":
            v = rng.choice(["y", "value", "_"]); t = "%s = lambda %s: %s" % (name, v, re.sub(r"\bx\b", v, e))
        else: t = "%s = lambda x, y=1: %s" % (name, e)
        self.parts.append(t + "\n")
        return name

    def partial(self, expr):
        self.n += 1
        self.parts.append("p%d = %s\n" % (self.n, expr))
        return "p%d" % self.n

    def load(self):
        p = os.path.join(vf.scratch("src"), "vf_preds.py")
        with open(p, "w") as f: f.write("\n".join(self.parts))
        spec = importlib.util.spec_from_file_location("vf_preds", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m


def atom(rng, consts, opaque, of_len):
    """(term, expression): the term has Python constants, turned into ranks later"""
    x = "len(x)" if of_len else "x"
    if opaque and rng.random() < .2:
        e = rng.choice(opaque); return {"op": "tab", "expr": e}, e
    op = rng.choice(list(OPS) if rng.random() < .3 else list(FLIP))
    a = rng.choice(consts)
    if rng.random() < .3 and op != "ne": return {"op": FLIP[op], "a": a}, "%s %s %s" % (lit(a), OPS[op], x)
    return {"op": op, "a": a}, "%s %s %s" % (x, OPS[op], lit(a))


def lit(a):
    if isinstance(a, float) and math.isinf(a): return "1e999" if a > 0 else "-1e999"
    return repr(a)


def term(rng, consts, opaque, of_len=False):
    k = rng.randrange(10)
    x = "len(x)" if of_len else "x"
    if k < 5: return atom(rng, consts, opaque, of_len)
    if k == 5:     # chained comparison
        a, b = rng.choice(consts), rng.choice(consts); o, p = rng.choice(list(FLIP)), rng.choice(list(FLIP))
        return {"op": "and", "ps": [{"op": FLIP[o], "a": a}, {"op": p, "a": b}]}, "%s %s %s %s %s" % (lit(a), OPS[o], x, OPS[p], lit(b))
    p, q = atom(rng, consts, opaque, of_len), atom(rng, consts, opaque, of_len)
    if rng.random() < .35 and "a" in p[0]:        # both about the same number, one perhaps strict and the other not
        o, a = rng.choice([p[0]["op"], rng.choice(list(FLIP))]), p[0]["a"]
        if o in FLIP: o = rng.choice([o, {"lt": "le", "le": "lt", "gt": "ge", "ge": "gt"}.get(o, o)])
        q = ({"op": o, "a": a}, "%s %s %s" % (x, OPS[o], lit(a)))
    if k in (6, 7): return {"op": "and", "ps": [p[0], q[0]]}, "%s and %s" % (p[1], q[1])
    if k == 8: return {"op": "or", "ps": [p[0], q[0]]}, "%s or %s" % (p[1], q[1])
    return {"op": "not", "ps": [p[0]]}, "not (%s)" % p[1]


def predicate(rng, src, consts, opaque, of_len=False, partials=True):
    if partials and not of_len and rng.random() < .3:
        op, a = rng.choice(list(FLIP)), rng.choice([c for c in consts if not isinstance(c, bool)] or consts)
        if isinstance(a, int) and rng.random() < .2: a = Fraction(a * 2 + rng.choice([0, 1]), 2)
        if isinstance(a, int) and rng.random() < .2: a = Decimal(a)
        return {"op": FLIP[op], "a": a}, src.partial("partial(operator.%s, %s)" % (op, "float(%r)" % repr(a) if isinstance(a, float) else repr(a)))
    t, e = term(rng, consts, opaque, of_len)
    return t, src.add(rng, e)


def finish(e, vals, steps, fns):
    """Replace constants by ranks, opaque predicates by tables (evaluated on the values), values by records."""
    nums = set()
    def walk(p):
        if "a" in p: nums.add(exact(p["a"]))
        for q in p.get("ps", ()): walk(q)
    for s in steps: walk(s)
    key = e.pop("key")
    for v in vals:
        k = key(v)
        if k is not None: nums.add(k)
    order = {k: i for i, k in enumerate(sorted(nums))}
    def conv(p):
        if "a" in p: return {"op": p["op"], "a": order[exact(p["a"])]}
        if "ps" in p: return {"op": p["op"], "ps": [conv(q) for q in p["ps"]]}
        if "f" in p: return {"op": "tab", "t": [i + 1 for i, v in enumerate(vals) if ok(p["f"], v)]}
        if "expr" in p:
            f = eval("lambda x: " + p["expr"], {"math": math, "operator": operator}); return {"op": "tab", "t": [i + 1 for i, v in enumerate(vals) if ok(f, v)]}
        return p
    e["steps"] = [conv(s) for s in steps]
    e["vals"] = [{"id": i + 1, "r": -1 if key(v) is None else order[key(v)], "n": int(key(v) is None)} for i, v in enumerate(vals)]
    return e


def ok(f, v):
    try: return bool(f(v))
    except Exception: return False


def exact(a):
    if isinstance(a, float) and math.isinf(a): return (1 if a > 0 else -1, Fraction(0))
    if isinstance(a, dt.date): return (0, Fraction(a.toordinal()))
    return (0, Fraction(a))


def ident(v):
    """values are told apart by type and bits"""
    return (type(v).__name__, struct.pack("d", v) if isinstance(v, float) and v == v else "nan" if isinstance(v, float) else repr(sorted(v)) if isinstance(v, (set, frozenset)) else repr(sorted(v.items())) if isinstance(v, dict) else repr(v))


def src_of(mod, f):
    from hypothesis.internal.reflection import get_pretty_function_description
    return get_pretty_function_description(getattr(mod, f))


class Case:
    """One event: a base strategy with its membership test, steps and how to explore it."""
    def __init__(self, kind): self.kind, self.steps, self.fns, self.probes, self.key = kind, [], [], [], lambda v: None


def twice(rng, src, c, o, p, a, chain):
    """a single filter which is about the same number twice"""
    c.steps.append({"op": "and", "ps": [{"op": o, "a": a}, {"op": p, "a": a}]})
    c.fns.append(src.add(rng, "%s %s x %s %s" % (lit(a), OPS[FLIP[o]], OPS[p], lit(a)) if chain else "x %s %s and x %s %s" % (OPS[o], lit(a), OPS[p], lit(a)), "lambda"))
    return c


def twices(rng, src, all_):
    todo = [(m, o, p, ch) for m in (int_case, float_case) for o in FLIP for p in FLIP for ch in (0, 1)]
    same = [x for x in todo if x[1][0] == x[2][0] and x[1] != x[2]]         # x > 3 and x >= 3, and the like
    if not all_: todo = same + rng.sample(todo, 8)
    return [twice(rng, src, m(rng, src, True), o, p, 2 if m is int_case else 0.5, ch) for m, o, p, ch in todo]


def int_case(rng, src, plain=False):
    c = Case("int")
    lo, hi = (-3, 5) if plain else rng.choice([(0, 5), (-3, 4), (None, None), (2, None), (None, 3), (0, 100), (-2, 2), (10, 10), (-5, 10 ** 20)])
    consts = [0, 1, -1, 2, 3, 4, 5, 2.5, -0.5, 7, 1e999, -1e999, 3.0, True] + ([1e20, 10 ** 30, 1e308, -1e20] if lo is None or hi is None or hi - lo > 50 else [])
    c.make = lambda: st.integers(lo, hi)
    c.member = lambda v: type(v) is int and (lo is None or v >= lo) and (hi is None or v <= hi)
    c.finite = list(range(lo, hi + 1)) if lo is not None and hi is not None and hi - lo < 20 else None
    c.probes = list(range(-6, 12)) + [10 ** 30, 10 ** 30 + 1, 10 ** 30 - 1, int(1e20), int(1e20) + 1, int(1e20) - 1, 99, 100, 101]
    c.key = exact
    if plain: return c
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .08: f = rng.choice(["math.isfinite", "math.isinf", "math.isnan"]); c.steps.append({"op": "tab", "f": eval(f)}); c.fns.append(src.partial(f))
        else:
            t, n = predicate(rng, src, consts, ["x % 2", "x % 3 == 1", "x", "not x", "abs(x) < 4"]); c.steps.append(t); c.fns.append(n)
    return c


def float_case(rng, src, plain=False):
    c = Case("float")
    kw = {"min_value": -1.0, "max_value": 1.0} if plain else rng.choice([{}, {}, {"allow_nan": False}, {"min_value": 0.0}, {"min_value": -0.0}, {"max_value": 0.0}, {"max_value": -0.0}, {"min_value": -1.0, "max_value": 1.0}, {"min_value": 1.0}, {"max_value": 2.5},
                     {"allow_infinity": False}, {"min_value": 0.0, "exclude_min": True, "max_value": 1.0}, {"allow_subnormal": False}, {"min_value": -1.0, "max_value": 1.0, "allow_subnormal": False},
                     {"min_value": 1.0, "max_value": 1.0}, {"width": 32}, {"width": 16}, {"min_value": -5e-324}, {"min_value": 0.0, "allow_subnormal": False}])
    consts = [0, 0.0, -0.0, 1, 1.0, -1.0, 0.5, 2.5, 1e999, -1e999, 5e-324, -5e-324, 2.0 ** -1022, 1e308, 1e-310, -1e-310, 0.1, 3, 1.7976931348623157e308]
    big = [10 ** 400, -10 ** 400, 2 ** 53 + 1, 10 ** 17 + 1]
    lo, hi = kw.get("min_value", -math.inf), kw.get("max_value", math.inf)
    bounded = "min_value" in kw or "max_value" in kw
    nan, inf = kw.get("allow_nan", not bounded), kw.get("allow_infinity", not ("min_value" in kw and "max_value" in kw))
    w = kw.get("width", 64)
    def member(v):
        if type(v) is not float: return False
        if v != v: return nan
        if math.isinf(v): return inf and lo <= v <= hi
        if kw.get("allow_subnormal") is False and 0 < abs(v) < 2.0 ** -1022: return False
        if w != 64:
            try:
                if struct.unpack({32: "f", 16: "e"}[w], struct.pack({32: "f", 16: "e"}[w], v))[0] != v: return False
            except OverflowError: return False
        sk = lambda z: (z, math.copysign(1, z))
        return sk(lo) <= sk(v) <= sk(hi) and not (kw.get("exclude_min") and v == lo)
    c.make = lambda: st.floats(**kw)
    c.member, c.finite = member, None
    base = [x for x in consts if isinstance(x, float)] + [2.0, 3.0, -0.5, 100.0, float(2 ** 53), float(2 ** 53 + 2), float("nan"), 1e17, math.nextafter(1e17, 1e999)]
    c.probes = list({struct.pack("d", y): y for x in base for y in ([x] if x != x else [x, math.nextafter(x, 1e999), math.nextafter(x, -1e999)])}.values())
    c.key = lambda v: None if v != v else exact(v)
    if plain: return c
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .12: f = rng.choice(["math.isfinite", "math.isinf", "math.isnan"]); c.steps.append({"op": "tab", "f": eval(f)}); c.fns.append(src.partial(f))
        else:
            t, n = predicate(rng, src, consts + (big if rng.random() < .3 else []), ["x % 2", "x", "not x", "abs(x) < 4", "x != x"]); c.steps.append(t); c.fns.append(n)
    return c


def date_case(rng, src):
    c = Case("date")
    lo = rng.choice([dt.date(2000, 1, 1), dt.date(1999, 12, 30), dt.date(2000, 2, 27), dt.date.min, dt.date.max - dt.timedelta(days=5)])
    n = rng.choice([1, 2, 5]); hi = lo + dt.timedelta(days=n)
    c.make = lambda: st.dates(lo, hi)
    c.finite = [lo + dt.timedelta(days=i) for i in range(n + 1)]
    c.member = lambda v: v in c.finite
    c.key = exact
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(list(FLIP)); a = rng.choice(c.finite + [dt.date.min, dt.date.max, dt.date(2000, 1, 2), dt.date(1980, 1, 1)])
        if rng.random() < .2: f = lambda x: x.day % 2; c.steps.append({"op": "tab", "f": f}); c.fns.append(src.add(rng, "x.day % 2"))
        else: c.steps.append({"op": FLIP[op], "a": a}); c.fns.append(src.partial("partial(operator.%s, date(%d, %d, %d))" % (op, a.year, a.month, a.day)))
    return c


class Bag(list):
    """a collection type of the user's"""


PACKS = ["list", "ulist", "set", "frozenset", "tuple", "sorted", "str", "map_tuple", "map_set", "map_bytes", "bag", "text", "binary", "dict"] + ["pairs-%d-%s" % (u, p) for u in range(3) for p in ("dict", "set", "tuple", "sorted")] + ["unique_by"]


def len_case(rng, src, k=None, lohi=None, pred=None):
    c = Case("len")
    lo, hi = lohi or rng.choice([(0, 0), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (2, 2)])
    k = k or rng.choice(PACKS[:14] if rng.random() < .6 else PACKS)
    ab = [0, 1]
    lists = [list(x) for n in range(lo, hi + 1) for x in itertools.product(ab, repeat=n)]
    base = lambda: st.lists(st.integers(0, 1), min_size=lo, max_size=hi)
    maps = {"set": set, "frozenset": frozenset, "sorted": sorted, "str": str, "map_tuple": tuple, "map_set": set, "map_bytes": bytes, "bag": Bag}
    if k == "list": c.make, c.finite = base, lists
    elif k == "ulist": c.make, c.finite = lambda: st.lists(st.integers(0, 1), min_size=min(lo, 2), max_size=hi if hi < 3 else 3, unique=True), [x for x in lists if len(set(x)) == len(x)]
    elif k in ("set", "frozenset"):
        f = maps[k]; l2 = min(lo, 2); c.make = lambda: getattr(st, k + "s")(st.integers(0, 1), min_size=l2, max_size=hi)
        c.finite = [f(x) for x in ([], [0], [1], [0, 1]) if l2 <= len(x) <= hi]
    elif k == "tuple": c.make, c.finite = lambda: st.tuples(st.booleans(), st.integers(0, 1)), [(a, b) for a in (False, True) for b in ab]
    elif k == "text": c.make, c.finite = lambda: st.text("ab", min_size=lo, max_size=hi), ["".join("ab"[i] for i in x) for x in lists]
    elif k == "binary":
        hi = min(hi, 2); lo = min(lo, hi)
        c.make, c.finite, c.member = lambda: st.binary(min_size=lo, max_size=hi), None, lambda v: type(v) is bytes and lo <= len(v) <= hi
    elif k == "dict":
        l2 = min(lo, 2); c.make = lambda: st.dictionaries(st.integers(0, 1), st.integers(0, 1), min_size=l2, max_size=hi)
        c.finite = [d for d in [{}] + [{a: x} for a in ab for x in ab] + [{0: x, 1: y} for x in ab for y in ab] if l2 <= len(d) <= hi]
    elif k[:5] == "pairs":          # packed lists of pairs, which may be unique or not, or by key
        hi = min(hi, 2); lo = min(lo, hi); u = int(k[6]); mp = {"dict": dict, "set": set, "tuple": tuple, "sorted": sorted}[k[8:]]
        kw = [{}, {"unique": True}, {"unique_by": lambda x: x[0]}][u]
        prs = [list(x) for n in range(lo, hi + 1) for x in itertools.product([(a, b) for a in ab for b in ab], repeat=n)]
        prs = [x for x in prs if u == 0 or len({y[:2 - (u - 1)] for y in x}) == len(x)]
        c.make, c.finite = lambda: st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)), min_size=lo, max_size=hi, **kw).map(mp), list({ident(mp(x)): mp(x) for x in prs}.values())
    elif k == "unique_by":
        hi = min(hi, 2); lo = min(lo, hi); mp = rng.choice([list, set, tuple, frozenset]); half = lambda x: x // 2
        c.make, c.finite = lambda: st.lists(st.integers(0, 3), min_size=lo, max_size=hi, unique_by=half).map(mp), list({ident(mp(x)): mp(x) for n in range(lo, hi + 1) for x in itertools.product(range(4), repeat=n) if len(set(map(half, x))) == n}.values())
    else: mp = maps[k]; c.make, c.finite = lambda: base().map(mp), list({ident(mp(x)): mp(x) for x in lists}.values())
    if c.finite is not None: c.member = lambda v: any(ident(v) == ident(x) for x in c.finite)
    c.key = lambda v: exact(len(v))
    if pred:
        c.steps.append(pred[0]); c.fns.append(src.add(rng, pred[1], "lambda")); return c
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < .25:
            f = rng.choice(["bool", "len", "lambda x: x", "lambda y: y"]); c.steps.append({"op": "tab", "f": bool}); c.fns.append(src.partial(f))
        elif r < .3: f = rng.choice(["tuple", "list"]); c.steps.append({"op": "tab", "f": bool}); c.fns.append(src.partial(f))
        else:
            t, n = predicate(rng, src, [0, 1, 1, 2, 2, 3] if rng.random() < .7 else [0, 1, 2, 3, 4, -1, 1.5, 1e999, -1e999, 0.5], ["len(x) % 2", "len(set(x)) == len(x)"], of_len=True); c.steps.append(t); c.fns.append(n)
    return c


def len_cases(rng, src, all_):
    """every kind of collection with every simple length filter"""
    preds = [({"op": o, "a": n}, "len(x) %s %d" % (OPS[o], n)) for o in FLIP for n in (0, 1, 2)] + [({"op": "ge", "a": 1}, "x")]
    out = [(k, lh, p) for k in PACKS for lh in [(0, 2), (0, 3), (1, 2), (1, 1)] for p in preds]
    if not all_:
        d = [x for x in out if x[1] == (0, 2) and x[2][1] in ("len(x) >= 2", "len(x) > 1", "len(x) == 2", "len(x) <= 1", "len(x) == 1", "x")]
        out = rng.sample(out, 60) + [rng.choice([x for x in d if x[0] == k and (x[2][1] in ("len(x) >= 2", "len(x) > 1", "len(x) == 2")) == m]) for k in PACKS for m in (0, 1)]
    return [len_case(rng, src, *x) for x in out]


PATTERNS = [("a", 0), ("a|b", 0), ("a|ab", 0), ("^a", 0), ("a$", 0), ("a$", re.M), ("^a", re.M), ("a", re.M), (r"\Aa", 0), (r"a\Z", 0), ("(?i)a", 0), ("a # comment", re.X), ("b", re.I), ("", 0), ("a*", 0),
            ("(?=a)", 0), (r"\d", 0), (r"\w+", re.A), ("[^a]", 0), ("(a|b){2}", 0), (".", 0), (".", re.S), (r"\bA", 0), ("(?P<q>a)(?P=q)", 0), ("a{0}b", 0), ("(?s:.)", 0), ("(?!a)", 0), ("(a)?(?(1)b|A)", 0), ("a|^b", 0), ("x", 0)]


def text_case(rng, src):
    c = Case("text")
    al = rng.choice(["ab", "aA", "a1", "1_ ", "Aé", "\na", "b"])
    lo, hi = rng.choice([(0, 2), (1, 2), (0, 1), (2, 2), (0, None)])
    binary = rng.random() < .2
    c.make = (lambda: st.binary(min_size=lo, max_size=hi)) if binary else (lambda: st.text(al, min_size=lo, max_size=hi))
    c.member = lambda v: type(v) is (bytes if binary else str) and lo <= len(v) <= (99 if hi is None else hi) and (binary or set(v) <= set(al))
    c.finite = None if binary or hi is None else ["".join(x) for n in range(lo, hi + 1) for x in itertools.product(al, repeat=n)]
    c.key = lambda v: exact(len(v))
    T = bytes if binary else str
    c.regex = False
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        if r < .5:
            p, f = rng.choice(PATTERNS)
            p = re.compile(p.encode() if binary else p, f & ~(re.A if binary else 0))
            m = rng.choice(["match", "match", "search", "fullmatch", "findall", "split", "finditer"] if rng.random() < .3 else ["match", "search", "fullmatch"])
            q = getattr(p, m); c.steps.append({"op": "tab", "f": q}); c.fns.append(q); c.regex = True
        elif r < .9:
            names = ["isalpha", "isdigit", "isalnum", "isspace", "islower", "isupper", "istitle", "strip", "lower", "upper", "title", "isascii", "capitalize", "split", "splitlines", "swapcase"] + ([] if binary else ["casefold"] + ["isidentifier"] * 3 + ["isnumeric", "isdecimal", "isprintable"])
            q = getattr(T, rng.choice(names))
            c.steps.append({"op": "tab", "f": q}); c.fns.append(q)
        else:
            t, n = predicate(rng, src, [0, 1, 2, 3], [], of_len=True); c.steps.append(t); c.fns.append(n)
    return c


def sampled_case(rng, src):
    c = Case("sampled")
    xs = [rng.randrange(5) for _ in range(rng.randint(1, 6))]
    k = rng.randrange(5)
    if k == 0: c.make = lambda: st.sampled_from(xs)
    elif k == 1: c.make = lambda: st.one_of([st.just(x) for x in xs])
    elif k == 2: h = rng.randint(1, len(xs)); c.make = lambda: st.one_of(st.sampled_from(xs[:h]), *[st.just(x) for x in xs[h:]])
    elif k == 3: xs = list(range(rng.randint(1, 3), rng.randint(4, 6))); c.make = lambda: st.integers(xs[0], xs[-1]) | st.nothing()
    else: c.make = lambda: st.sampled_from(xs).flatmap(st.just)
    cur = list(dict.fromkeys(xs)); c.finite = cur[:]
    c.member = lambda v: v in c.finite
    c.key = exact
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .35:
            d = rng.choice(["x + 1", "x // 2", "-x", "x * 2", "x % 3"]); f = eval("lambda x: " + d)
            pairs = [(v, f(v)) for v in cur]; cur = list(dict.fromkeys(w for _, w in pairs))
            c.steps.append({"op": "map", "pairs": pairs}); c.fns.append(("map", src.add(rng, d)))
        else:
            t, n = predicate(rng, src, [0, 1, 2, 3, 4, -1, 1.5], ["x % 2", "x % 3 == 1", "x"]); c.steps.append(t); c.fns.append(n)
    return c


def event(rng, c, mod, big):
    e = {"kind": c.kind, "errors": [], "empty": 0, "base": [], "results": [], "cover": [], "key": c.key}
    out, complete, s = [], False, None
    try:
        s = c.make()
        if rng.random() < .5: s.validate()
        for f in c.fns:
            if isinstance(f, tuple): s = s.map(getattr(mod, f[1]))
            else: s = s.filter(getattr(mod, f) if isinstance(f, str) else f)
            if rng.random() < .1: s.validate()
        s.validate()
        if rng.random() < .3: s.is_empty
        e["empty"] = int(s.is_empty)
        if c.finite is None:
            out = sweep(s, 1 if c.kind in ("int", "float") else 2, probes=c.probes, most=300) + (outcomes(s, max_paths=60, rng=rng, extra=60, probes=c.probes)[0] if not e["empty"] else [])
        else: out, complete = outcomes(s, max_paths=6000 if big else 1000, rng=rng, extra=100, wide=25)
    except InvalidArgument: e["empty"] = 1
    except Exception as ex: e["errors"] = [where(ex)]
    vals, ids = [], {}
    def idof(v):
        k = ident(v)
        if k not in ids: vals.append(v); ids[k] = len(vals)
        return ids[k]
    for v in c.finite if c.finite is not None else [p for p in c.probes if c.member(p)]: idof(v)
    for st_ in c.steps:
        if st_["op"] == "map": st_["t"] = [[idof(a), idof(b)] for a, b in st_.pop("pairs")]
    for o in out:
        if o.status == "ok": i = idof(o.value); e["results"].append(i)
        elif o.status == "error":
            if isinstance(o.error, InvalidArgument): e["empty"] = 1
            else: e["errors"] = [where(o.error)]
    e["results"] = sorted(set(e["results"]))
    e["base"] = [i + 1 for i, v in enumerate(vals) if c.member(v)]
    if c.finite is not None: e["cover"] = list(range(1, len(vals) + 1)) if complete else []
    else: e["cover"] = [ids[ident(v)] for v in c.probes if ident(v) in ids]
    e["what"] = "%s %s %s" % (c.kind, ["%s = %s" % (f, src_of(mod, f)) if isinstance(f, str) else repr(f) if isinstance(f, tuple) else repr(getattr(f, "__self__", f)) + f.__name__ for f in c.fns], s if not e["errors"] else "")
    return finish(e, vals, c.steps, c.fns), len(out), complete


def run(c):
    big, rng = vf.THOROUGH, c.rng
    c.model("MCFilters", "SPECIFICATION Spec\nCONSTANT N = %d\nPROPERTIES Exact Complete\nCHECK_DEADLOCK FALSE\n" % (4 if big else 2), workers=8)
    src, cases = Source(), []
    makers = [int_case, int_case, float_case, float_case, date_case, len_case, len_case, len_case, text_case, sampled_case, sampled_case]
    for i in range(6000 if big else 300): cases.append(makers[i % len(makers)](rng, src))
    cases += len_cases(rng, src, big) + twices(rng, src, big)
    mod, evs = src.load(), []
    for case in cases:
        with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f): e, n, comp = event(rng, case, mod, big)
        evs.append(e); c.counts["executions"] += n; c.counts[case.kind] += 1; c.counts["complete"] += comp
    traces = [{"id": "t%d" % (i // 25), "ev": evs[i:i + 25]} for i in range(0, len(evs), 25)]
    c.judge("FiltersTrace", traces, shards=8)
    c.sample({"event": evs[4]})
    c.assumptions.append("Completeness is decided over finite spaces and, for numbers, at probe values around all constants involved; regular-expression filters are checked for soundness only.")
