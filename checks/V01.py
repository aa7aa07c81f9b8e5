"""V01: generated collections (Collections.tla)."""
import operator
import vf
from explore import outcomes
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument


def elements(rng, n, signed=True):
    """(strategy, its values): different ways to make elements 0..n-1 (or fewer, or other integers)"""
    k = rng.randrange(11 if signed else 9)
    if k >= 9: a = rng.randint(-4, 2); return st.integers(a, a + n - 1), list(range(a, a + n))
    if k == 0: return st.integers(0, n - 1), list(range(n))
    if k == 1: return st.sampled_from(range(n)), list(range(n))
    if k == 2:
        xs = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
        return st.sampled_from(xs), sorted(set(xs))
    if k == 3:
        xs = list(range(n)); d = rng.randint(1, 3)
        return st.sampled_from(xs).map(lambda x: x // d), sorted({x // d for x in xs})
    if k == 4:
        d = rng.randint(2, 3)
        return st.sampled_from(range(n + 1)).filter(lambda x: x % d != 1), [x for x in range(n + 1) if x % d != 1]
    if k == 5: return st.integers(0, n - 1).filter(lambda x: x != 1), [x for x in range(n) if x != 1]
    if k == 6: return st.one_of([st.just(i) for i in range(n)]), list(range(n))
    if k == 7: return st.booleans().map(int), [0, 1]
    xs = [rng.randrange(n) for _ in range(3)]; d = rng.choice([1, 2])
    return st.sampled_from(xs).map(lambda x: x + 1).filter(lambda x: x != d), sorted({x + 1 for x in xs if x + 1 != d})


def sizes(rng):
    lo = rng.choice([0, 0, 0, 1, 1, 2, 3]); return lo, lo + rng.choice([0, 1, 1, 2, 3]) if lo < 3 else 3


def table(f, vals): return [[v, f(v)] for v in vals]


def config(rng):
    """(event skeleton, function that makes the strategy, encoding of its results)"""
    n = rng.randint(1, 4)
    lo, hi = sizes(rng)
    kind = rng.choice(["list", "list", "ulist", "ulist", "ulist", "set", "set", "frozenset", "dict", "dict", "fixed", "tuple", "permutation", "pairs", "text"])
    base = {"min": lo, "max": hi, "elems": [], "keys": [], "kind": "list"}
    if kind in ("list", "ulist", "set", "frozenset", "dict"):
        s, vals = elements(rng, n)
        base["elems"] = vals
        if kind == "list": return base, lambda: st.lists(s, min_size=lo, max_size=hi), list
        if kind == "ulist":
            k = rng.randrange(4)
            fs = [[lambda x: x], [lambda x: x % 2], [lambda x: x % 2, lambda x: x // 2], [lambda x: -x, lambda x: x % 3]][k]
            base["keys"] = [table(f, vals) for f in fs]
            if k == 0 and rng.random() < .6: return base, lambda: st.lists(s, min_size=lo, max_size=hi, unique=True), list
            return base, lambda: st.lists(s, min_size=lo, max_size=hi, unique_by=fs[0] if len(fs) == 1 else tuple(fs)), list
        if kind in ("set", "frozenset"):
            f = st.sets if kind == "set" else st.frozensets
            t = set if kind == "set" else frozenset
            def enc(v): assert type(v) is t; return sorted(v)
            return dict(base, kind="set", keys=[table(lambda x: x, vals)]), lambda: f(s, min_size=lo, max_size=hi), enc
        v, vv = elements(rng, rng.randint(1, 2))
        hi = min(hi, 3)
        return (dict(base, kind="dict", vals=vv, max=hi), lambda: st.dictionaries(s, v, min_size=lo, max_size=hi), lambda d: sorted([list(x) for x in d.items()]))
    if kind == "pairs":     # lists of tuples unique by their first element
        s, vals = elements(rng, n, False); v, vv = elements(rng, 2, False)
        hi = min(hi, 2); lo = min(lo, hi)
        codes = [10 * a + b for a in vals for b in vv]
        key = rng.choice([operator.itemgetter(0), lambda x: x[0], lambda x: (x[0],)])
        return (dict(base, min=lo, max=hi, elems=codes, keys=[table(lambda c: c // 10, codes)]),
                lambda: st.lists(st.tuples(s, v), min_size=lo, max_size=hi, unique_by=key), lambda r: [10 * a + b for a, b in r])
    if kind == "text":
        al = "abc"[:rng.randint(1, 3)]
        return (dict(base, elems=[ord(x) for x in al]), rng.choice([lambda: st.text(al, min_size=lo, max_size=hi), lambda: st.text(st.sampled_from(list(al)), min_size=lo, max_size=hi),
                lambda: st.lists(st.characters(min_codepoint=97, max_codepoint=96 + len(al)), min_size=lo, max_size=hi)]), lambda v: [ord(x) for x in v])
    if kind == "fixed":
        names = rng.sample(range(5), rng.randint(1, 4))
        fields, req, opt = [], {}, {}
        for k in names:
            s, vals = elements(rng, rng.randint(1, 2))
            r = rng.random() < .5
            if not r and rng.random() < .15: s, vals = st.nothing(), []
            fields.append({"key": k, "req": int(r), "vals": vals}); (req if r else opt)[k] = s
        return dict(base, kind="fixed", fields=fields), lambda: st.fixed_dictionaries(req, optional=opt) if opt else st.fixed_dictionaries(req), lambda d: sorted([list(x) for x in d.items()])
    if kind == "tuple":
        parts = [elements(rng, rng.randint(1, 3)) for _ in range(rng.randint(0, 3))]
        def enc(v): assert type(v) is tuple; return list(v)
        return dict(base, kind="tuple", parts=[v for _, v in parts]), lambda: st.tuples(*[s for s, _ in parts]), enc
    xs = [rng.randrange(4) for _ in range(rng.randint(0, 4))]
    return dict(base, kind="permutation", elems=xs), lambda: st.permutations(xs), list


def event(rng, big):
    e, make, enc = config(rng)
    e.update(results=[], errors=[], complete=0, refused=0)
    try:
        s = make()
        s.validate()
    except InvalidArgument:
        return dict(e, refused=1)
    except Exception as ex: return dict(e, errors=[repr(ex)])
    out, complete = outcomes(s, max_paths=12000 if big else 500, rng=rng, extra=300 if big else 60)
    seen = {}
    for o in out:
        if o.status == "ok":
            try: v = enc(o.value)
            except Exception as ex: e["errors"] = [repr(ex)]; continue
            seen[repr(v)] = v
        elif o.status == "error": e["errors"] = [repr(o.error)]
    e["results"], e["complete"] = list(seen.values()), int(complete)
    return e, len(out)


def run(c):
    big, rng = vf.THOROUGH, c.rng
    c.model("MCCollections", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS Sound Reachable\nCHECK_DEADLOCK FALSE\n" % (4 if big else 3), workers=4)
    evs = []
    for _ in range(3000 if big else 480):
        e = event(rng, big)
        if isinstance(e, tuple): e, n = e; c.counts["executions"] += n
        evs.append(e)
        c.counts[e["kind"]] += 1; c.counts["complete"] += e["complete"]; c.counts["refused"] += e["refused"]
    traces = [{"id": "t%d" % (i // 20), "ev": evs[i:i + 20]} for i in range(0, len(evs), 20)]
    c.judge("CollectionsTrace", traces, shards=8)
    c.sample({"event": evs[0]})
    c.assumptions.append("Element spaces of at most five values, sizes of at most five; whether every legal collection can be generated is only decided where all choice sequences could be executed.")
