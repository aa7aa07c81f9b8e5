"""R02: generated random objects (Randoms.tla)."""
import contextlib, copy, math
import random as stdrandom
import vf
from hypothesis import strategies as st
from hypothesis.control import BuildContext
from hypothesis.errors import StopTest
from hypothesis.internal.conjecture.data import ConjectureData


def intf(rng): return rng.choice([0, 1, 2, 3, -2, 10, 1000])


def population(rng): return [rng.randint(0, 4) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 6]))]


def call(rng, methods):
    """(method, abstract arguments, args, kwargs)"""
    m = rng.choice(methods)
    f = lambda v: float(v) if rng.random() < .7 else v
    if m == "randint":
        a, b = intf(rng), intf(rng)
        if rng.random() < .85: a, b = sorted((a, b))
        return m, {"a": a, "b": b}, rng.choice([((a, b), {}), ((a,), {"b": b}), ((), {"a": a, "b": b})])
    if m == "randrange":
        if rng.random() < .3:
            n = rng.randint(0, 5)
            return m, {"start": 0, "stop": n, "step": 1}, ((n,), {})
        a, b, s = intf(rng), intf(rng), rng.choice([1, 1, 2, 3, 7, -1, -2, -3, 5000])
        if rng.random() < .85 and (b - a) * s < 0: a, b = b, a
        return m, {"start": a, "stop": b, "step": s}, ((a, b, s) if s != 1 or rng.random() < .5 else (a, b), {})
    if m == "choice":
        p = population(rng)
        return m, {"seq": p}, ((rng.choice([list, tuple])(p),), {})
    if m == "choices":
        p, k = population(rng), rng.choice([0, 1, 2, 3, 5])
        if not p: k = max(k, 1)
        kw, w = {}, []
        if p and rng.random() < .5:
            w = [rng.choice([0, 0, 1, 2, 5]) for _ in p]
            if rng.random() < .5: kw["weights"] = w
            else: kw["cum_weights"] = [sum(w[:i + 1]) for i in range(len(w))]
        if k != 1 or rng.random() < .5: kw["k"] = k
        return m, {"population": p, "k": k, "weights": w}, ((p,), kw)
    if m == "sample":
        p = population(rng)
        counts = [rng.choice([0, 1, 2, 3]) for _ in p] if p and rng.random() < .4 else []
        if not sum(counts): counts = []
        n = sum(counts) if counts else len(p)
        k = rng.choice([0, n, rng.randint(0, n), rng.randint(0, n), n + 1, -1] if rng.random() < .5 else [rng.randint(0, n)])
        kw = {"counts": counts} if counts else {}
        return m, {"population": p, "k": k, "counts": counts}, ((p, k), kw) if rng.random() < .5 else ((p,), dict(kw, k=k))
    if m == "shuffle":
        p = population(rng)
        return m, {"x": p}, ((list(p),), {})
    if m == "getrandbits":
        n = rng.choice([0, 1, 2, 8, 20]); return m, {"n": n}, ((n,), {})
    if m == "_randbelow":
        n = rng.choice([1, 2, 3, 100]); return m, {"n": n}, ((n,), {})
    if m == "randbytes":
        n = rng.choice([0, 1, 2, 9]); return m, {"n": n}, ((n,), {})
    if m == "binomialvariate":
        n = rng.choice([1, 2, 5, 100]); return m, {"n": n}, ((n, .5), {})
    if m == "random": return m, {}, ((), {})
    if m == "uniform":
        a, b = intf(rng), intf(rng)
        return m, {"a": a, "b": b}, ((f(a), f(b)), {})
    if m == "triangular":
        a, b = intf(rng), intf(rng)
        if rng.random() < .3: return m, {"low": a, "high": b}, ((f(a), f(b)), {})
        if rng.random() < .1: return m, {"low": 0, "high": 1}, ((), {})
        return m, {"low": a, "high": b}, ((f(a), f(b)), {"mode": rng.choice([a, b, (a + b) / 2])})
    if m == "expovariate":
        v = rng.choice([1, 2, 10, -1, -3]); return m, {"lambd": v}, ((f(v),), {})
    if m in ("gauss", "normalvariate"): return m, {}, ((rng.choice([0.0, 5.0, -3.0]), 2.0), {})
    if m == "vonmisesvariate": return m, {}, ((rng.choice([0.0, 1.0, 6.0]), rng.choice([0.0, 4.0])), {})
    if m == "lognormvariate": return m, {}, ((1.0, 2.0), {})
    if m == "paretovariate": return m, {}, ((rng.choice([1.0, 3.0]),), {})
    return m, {}, ((1.5, 2.5), {})       # betavariate, gammavariate, weibullvariate


METHODS = ["randint", "randrange", "choice", "choices", "sample", "shuffle", "getrandbits", "_randbelow", "randbytes", "random", "uniform", "triangular",
           "expovariate", "gauss", "normalvariate", "vonmisesvariate", "lognormvariate", "paretovariate", "betavariate", "gammavariate", "weibullvariate"]
if hasattr(stdrandom.Random, "binomialvariate"): METHODS.insert(0, "binomialvariate")
REAL = set(METHODS[METHODS.index("random"):])
BIG = 2 ** 30


def clip(n): return max(-BIG, min(BIG, n))


def floorceil(x):
    if x != x: return [-BIG, BIG]
    if math.isinf(x): return [BIG, BIG] if x > 0 else [-BIG, -BIG]
    return [clip(math.floor(x)), clip(math.ceil(x))]


def do_call(o, m, a, how):
    args, kw = how
    e = {"op": "call", "m": m, "a": a, "key": "%s%r" % (m, sorted(a.items())) + ("" if m != "triangular" else repr(how)) + ("" if m != "gauss" and m != "normalvariate" and m != "vonmisesvariate" and m != "paretovariate" else repr(how))}
    if m == "shuffle":
        args = (list(a["x"]),)
    try:
        r = getattr(o, m)(*args, **kw)
    except StopTest: raise
    except Exception as ex:
        return dict(e, out="raise", r=[], res=repr(ex))
    if m == "shuffle":
        if r is not None: return {"op": "error", "msg": "shuffle returned %r" % (r,)}
        r = args[0]
    e["res"] = repr(r)
    if m == "randbytes": r = list(r)
    elif m in ("choices", "sample", "shuffle"): r = list(r)
    elif m in REAL: r = floorceil(r)
    else: r = [r if isinstance(r, int) and abs(r) < BIG else -BIG]
    return dict(e, out="ok", r=r)


@contextlib.contextmanager
def new_objects(seed, n, true):
    data = ConjectureData(random=stdrandom.Random(seed))
    with BuildContext(data, is_final=False): yield draw_objects(data, n, true)


def draw_objects(data, n, true):
    s = st.randoms(use_true_random=true, note_method_calls=False)
    return {chr(97 + i): data.draw(s) for i in range(n)}


def replay(rng, steps, true, seed):
    with new_objects(seed, 2, true) as objs: return _replay(rng, steps, objs)


def _replay(rng, steps, objs):
    names = list(objs)
    ev, keys, token = [], {}, objs["a"].getstate()
    saved = [token]
    ev.append({"op": "save", "o": "a"})
    for a, _ in steps:
        try:
            if a["op"] == "call":
                if a["key"] not in keys:
                    m, ab, how = call(rng, METHODS)
                    keys[a["key"]] = (m, ab, how)
                ev.append(dict(do_call(objs[a["o"]], *keys[a["key"]]), o=a["o"]))
            elif a["op"] == "seed": objs[a["o"]].seed(a["s"]); ev.append(a)
            elif a["op"] == "copy":
                objs[a["p"]] = rng.choice([copy.copy, copy.deepcopy])(objs[a["o"]]); ev.append(a)
            elif a["op"] == "save": saved.append(objs[a["o"]].getstate()); ev.append(a)
            else: objs[a["o"]].setstate(saved[-1]); ev.append(dict(a, i=len(saved)))
        except StopTest: break
        except Exception as ex: ev.append({"op": "error", "msg": repr(ex), "at": a}); break
    return {"id": "tour", "objs": names, "ev": ev}


def random_trace(rng, true, seed, focus):
    with new_objects(seed, 3, true) as objs: return _random_trace(rng, objs, seed, focus)


def _random_trace(rng, objs, seed, focus):
    names = list(objs)
    methods = rng.sample(METHODS, 2) if focus else METHODS
    pool = [call(rng, methods) for _ in range(rng.randint(2, 6))]
    ev, saved = [], []
    for _ in range(rng.randint(10, 45)):
        o = rng.choice(names); k = rng.random()
        try:
            if k < .55: ev.append(dict(do_call(objs[o], *(rng.choice(pool) if rng.random() < .8 else call(rng, methods))), o=o))
            elif k < .72:
                s = rng.choice(["1", "1", "2", "x"]); objs[o].seed(s); ev.append({"op": "seed", "o": o, "s": s})
            elif k < .82:
                p = rng.choice(names); objs[p] = rng.choice([copy.copy, copy.deepcopy])(objs[o]); ev.append({"op": "copy", "o": o, "p": p})
            elif k < .9 or not saved: saved.append(objs[o].getstate()); ev.append({"op": "save", "o": o})
            else:
                i = rng.randrange(len(saved)); objs[o].setstate(saved[i]); ev.append({"op": "restore", "o": o, "i": i + 1})
        except StopTest: break
        except Exception as ex: ev.append({"op": "error", "msg": repr(ex), "o": o}); break
    return {"id": "random%d" % seed, "objs": names, "ev": ev}


def run(c):
    big, rng = vf.THOROUGH, c.rng
    r = c.model("MCRandoms", 'SPECIFICATION Spec\nCONSTANTS Objs = {"a", "b"} Seeds = {"1"%s} Keys = {"k", "l"} MaxCalls = %d\nINVARIANT TypeOk\nCHECK_DEADLOCK FALSE\n'
                % (', "2"' if big else "", 2), workers=4)
    init = {"st": {o: {"root": "fresh " + o, "calls": []} for o in "ab"}, "saved": {"root": "fresh a", "calls": []}}
    g = vf.Graph(r.prints, init)
    traces = []
    for n, steps in enumerate(g.tours(60, rng, limit=12000 if big else 2500)):
        for true in (False, True): traces.append(replay(rng, steps, true, n))
    for n in range(8000 if big else 900):
        traces.append(random_trace(rng, rng.random() < .25, n, rng.random() < .6))
    c.counts["model edges"] = g.n
    for t in traces:
        for e in t["ev"]: c.counts[e.get("m", e["op"])] += 1
    traces = [t for t in traces if t["ev"]]
    c.judge("RandomsTrace", traces, shards=8 if big else 4)
    c.sample({"trace": traces[-1]["ev"][:4]})
    c.assumptions.append("Ranges are those documented for the standard library; degenerate distributions (zero variance, probability 0 or 1) and overflow to infinity are not distinguished.")
