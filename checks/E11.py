"""E11: scores and what is saved for them (Pareto.tla, ParetoTrace.tla, RunTrace.tla, and EngineTrace.tla for runs with scores)."""
import itertools, random
import engine, enginecheck, usercheck, vf
from hypothesis import strategies as st, target
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.pareto import DominanceRelation, ParetoFront, dominance
from hypothesis.internal.escalation import InterestingOrigin
from hypothesis.errors import StopTest

REL = {DominanceRelation.NO_DOMINANCE: "none", DominanceRelation.EQUAL: "same", DominanceRelation.LEFT_DOMINATES: "left", DominanceRelation.RIGHT_DOMINATES: "right"}
MISSING = -1000000

def origin(n):
    try: int("not a number %d" % n)
    except ValueError as e: return InterestingOrigin.from_exception(e)._replace(filename="file", lineno=n)

def element(choices, kind, scores, tags):
    """An example with these choices, as the engine would have it."""
    d = ConjectureData.for_choices(choices)
    try:
        for i, c in enumerate(choices):
            d.start_span(100 + i % 2)
            d.draw_integer(0, 10 ** 6)
            d.stop_span()
        for g in tags: d.start_span(200 + g); d.stop_span()
        for n, s in enumerate(scores):
            if s is not None: d.target_observations["label %d" % n] = s
        if kind == "invalid": d.mark_invalid()
        if kind != "valid": d.mark_interesting(ORIGINS[kind])
    except StopTest: pass
    d.freeze()
    return d
ORIGINS = {1: origin(1), 2: origin(2), 3: origin(3)}
ST = {"valid": 2, "invalid": 1, 1: 3, 2: 3, 3: 3}

def universe(rng, n):
    """Descriptions of n examples, some of them equal."""
    size, labels = rng.choice([2, 3, 5, 40]), rng.choice([1, 1, 2, 2, 3])
    top = rng.choice([1, 2, 3, 50])
    kinds = rng.choice([["valid"], ["valid"], ["valid", "valid", "valid", 1], ["valid", 1, 2, 3, "invalid"], [1, 2], ["valid", "invalid"]])
    tags = rng.choice([[()], [()], [(), (1,)], [(), (1,), (2,), (1, 2)]])
    style = rng.choice(["any", "any", "tradeoff", "chain", "missing"])
    out = {}
    for i in range(n):
        ch = tuple(rng.randrange(size) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        sc = [rng.randint(-top, top) for _ in range(labels)]
        if style == "tradeoff": sc[0] = sum(x + 1 for x in ch) * 3 // 2; sc[-1] = -sum(ch) if labels > 1 else sc[0]
        if style == "chain": sc = [-sum(ch) // 2] * labels
        if style == "missing": sc = [x if rng.random() < .6 else None for x in sc]
        if rng.random() < .1: sc = [float("inf") if x == top else x for x in sc]
        out.setdefault(ch, (ch, rng.choice(kinds), tuple(sc), rng.choice(tags)))
    return list(out.values())

def describe(us):
    """The elements for the specification: scores as ranks."""
    vals = sorted({s for u in us for s in u[2] if s is not None})
    rank = {v: i for i, v in enumerate(vals)}
    keys = {k: i + 1 for i, k in enumerate(sorted({(len(u[0]), u[0]) for u in us}))}
    # what an example went through: the labels of its parts (one for odd places, one for even ones, and its tags)
    tags = lambda u: sorted({100 + i % 2 for i in range(len(u[0]))} | {200 + g for g in u[3]})
    return [{"key": keys[(len(u[0]), u[0])], "st": ST[u[1]], "org": u[1] if ST[u[1]] == 3 else 0, "tags": tags(u), "sc": [rank[s] if s is not None else MISSING for s in u[2]]} for u in us]

def key(u): return tuple(int(x) for x in u.choices)

def kept(i):
    """Examples added in some order to what is kept."""
    rng = random.Random("E11/%d/%d" % (vf.SEED, i))
    us = universe(rng, rng.choice([2, 3, 4, 6, 8, 10, 10, 12, 20, 40, 80]))
    data = [element(*u) for u in us]
    number = {u[0]: n + 1 for n, u in enumerate(us)}
    ev = []
    res = [d.as_result() for d in data]
    pairs = list(itertools.product(range(len(us)), repeat=2))
    for a, b in rng.sample(pairs, min(len(pairs), 40)):
        try: r = REL[dominance(res[a], res[b])]
        except AssertionError: r = "assertion failed"
        ev.append({"op": "dom", "x": a + 1, "y": b + 1, "rel": r})
    for _ in range(3):
        front, gone = ParetoFront(random.Random(rng.randrange(10 ** 9))), []
        front.on_evict(lambda d: gone.append(number[key(d)]))
        ev.append({"op": "start"})
        order = [rng.randrange(len(us)) for _ in range(rng.choice([len(us), 2 * len(us)]))] if rng.random() < .5 else rng.sample(range(len(us)), len(us))
        if rng.random() < .3: order.sort(key=lambda j: (len(us[j][0]), us[j][0]), reverse=rng.random() < .5)
        for j in order:
            gone.clear()
            try: ret = front.add(data[j] if rng.random() < .5 else res[j])
            except AssertionError:
                ev.append({"op": "add", "x": j + 1, "ret": True, "gone": [], "front": []}); break
            # (the same example can be found in it, whichever object it is)
            if ret != (data[j] in front): ret = not ret
            ev.append({"op": "add", "x": j + 1, "ret": bool(ret), "gone": list(gone), "front": [number[key(d)] for d in front]})
    return {"id": "kept-%d" % i, "el": describe(us), "ev": ev}

def scored(prog, rng):
    """A hook that gives finished examples scores, by what they are."""
    labels, top, salt, some = rng.choice([1, 1, 2, 3]), rng.choice([1, 3, 20]), rng.randrange(10 ** 9), rng.random() < .4
    style = rng.choice(["any", "sum", "tradeoff", "length"])
    got, seen = {}, {}
    def hook(data, p, out):
        if p not in got:
            r = random.Random("%d/%s" % (salt, p))
            sc = [r.randint(0, top) for _ in range(labels)]
            if style == "sum": sc[0] = sum(p)
            if style == "tradeoff": sc[0] = sum(p); sc[-1] = sc[-1] if labels == 1 else -sum(p) // 2
            if style == "length": sc[0] = -len(p)
            got[p] = [None if some and r.random() < .4 else s for s in sc]
        seen[p] = (data.conjecture_data, out)
        for n, s in enumerate(got[p]):
            if s is not None: target(float(s), label="label %d" % n)
    return hook, got, seen

def runs(rng, rec, traces):
    db = engine.DB(rec)
    for _ in range(100):
        prog = enginecheck.weighted(p=6, r=1, f=0)(rng) if rng.random() < .5 else rng.choice([enginecheck.weighted(p=20, r=2, f=1), engine.listy, engine.pair, enginecheck.weighted(p=6, f=1)])(rng)
        if prog.k < 31000: break
    hook, got, seen = scored(prog, rng)
    for r in range(rng.randint(1, 3)):
        at = len(rec.ev)
        engine.run(prog, rec, db, {"max": rng.choice([5, 20, 50, 100]), "multi": rng.random() < .8, "phases": rng.choice([enginecheck.FULL] * 4 + [["reuse", "generate", "target"], ["generate", "shrink"], ["reuse", "shrink"]])}, rng.randrange(10 ** 6), hook=hook)
        evs = rec.ev[at:]
        old = list(evs[0]["q"])
        saved, calls = set(old), []
        for e in evs:
            if e["op"] == "call": calls.append([e["ex"], e["out"], None])
            elif e["op"] == "save" and e["key"] == "q": saved.add(e["ex"])
            elif e["op"] == "delete" and e["key"] == "q": saved.discard(e["ex"])
            if calls: calls[-1][2] = sorted(saved)
        traces.append((calls, old, got, seen))

def run(c):
    for cfg in ("N = 4 L = 4 Scores = {0, 1} Fails = 0 Tags = {{}}", "N = 4 L = 2 Scores = {0, 1} Fails = 0 Tags = {{}}", "N = 3 L = 3 Scores = {0, 1} Fails = 1 Tags = {{}, {1}}") + \
               (("N = 5 L = 3 Scores = {0, 1} Fails = 0 Tags = {{}}", "N = 4 L = 3 Scores = {0, 1} Fails = 1 Tags = {{}}", "N = 3 L = 3 Scores = {0, 1, 2} Fails = 2 Tags = {{}}") if vf.THOROUGH else ()):
        c.model("MCPareto", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NothingLost OnlySeen Exact Order\nCONSTANTS %s\n" % cfg, workers=6, timeout=3000)
    traces = vf.pmap(kept, range(4000 if vf.THOROUGH else 500), workers=8)
    def job(rng, rec):
        out = []
        runs(rng, rec, out)
        rec.made = out
    def one(i):
        rng = random.Random("E11/engine/%d/%d" % (vf.SEED, i))
        rec, made = engine.Recorder(), []
        runs(rng, rec, made)
        out = []
        for n, (calls, old, got, seen) in enumerate(made):
            table = {j + 1: tuple(x) for j, x in enumerate(rec.table)}
            known = [x for x in table if table[x] in got and any(s is not None for s in got[table[x]])]
            order = {x: j + 1 for j, x in enumerate(sorted(known, key=lambda x: (len(table[x]), table[x])))}
            tags = {}
            el = []
            for x in range(1, len(table) + 1):
                if x not in order: el.append({"key": 0, "st": 1, "org": 0, "tags": [], "sc": [0]}); continue
                d, o = seen[table[x]]
                st_ = 2 if o == "p" else 3 if o[0] == "f" else 1
                sc = got[table[x]]
                el.append({"key": order[x], "st": st_, "org": int(o[1:]) if st_ == 3 else 0, "tags": [tags.setdefault(g, len(tags) + 1) for g in d.tags], "sc": [s if s is not None else MISSING for s in sc]})
            out.append({"id": "engine-%d.%d" % (i, n), "el": el, "ev": [{"op": "call", "x": x if x in order and o != "over" else 0, "saved": s, "old": old} for x, o, s in calls]})
        rec.finish()
        return out, {"id": "scores-%d" % i, "ex": rec.table or [[0]], "ev": rec.ev}
    done = vf.pmap(one, range(1500 if vf.THOROUGH else 200), workers=8)
    saved = [t for out, _ in done for t in out if t["ev"]]
    whole = [t for _, t in done]
    c.counts.update({"examples added": sum(e["op"] == "add" for t in traces for e in t["ev"]), "pairs compared": sum(e["op"] == "dom" for t in traces for e in t["ev"]),
                     "evicted": sum(len(e.get("gone", ())) for t in traces for e in t["ev"]), "most kept": max(len(e.get("front", ())) for t in traces for e in t["ev"]),
                     "runs with scores": len(saved), "examples executed": sum(len(t["ev"]) for t in saved), "most saved": max(len(e["saved"]) for t in saved for e in t["ev"])})
    c.sample({"elements": traces[0]["el"][:4], "events": [e for e in traces[0]["ev"] if e["op"] == "add"][:4]})
    c.judge("ParetoTrace", traces, shards=6)
    c.judge("ParetoTrace", saved, shards=6)
    c.judge("EngineTrace", whole, only=("E01", "E02", "E03", "E04", "E05", "E06:M", "E06:C", "E07", "E08", "E10"), shards=8)
    usercheck.check(c, "E11", 100, lambda rng: dict(target=1, fail=rng.choice([0, .2]), db=.4, phases=.4, explicit=.2, nested=.1, actions=1))
