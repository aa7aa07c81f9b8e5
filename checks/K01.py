"""K01: bounded caches (Cache.tla)."""
import vf
from hypothesis.internal.cache import GenericCache, LRUCache, LRUReusedCache


def make(policy, n, tab=None):
    told = []
    if policy == "lru": return LRUCache(n), told
    if policy == "reused":
        class C(LRUReusedCache):
            __slots__ = ()
            def on_evict(self, k, v, s): told.append((k, v, 0))
    else:
        class C(GenericCache):
            __slots__ = ()
            def new_entry(self, k, v): return tab[k][0]
            def on_access(self, k, v, s): return tab[k][1]
            def on_evict(self, k, v, s): told.append((k, v, s))
    return C(n), told


def do(cache, told, op, k, v):
    del told[:]
    res, out = -1, "ok"
    try:
        if op == "set": cache[k] = v
        elif op == "get": res = cache[k]
        elif op == "pin": cache.pin(k, v)
        elif op == "unpin": cache.unpin(k)
        elif op == "has": res = int(k in cache)
        elif op == "ispinned": res = int(cache.is_pinned(k)) if k in cache else -1
        elif op == "clear": cache.clear()
    except (KeyError, ValueError) as e: out = type(e).__name__
    except Exception as e: out = "crash:" + type(e).__name__
    try: size = len(cache)
    except AssertionError: size = -1
    ev = {"op": op, "k": k, "v": v, "out": out, "res": res, "keys": list(cache), "len": size, "ev": "", "evv": -1, "evs": -1}
    if told: ev["ev"], ev["evv"], ev["evs"] = told[0]
    if len(told) > 1: ev["ev"] = "several"
    return ev


def tour(c, policy, keys, mx, limit):
    r = c.model("MCCache", """SPECIFICATION Spec
CONSTANTS Keys = {%s} Max = %d MaxPins = 1 Policy = "%s"
VIEW view
INVARIANT Bounded
PROPERTIES PinnedStay EvictOne NeverUsedFirst
CHECK_DEADLOCK FALSE
""" % (",".join('"%s"' % k for k in keys), mx, policy))
    for p in r.prints:      # an empty function is an empty sequence
        for x in "st": p[x] = p[x] or {}
    g = vf.Graph(r.prints, init={})
    n = 0
    for path in g.tours(maxlen=300, rng=c.rng, limit=limit):
        cache, told = make(policy, mx)
        held = {}
        done = []
        for a, target in path:
            n += 1
            done.append((a["op"], a["k"]))
            e = do(cache, told, a["op"], a["k"], n)
            if a["op"] in ("set", "pin") and a["out"] == "ok": held[a["k"]] = n
            ok = e["out"] == a["out"] and sorted(e["keys"]) == sorted(target) and e["len"] == len(target)
            if a["op"] == "get" and a["out"] == "ok": ok = ok and e["res"] == held[a["k"]]
            if policy != "lru": ok = ok and e["ev"] == a["ev"]
            if ok and policy == "reused": ok = all(cache.is_pinned(k) == (target[k]["p"] > 0) for k in target)
            if not ok:
                c.violation("tour:" + policy, "%r gave %r, the model says %r; history %r" % (a, e, target, done[-15:]), {"path": done, "max": mx})
                break
    c.counts["transitions replayed on " + policy] += n


def run(c):
    big = vf.THOROUGH
    tour(c, "reused", "abcd", 3, None if big else 9000)
    tour(c, "lru", "abcd", 3, None)
    if big: tour(c, "reused", "abc", 2, None)
    rng, traces = c.rng, []
    for i in range(2500 if big else 260):
        policy = rng.choice(["reused", "reused", "lru", "custom"])
        mx = rng.choice([1, 2, 3, 5, 7, 8, 12, 20])
        keys = ["k%d" % j for j in range(mx + rng.randint(1, 6))]
        tab = {k: [rng.randint(0, 6), rng.randint(0, 6)] for k in keys}
        cache, told = make(policy, mx, tab)
        ops = ["set"] * 6 + ["get"] * 4 + ["has"] + (["pin"] * rng.choice([0, 1, 5]) + ["unpin"] * 2 + ["ispinned"] + ["clear"] * (rng.random() < .1) if policy != "lru" else [])
        ev = [do(cache, told, rng.choice(ops), rng.choice(keys), n) for n in range(rng.choice([30, 80]))]
        traces.append({"id": "rand%d-%s" % (i, policy), "policy": policy, "max": mx, "tab": tab, "tells": policy != "lru", "ev": ev})
    c.judge("CacheTrace", traces)
    c.sample({"trace": {**traces[0], "ev": traces[0]["ev"][:5]}})
