"""V03: emptiness of mutually recursive strategies (Emptiness.tla)."""
import vf
from explore import execute, where
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument

KINDS = ["nothing", "nothing", "just", "alt", "alt", "alt", "tup", "tup", "list", "map", "filter", "flatmap", "deferred", "fixed"]


class Leaf:
    def __init__(self, n): self.n = n


def system(rng):
    n = rng.randint(1, 6)
    nodes = []
    kinds = rng.choice([KINDS, KINDS, ["alt", "alt", "tup", "list"], ["alt", "alt", "just", "list", "tup", "tup"]])
    if kinds is not KINDS: n = rng.randint(3, 7)
    for _ in range(n):
        k = rng.choice(kinds)
        r = [rng.randint(1, n) for _ in range(rng.randint(0, 3) if k in ("alt", "tup") else 0 if k in ("nothing", "just") else 1)]
        nodes.append({"k": k, "r": r, "m": rng.randint(0, 1) if k == "list" else 0})
    # a deferred strategy that is directly itself is refused; that's another rule
    for i, x in enumerate(nodes):
        if x["k"] == "deferred" and x["r"] == [i + 1]: x["r"] = [i % n + 1 if i + 1 < n else 1]; x["k"] = "map"
    return nodes


def build(nodes, rng):
    """All members; references are deferred, except that some go straight to members made before."""
    made = {}
    n = len(nodes)
    defs = {i: st.deferred(lambda i=i: made[i]) for i in range(1, n + 1)}
    order = list(range(1, n + 1)); rng.shuffle(order)
    for i in order:
        x = nodes[i - 1]
        ref = [made[j] if j in made and rng.random() < .5 else defs[j] for j in x["r"]]
        k = x["k"]
        if k == "nothing": s = st.nothing()
        elif k == "just": s = st.just(Leaf(i))
        elif k == "alt":
            if len(ref) == 1: ref.append(st.nothing())      # one_of(x) is x
            s = st.one_of(*ref) if rng.random() < .7 or len(ref) < 2 else ref[0] | ref[1] if len(ref) == 2 else ref[0] | ref[1] | ref[2]
        elif k == "tup": s = st.tuples(*ref)
        elif k == "list": s = rng.choice([lambda: st.lists(ref[0], min_size=x["m"], max_size=2 if x["m"] else None), lambda: st.lists(ref[0], min_size=x["m"])])()
        elif k == "map": s = ref[0].map(lambda v: v)
        elif k == "filter": s = ref[0].filter(lambda v: True)
        elif k == "flatmap": s = ref[0].flatmap(lambda v: st.just((v,)))
        elif k == "deferred": s = st.deferred(lambda d=ref[0]: d)
        else: s = st.fixed_dictionaries({"a": ref[0]})
        made[i] = s
    return made


def refused(ex, nodes, made):
    """Using a list that needs elements but can't have any is an error, also by way of lists of such lists."""
    return isinstance(ex, InvalidArgument) and "because it has no values" in str(ex) and any(
        x["k"] == "list" and x["m"] and made[i + 1].is_empty for i, x in enumerate(nodes))


def event(rng, big, draws=True):
    nodes = system(rng)
    n = len(nodes)
    e = {"nodes": nodes, "empty": [], "draws": [], "tops": [], "errors": []}
    runs = 0
    for rep in range(3):
        try:
            made = build(nodes, rng)
            ans = [-1] * n
            if rep == 0: order = [rng.randint(1, n)]          # only one member asked
            else: order = list(range(1, n + 1)) * 2; rng.shuffle(order)
            if rep == 2 and draws:        # drawing first
                i = rng.randint(1, n); o = execute(made[i], (), rng, wide=400); runs += 1
                if o.status == "error" and not refused(o.error, nodes, made): e["errors"] = [where(o.error)]
                e["draws"].append({"n": i, "got": int(o.status == "ok")})
            for i in order:
                v = int(made[i].is_empty)
                if ans[i - 1] not in (-1, v): e["errors"] = ["member %d changed its answer" % i]
                ans[i - 1] = v
            e["empty"].append(ans)
        except Exception as ex: e["errors"] = [where(ex)]; return e, runs
    for i in rng.sample(range(1, n + 1), min(n, 3)) if draws else ():
        got, scripts = set(), [()]
        for depth in range(3):
            nxt = []
            for s in scripts:
                k = 1
                for rep in range(3):
                    o = execute(made[i], s, rng, wide=400); runs += 1
                    if o.status == "error" and not refused(o.error, nodes, made): e["errors"] = [where(o.error)]
                    if o.status == "ok" and isinstance(o.value, Leaf): got.add(o.value.n)
                    e["draws"].append({"n": i, "got": int(o.status == "ok")})
                    if len(o.path) > len(s): k = o.path[len(s)][1]; nxt += [s + (j,) for j in range(k)] if rep == 0 else []
                    else: break
            scripts = nxt[:30]
        e["tops"].append({"n": i, "got": sorted(got)})
    e["draws"] = [{"n": a, "got": b} for a, b in sorted({(d["n"], d["got"]) for d in e["draws"]})]
    return e, runs


def run(c):
    big, rng = vf.THOROUGH, c.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n Kinds = %s\nINVARIANTS Exact Sound\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
    c.model("MCEmptiness", cfg % (2, '{"nothing", "just", "map", "list", "alt", "tup"}'), workers=8)
    if big: c.model("MCEmptiness", cfg.replace("PROPERTY Terminates\n", "") % (3, '{"just", "map", "list", "alt", "tup"}'), workers=8, timeout=3000, heap="12g")
    evs = []
    for _ in range(4000 if big else 500):
        e, n = event(rng, big); evs.append(e); c.counts["executions"] += n
    for _ in range(20000 if big else 4000): evs.append(event(rng, big, False)[0])
    rng.shuffle(evs)
    traces = [{"id": "t%d" % (i // 150), "ev": evs[i:i + 150]} for i in range(0, len(evs), 150)]
    c.judge("EmptinessTrace", traces, shards=8)
    c.sample({"event": evs[0]})
    c.assumptions.append("Systems of at most seven members; flat-maps expand to nonempty strategies and filters are true, as emptiness is defined by the structure alone.")
