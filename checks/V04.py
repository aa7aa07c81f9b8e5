"""V04: shared strategies, generated functions, swarm flags and recursive strategies (DrawState.tla)."""
import vf
from explore import execute, where
from hypothesis import strategies as st
from hypothesis.control import BuildContext
from hypothesis.errors import InvalidState
from hypothesis.strategies._internal.featureflags import FeatureStrategy

tick = [0]
class Tag:
    """A value that is new each time it's drawn."""
    def __init__(self, n=0): tick[0] += 1; self.id = tick[0]; self.n = n
    def __hash__(self): return 1
    def __eq__(self, o): return self is o

def like(a, b=7, *rest, k=1, **kw): ...
def plain(x): ...
LEAF = 0

def tag(v):
    while not isinstance(v, Tag): v = v[0]
    return v.id


class World:
    """One fixed set of strategies, used in several examples; records what happens."""
    def __init__(self, rng):
        self.rng, self.ev, self.x, self.objects = rng, [], 0, {}
        self.base = [st.builds(Tag), st.builds(Tag, st.integers(0, 2)), st.integers(0, 3).map(Tag), st.lists(st.booleans(), max_size=2).map(lambda v: Tag(len(v))),
                     st.tuples(st.builds(Tag, st.booleans()))]
        base = lambda: rng.choice(self.base)
        # key of each shared strategy: equal keys are one; None is the strategy itself
        pool = [0, False, "", (), 1, True, "k", (1, 2), 1.0, 0.0, None, None, frozenset(), b"", "b", 2]
        self.shared, bases = [], []
        for i in range(rng.randint(2, 5)):
            k = rng.choice(pool)
            b = base()
            if self.shared and rng.random() < .3: b, k = rng.choice(bases), None     # its own, though over the same strategy
            if self.shared and rng.random() < .3: b = st.tuples(st.builds(Tag), rng.choice(self.shared)[1])
            s = st.shared(b, key=k); bases.append(b)
            self.shared.append((k, s))
        for i in range(len(self.shared)):
            if rng.random() < .3: self.shared.append(self.shared[i])
        self.wrap = [rng.randrange(6) for _ in self.shared]
        self.fns = [(f, p, base()) for f, p in ((rng.choice([like, plain]), rng.random() < .75) for _ in range(2))]
        self.fns = [(f, p, st.functions(like=f, returns=r, pure=p)) for f, p, r in self.fns]
        self.groups = [rng.sample("abcd", rng.randint(0, 3)) for _ in range(2)]
        self.flags = [FeatureStrategy(g) for g in self.groups]
        self.limit = rng.randint(1, 6)
        self.leaves = [st.just(LEAF), st.integers(0, 1).map(lambda _: LEAF), st.booleans().map(lambda _: LEAF)]
        ext = rng.choice([lambda s: st.lists(s, max_size=3), lambda s: st.lists(s, min_size=2, max_size=4), lambda s: st.tuples(s, s), lambda s: st.lists(s), lambda s: st.tuples(s, st.lists(s, max_size=2)),
                          lambda s: st.dictionaries(st.integers(0, 3), s, max_size=3), lambda s: st.one_of(st.tuples(s, s, s), st.tuples(s)), lambda s: st.tuples(s, s).filter(lambda v: True)])
        self.rec = st.recursive(rng.choice(self.leaves), ext, max_leaves=self.limit)
        # a leaf of which may be a whole value of the same strategy, marked as such
        self.inner = st.recursive(st.one_of(rng.choice(self.leaves), st.deferred(lambda: self.inner).map(lambda v: {"inner": v})), ext, max_leaves=self.limit)
        self.prog = [rng.choice(["shared"] * 4 + ["mkfn", "mkfn", "mkflags", "rec", "rec", "inner", "nest"] + ["call"] * 6 + ["flag"] * 5) for _ in range(rng.randint(4, 16))]
        self.params = [[rng.random() for _ in range(8)] for _ in self.prog]
        self.alive = []         # functions and flags made so far: kind, index, example, object

    def keyof(self, k, s):
        # canonical number of a key (equal keys are the same key)
        table = self.objects.setdefault("keys", {})
        return table.setdefault(("id", id(s)) if k is None else ("key", k), len(table))

    def argkey(self, f, a, kw):
        table = self.objects.setdefault("args", {})
        import inspect
        b = inspect.signature(f).bind(*a, **kw)
        b.apply_defaults()
        return table.setdefault((f, b.args, frozenset(b.kwargs.items())), len(table))

    def log(self, **e):
        d = {"op": "", "x": 0, "k": 0, "o": 0, "v": 0, "pure": 0, "drawn": 0, "low": 0}; d.update(e); self.ev.append(d)

    def call(self, p, x, live):
        fs = [a for a in self.alive if a[0] == "fn" and (a[2] == x) == (p[1] >= .3)]
        if not fs: return
        _, i, fx, f, o = fs[int(p[0] * len(fs))]
        lk, pure, _ = self.fns[i]
        vals = [1, 2, 1.0, True, "s", (1,)]
        pick = lambda q: vals[int(q * 7919) % len(vals)]
        if lk is plain: a, kw = ((pick(p[2]),), {}) if p[3] < .6 else ((), {"x": pick(p[2])})
        else:
            a, kw = [((pick(p[2]),), {}), ((pick(p[2]), 7), {}), ((), {"a": pick(p[2])}), ((pick(p[2]),), {"b": pick(p[3])}), ((pick(p[2]), pick(p[3])), {"k": pick(p[4])}),
                     ((1, 2, pick(p[2])), {"z": pick(p[4]), "y": 1}), ((1,), {"k": 1})][int(p[5] * 7)]
        n = tick[0]
        try: v = f(*a, **kw)
        except InvalidState: self.log(op="refused", x=fx, o=o); return
        self.log(op="call", x=fx, o=o, k=self.argkey(lk, a, kw), v=tag(v), pure=int(pure), drawn=tick[0] - n)

    def flag(self, p, x):
        fs = [a for a in self.alive if a[0] == "flags" and (a[2] == x) == (p[1] >= .2)]
        if not fs: return
        _, i, fx, f, o = fs[int(p[0] * len(fs))]
        name = "abcde"[int(p[2] * 5)]
        self.log(op="flag", x=fx, o=o, k=name, v=int(f.is_enabled(name)))

    def step(self, data, x, op, p, script, depth):
        if op == "shared":
            i = int(p[0] * len(self.shared)); k, s = self.shared[i]
            w = [s, s, st.tuples(s), s.map(lambda v: (v,)), s.filter(lambda v: True), st.lists(s, min_size=1, max_size=1)][self.wrap[i]]
            n = tick[0]; v = data.draw(w)
            while w is not s and not isinstance(v, Tag) and len(v) == 1: v = v[0]
            if not isinstance(v, Tag): v = v[0]
            self.log(op="shared", x=x, k=self.keyof(k, s), v=v.id, drawn=tick[0] - n)
        elif op == "mkfn":
            i = int(p[0] * 2); self.alive.append(("fn", i, x, data.draw(self.fns[i][2]), len(self.alive)))
        elif op == "mkflags":
            i = int(p[0] * 2); self.alive.append(("flags", i, x, data.draw(self.flags[i]), len(self.alive)))
            self.log(op="flags", o=len(self.alive) - 1, v=self.groups[i])
        elif op == "call": self.call(p, x, True)
        elif op == "flag": self.flag(p, x)
        elif op == "rec":
            v = data.draw(self.rec)
            self.log(op="rec", x=x, k=self.limit, v=leaves(v))
        elif op == "inner":
            v = data.draw(self.inner)
            todo = [v]
            while todo:
                u = todo.pop(); self.log(op="rec", x=x, k=self.limit, v=leaves(u, todo))
        elif op == "nest" and depth < 2: self.example((), depth + 1)

    def example(self, script, depth=0):
        """One example, perhaps within another; choices by script. Returns the path."""
        self.x += 1
        x, start = self.x, len(self.ev)
        self.log(op="begin", x=x)
        def fn(data):
            for op, p in zip(self.prog, self.params): self.step(data, x, op, p, script, depth)
        o = execute(None, script, self.rng, limit=400, wide=400, fn=fn)
        o.data.freeze()
        if o.status == "error": self.log(op="error", x=x, k=where(o.error))
        # what happened, with values numbered by first appearance
        num, sig = {}, []
        nested = depth or any(e["op"] == "begin" for e in self.ev[start + 1:])
        for e in self.ev[start:]:
            if e["x"] != x: continue
            if e["op"] in ("shared", "call"): sig.append((e["op"], e["k"], num.setdefault(e["v"], len(num)), e["drawn"]))
            elif e["op"] in ("flag", "rec"): sig.append((e["op"], e["k"], e["v"]))
        self.log(op="end", x=x, k="%d %s" % (x if nested else 0, o.path), v=repr(sig))
        return o.path


def leaves(v, inner=None):
    if v == LEAF and not isinstance(v, (list, tuple, dict)): return 1
    if isinstance(v, dict) and "inner" in v:
        if inner is not None: inner.append(v["inner"])
        return 1
    return sum(leaves(u, inner) for u in (v.values() if isinstance(v, dict) else v))


def trace(rng, n):
    w = World(rng)
    for _ in range(n):
        path = w.example(())
        for i in range(2): w.call([rng.random() for _ in range(8)], w.x, False); w.flag([rng.random() for _ in range(8)], w.x)
        if "nest" not in w.prog and rng.random() < .7: w.example([k for k, _ in path])
    return w.ev


def run(c):
    big, rng = vf.THOROUGH, c.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS Examples = {1, 2}\n Keys = {1, 2}\n Funs = {%s}\n Args = {1}\n Names = {1, 2}\n Group = {1, 2}\n MaxLeaves = 1\n MaxTick = 3\n MaxNest = 2\n" \
          "INVARIANTS OneValuePerKey NothingCarriesOver DrawnOnce SomeEnabled WithinLimit\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n"
    c.model("MCDrawState", cfg % ("1, 2" if big else "1"), workers=8)
    traces = []
    for i in range(8000 if big else 350):
        ev = trace(rng, rng.randint(2, 4))
        traces.append({"id": "t%d" % i, "ev": ev}); c.counts["events"] += len(ev)
        for e in ev: c.counts[e["op"]] += 1
    c.judge("DrawStateTrace", traces, shards=8)
    c.sample({"trace": traces[0]["ev"][:12]})
    c.assumptions.append("Keys and arguments are told apart by equality; leaving out an argument is the same as giving its default.")
