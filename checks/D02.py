"""D02: listeners hear exactly the changes that happened (Listeners.tla)."""
import os, time
import vf
from hypothesis.database import (BackgroundWriteDatabase, DirectoryBasedExampleDatabase, InMemoryExampleDatabase,
                                 MultiplexedDatabase, ReadOnlyDatabase)

KEYS = {"k1": b"key.one", "k2": b"", "k3": b"\0k3"}
VALS = {"v": b"v", "v1": b"", "v2": b"x" * 300}
KN, VN = {v: k for k, v in KEYS.items()}, {v: k for k, v in VALS.items()}


class World:
    def __init__(self, topo):
        self.topo, self.h, self.heard, self.fn = topo, {}, [], {}
        server = None
        for n, d in topo.items():
            kids = [self.h[k] for k in d["kids"]]
            if d["kind"] == "leaf":
                if d.get("impl") == "redis":
                    from fakeredis import FakeRedis, FakeServer
                    from hypothesis.extra.redis import RedisExampleDatabase
                    server = server or FakeServer()
                    self.h[n] = RedisExampleDatabase(FakeRedis(server=server))
                else:
                    self.h[n] = InMemoryExampleDatabase()
            elif d["kind"] == "ro": self.h[n] = ReadOnlyDatabase(*kids)
            elif d["kind"] == "bg": self.h[n] = BackgroundWriteDatabase(*kids)
            else: self.h[n] = MultiplexedDatabase(*kids)

    def listener(self, h, f):
        if (h, f) not in self.fn:
            def fn(ev, h=h, f=f):
                kind, (k, v) = ev
                self.heard.append([h, f, kind, KN.get(k, "?"), VN.get(v, "?") if v is not None else "none"])
                if f.startswith("once"): self.h[h].remove_listener(self.fn[h, f])
            self.fn[h, f] = fn
        return self.fn[h, f]

    def do(self, a):
        self.heard = []
        h = self.h[a["h"]]
        op = a["op"]
        if op == "add": h.add_listener(self.listener(a["h"], a.get("f", "f")))
        elif op == "remove": h.remove_listener(self.listener(a["h"], a.get("f", "f")))
        elif op == "clear": h.clear_listeners()
        elif op == "save": h.save(KEYS[a["k"]], VALS[a["v"]])
        elif op == "delete": h.delete(KEYS[a["k"]], VALS[a["v"]])
        elif op == "move": h.move(KEYS[a["k"]], KEYS[a["k2"]], VALS[a["v"]])
        elif op == "fetch": list(h.fetch(KEYS[a["k"]]))
        for n in reversed(list(self.h)):
            if self.topo[n]["kind"] == "bg": self.h[n]._join()   # all queued writes are done (fetch would do)
        for n, d in self.h.items():
            p = getattr(d, "_pubsub", None)
            while p is not None and d._pubsub is p and p.connection.can_read(timeout=0): p.get_message()
        return self.heard


def random_trace(rng, n):
    redis = rng.random() < 0.25
    topo = {}
    if redis:
        ls = ["l%d" % i for i in range(rng.randint(1, 2))]
        for x in ls: topo[x] = {"kind": "leaf", "impl": "redis", "store": "s0", "kids": [], "peers": ls}
    else:
        for i in range(rng.randint(1, 3)):
            topo["l%d" % i] = {"kind": "leaf", "store": "s%d" % i, "kids": [], "peers": ["l%d" % i]}
    for j in range(rng.randint(0, 4)):
        kind = rng.choice(["ro", "bg", "mx", "mx"])
        # no handle reached twice: a listener registered through two paths hears every change twice
        def leaves(x): return {x} | set().union(*[leaves(y) for y in topo[x]["kids"]], set())
        kids = []
        for x in rng.sample(sorted(topo), rng.randint(1, min(3, len(topo))) if kind == "mx" else 1):
            if not any(leaves(x) & leaves(y) for y in kids): kids.append(x)
        if redis: kids = kids[:1]
        topo["h%d" % j] = {"kind": kind, "store": "", "kids": kids, "peers": []}
    w = World(topo)
    ev = []
    for _ in range(rng.randint(15, 50)):
        e = {"op": rng.choice(["add", "add", "remove", "clear", "save", "save", "save", "delete", "delete", "move", "move", "fetch"]),
             "h": rng.choice(sorted(topo)), "f": rng.choice(["f", "g", "once"]), "k": rng.choice(["k1", "k2", "k3"]),
             "k2": rng.choice(["k1", "k2", "k3"]), "v": rng.choice(["v", "v1", "v2"])}
        if e["op"] == "clear":
            # clearing the listeners of a database somebody composed would cut the composite off: not a case of this property
            if any(e["h"] in d["kids"] for d in topo.values()): continue
        if redis and e["f"] == "once": e["f"] = "g"
        try: ev.append({**e, "heard": w.do(e)})
        except Exception as ex:
            ev.append({**e, "op": "error", "was": e["op"], "heard": [], "msg": repr(ex)})
            break
    return {"id": "rand%d" % n, "topo": topo, "stores": sorted({d["store"] for d in topo.values() if d["kind"] == "leaf"}),
            "keys": sorted(KEYS), "once": ["once"], "ev": ev}


def run(c):
    r = c.model("MCListeners", "SPECIFICATION Spec\nINVARIANTS Attached Bounded\nCHECK_DEADLOCK FALSE\n")
    prints = r.prints
    for p in prints:
        for x in ("s", "t"): p[x]["db"] = {k: {q: sorted(z) for q, z in v.items()} for k, v in p[x]["db"].items()}
    topo = {"m1": {"kind": "leaf", "kids": []}, "m2": {"kind": "leaf", "kids": []}, "mx": {"kind": "mx", "kids": ["m1", "m2"]},
            "bg": {"kind": "bg", "kids": ["mx"]}, "ro": {"kind": "ro", "kids": ["m1"]}}
    g = vf.Graph(prints, init={"db": {m: {"k1": [], "k2": []} for m in ("m1", "m2")}, "reg": {h: [] for h in topo}})
    def proj(heard):
        d = {}
        for x in heard: d.setdefault((x[0], x[1]), []).append(list(x[2:]))
        return d
    n = 0
    for path in g.tours(maxlen=200, rng=c.rng, limit=None if vf.THOROUGH else 6000):
        w = World(topo)
        done = []
        for a, target in path:
            done.append(a)
            got = w.do(a)
            n += 1
            if proj(got) != proj(a["heard"]):
                c.violation("heard:tour", "%r caused %r, the model says %r; before: %r" % (a, got, a["heard"], done[-8:]), {"path": done})
                break
    c.counts["transitions replayed"] = n
    traces = [random_trace(c.rng, i) for i in range(3000 if vf.THOROUGH else 250)]
    c.judge("ListenersTrace", traces)
    c.sample({"trace": traces[0]["ev"][:6]})
    c.assumptions += ["the order between different listeners of the same change is not judged",
                      "the directory database's asynchronous file watching is outside this model"]
