"""D01: every example database is a map from keys to sets (ExampleDB.tla)."""
import os, shutil
import vf
from hypothesis.database import (BackgroundWriteDatabase, DirectoryBasedExampleDatabase, InMemoryExampleDatabase,
                                 MultiplexedDatabase, ReadOnlyDatabase)

POOL = [b"", b"a", b"a\0", b"ab", b"/../x", b"\xff" * 40, b"a.secondary", b"a.pareto", bytes(range(256)), b"x" * 70000,
        b"\n", b"key", b"\0", b"b\r\n", b".", b"..", b"examples"]


def leaf(kind):
    if kind == "mem": return InMemoryExampleDatabase()
    if kind == "dir": return DirectoryBasedExampleDatabase(os.path.join(vf.scratch("db"), "sub", "examples"))
    if kind == "bgmem": return BackgroundWriteDatabase(InMemoryExampleDatabase())
    if kind == "bgdir": return BackgroundWriteDatabase(leaf("dir"))
    if kind == "redis":
        from fakeredis import FakeRedis
        from hypothesis.extra.redis import RedisExampleDatabase
        return RedisExampleDatabase(FakeRedis())
    raise AssertionError(kind)


def again(db):
    """A second handle on the same store, as another process would open it."""
    if isinstance(db, DirectoryBasedExampleDatabase): return DirectoryBasedExampleDatabase(str(db.path))
    if type(db).__name__ == "RedisExampleDatabase":
        return type(db)(db.redis)
    return db


def rich(l1, l2):
    return {"leaf1": l1, "leaf2": l2, "ro": ReadOnlyDatabase(l1), "mx": MultiplexedDatabase(l1, l2),
            "mxro": MultiplexedDatabase(l1, ReadOnlyDatabase(l2)), "bg": BackgroundWriteDatabase(l1),
            "bgmx": BackgroundWriteDatabase(MultiplexedDatabase(ReadOnlyDatabase(l1), l2)),
            "mxbg": MultiplexedDatabase(BackgroundWriteDatabase(l1), l2)}


def cleanup(dbs):
    for d in dbs:
        p = getattr(d, "path", None)
        if p is not None: shutil.rmtree(os.path.dirname(os.path.dirname(str(p))), ignore_errors=True)


def apply(handles, a, K, V):
    h = handles[a["h"]]
    if a["op"] == "save": h.save(K[a["k"]], V[a["v"]])
    elif a["op"] == "delete": h.delete(K[a["k"]], V[a["v"]])
    elif a["op"] == "move": h.move(K[a["k"]], K[a["t"]], V[a["v"]])
    elif a["op"] == "fetch": return list(h.fetch(K[a["k"]]))


def replay(c, prints, topo, mk, label, limit=None):
    prints = [{**p, "s": canon(p["s"]), "t": canon(p["t"])} for p in prints]
    g = vf.Graph(prints, init=canon([{"k1": [], "k2": []}] * len(prints[0]["s"])))
    n = 0
    for path in g.tours(maxlen=150, rng=c.rng, limit=limit):
        K = dict(zip(("k1", "k2"), c.rng.sample(POOL, 2)))
        V = dict(zip(("v1", "v2"), c.rng.sample(POOL, 2)))
        inv = {v: k for k, v in V.items()}
        handles, leaves = mk()
        done = []
        for a, target in path:
            done.append(a)
            got = apply(handles, a, K, V)
            n += 1
            if a["op"] == "fetch" and sorted(inv.get(x, "?") for x in got) != sorted(a["res"]):
                c.violation("fetch:" + label, "%s: fetch returned %r, the model says %r after %r" % (label, got, a["res"], done[-6:]),
                            {"label": label, "keys": repr(K), "vals": repr(V), "path": done})
                break
            # writes through a background writer are only promised to be visible to its own fetches
            if a["h"] in ("bg", "bgmx", "mxbg") or label.startswith("bg"):
                for k in K.values(): list(handles[a["h"]].fetch(k))
            bad = None
            for h, (rd, _) in topo.items():
                for kn, k in K.items():
                    got = list(handles[h].fetch(k))
                    want = sorted(set().union(*(target[i - 1][kn] for i in rd)))
                    if sorted(inv.get(x, "?") for x in got) != want: bad = (h, kn, got, want)
            if bad:
                c.violation("state:" + label, "%s: after %r, %s.fetch(%s) = %r but the model holds %r" % (label, done[-6:], *bad),
                            {"label": label, "keys": repr(K), "vals": repr(V), "path": done})
                break
        cleanup(leaves)
    c.counts["transitions replayed on " + label] += n
    c.traces += 1
    if n: c.sample({"replayed": label, "steps": n, "last": done[-3:]})


def canon(s):
    return [{k: sorted(v) for k, v in leaf.items()} for leaf in s]


def random_traces(c, count):
    """Random histories over random nestings, recorded for ExampleDBTrace."""
    traces = []
    rng = c.rng
    for n in range(count):
        nl = rng.randint(1, 3)
        kinds = [rng.choice(["mem", "mem", "dir", "redis"]) for _ in range(nl)]
        leaves = [leaf(k) for k in kinds]
        handles = {"l%d" % i: (l, {i + 1}, {i + 1}, False) for i, l in enumerate(leaves)}
        for i, l in enumerate(leaves):
            handles["a%d" % i] = (again(l), {i + 1}, {i + 1}, False)
        for j in range(rng.randint(1, 4)):
            kind = rng.choice(["ro", "mx", "bg", "mx"])
            pick = rng.choice(sorted(handles))
            d, r, w, bg = handles[pick]
            if kind == "ro": handles["h%d" % j] = (ReadOnlyDatabase(d), r, set(), bg)
            elif kind == "bg": handles["h%d" % j] = (BackgroundWriteDatabase(d), r, w, True)
            else:
                ms = [handles[x] for x in rng.sample(sorted(handles), min(len(handles), rng.randint(1, 3)))]
                if len({i for m in ms for i in m[1]}) != sum(len(m[1]) for m in ms): continue  # overlapping members
                handles["h%d" % j] = (MultiplexedDatabase(*(m[0] for m in ms)), set().union(*(m[1] for m in ms)),
                                      set().union(*(m[2] for m in ms)), any(m[3] for m in ms))
        kb, vb = rng.sample(POOL, 5), rng.sample(POOL, 6)
        kn = {b: "k%d" % i for i, b in enumerate(kb)}
        vn = {b: "v%d" % i for i, b in enumerate(vb)}
        ev, its = [], {}
        for j in range(rng.randint(20, 60)):
            h = rng.choice(sorted(handles))
            d, r, w, bg = handles[h]
            op = rng.choice(["save", "save", "save", "delete", "move", "move", "fetch", "fetch", "begin", "next", "next"])
            k, k2, v = rng.choice(kb), rng.choice(kb), rng.choice(vb)
            if its and rng.random() < .5: h, k = rng.choice([(x["h"], next(b for b in kb if kn[b] == x["k"])) for _, x in its.values()])
            d, r, w, bg = handles[h]
            e = {"op": op, "h": h, "k": kn[k], "k2": kn[k2], "v": vn[v], "res": []}
            if op == "next" and not its: op = e["op"] = "begin"
            try:
                if op == "save": d.save(k, v)
                elif op == "delete": d.delete(k, v)
                elif op == "move": d.move(k, k2, v)
                elif op == "begin": e["v"] = "i%d" % j; its[e["v"]] = (iter(d.fetch(k)), e)
                elif op == "next":
                    name = rng.choice(sorted(its))
                    e = {**its[name][1], "op": "next", "res": []}
                    for x in its[name][0]:
                        e["res"] = [vn.get(x, "junk")]
                        break
                    else: del its[name]
                else: e["res"] = [vn.get(x, "junk") for x in d.fetch(k)]
                ev.append(e)
                if bg and op in ("save", "delete", "move"):
                    ev.append({"op": "fetch", "h": h, "k": kn[k], "k2": "", "v": "", "res": [vn.get(x, "junk") for x in d.fetch(k)]})
            except Exception as ex:
                ev.append({**e, "op": "error", "msg": repr(ex)})
                break
        for h, (d, r, w, bg) in sorted(handles.items()):
            for k in kb:
                ev.append({"op": "fetch", "h": h, "k": kn[k], "k2": "", "v": "", "res": [vn.get(x, "junk") for x in d.fetch(k)]})
        traces.append({"id": "rand%d-%s" % (n, "+".join(kinds)), "leaves": nl, "keys": sorted(kn.values()), "vals": sorted(vn.values()) + ["junk"],
                       "topo": {h: {"r": sorted(r), "w": sorted(w)} for h, (d, r, w, b) in handles.items()}, "ev": ev})
        cleanup(leaves)
    return traces


def run(c):
    cfg = """SPECIFICATION MCSpec
CONSTANTS Keys = {"k1", "k2"} Vals = {"v1", "v2"} Leaves = %s Rich = %s
CONSTANT Topo <- MCTopo
INVARIANT TypeOK
PROPERTIES SaveIsVisible MoveKeepsValue NoLeak ReadOnlyUntouched
CHECK_DEADLOCK FALSE
"""
    small = c.model("MCExampleDB", cfg % ("{1}", "FALSE")).prints
    big = c.model("MCExampleDB", cfg % ("{1, 2}", "TRUE")).prints
    t1 = {"leaf1": ((1,), (1,)), "again": ((1,), (1,))}
    for kind in ["mem", "dir", "redis", "bgmem", "bgdir"]:
        def mk(kind=kind):
            l = leaf(kind)
            return {"leaf1": l, "again": again(l)}, [l]
        replay(c, small, t1, mk, kind)
    t2 = {"leaf1": ((1,), 0), "leaf2": ((2,), 0), "ro": ((1,), 0), "mx": ((1, 2), 0), "mxro": ((1, 2), 0),
          "bg": ((1,), 0), "bgmx": ((1, 2), 0), "mxbg": ((1, 2), 0)}
    full = vf.THOROUGH
    for kinds, lim in [(("mem", "mem"), None if full else 6000), (("dir", "mem"), 8000 if full else 800),
                       (("redis", "dir"), 4000 if full else 300)]:
        def mk(kinds=kinds):
            ls = [leaf(k) for k in kinds]
            return rich(*ls), ls
        replay(c, big, t2, mk, "+".join(kinds), limit=lim)
    traces = random_traces(c, 2000 if full else 120)
    c.judge("ExampleDBTrace", traces)
    c.sample({"trace": {**traces[0], "ev": traces[0]["ev"][:4]}})
    c.assumptions += ["fakeredis stands in for a redis server", "the key .hypothesis-keys is reserved by the directory database"]
