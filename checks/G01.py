"""G01: settings resolve by explicit value, then parent, then the default in force (Settings.tla)."""
import contextlib, datetime, io, queue, threading
import vf
from hypothesis import HealthCheck, Phase, Verbosity, given, settings, strategies as st
from hypothesis._settings import local_settings
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.errors import InvalidArgument

DBS = [InMemoryExampleDatabase() for _ in range(2)]
P, H = list(Phase), HealthCheck
class Weird:
    """Equal to everything."""
    def __eq__(self, o): return True
    __hash__ = None
# legal values, and what they are seen as; illegal ones
GOOD = {"max_examples": [1, 10, 77, 10 ** 9], "derandomize": [True, False], "database": [None] + DBS, "verbosity": list(Verbosity), "phases": [[], P[:2], tuple(P), {P[2], P[0]}, P[::-1], [P[1], P[1]], iter],
        "stateful_step_count": [1, 5, 50], "report_multiple_bugs": [True, False], "suppress_health_check": [(), [H.too_slow], (H.filter_too_much, H.too_slow), frozenset([H.nested_given])],
        "deadline": [None, 5, 0.5, 200, datetime.timedelta(seconds=2), datetime.timedelta(milliseconds=200)], "print_blob": [True, False], "backend": ["hypothesis", "hypothesis-urandom"]}
BAD = {"max_examples": [0, -1, 1.5, "10", None], "derandomize": ["yes", None, 2], "database": ["path", 1, object(), type(DBS[0])], "verbosity": ["verbose", None, object()], "phases": [["shrink"], [P[0], 1], [None]],
       "stateful_step_count": [0, -3, "5", 2.0, None], "report_multiple_bugs": ["no", None, 5], "suppress_health_check": [["too_slow"], [1], [H.too_slow, None], 5], "deadline": [0, -1, True, "5", datetime.timedelta(0), float("inf"), 1e-9, 10 ** 30, float("nan")],
       "print_blob": ["x", None], "backend": ["nope", None, 3]}
KEYS = sorted(GOOD)

def token(k, v):
    """How a value of setting k is told from others."""
    if k == "phases": return ",".join(p.name for p in v)
    if k == "suppress_health_check": return ",".join(h.name for h in v)
    if k == "deadline": return "None" if v is None else str(v.total_seconds() if isinstance(v, datetime.timedelta) else v / 1000)
    if k == "database": return "None" if v is None else "db%d" % DBS.index(v) if any(v is d for d in DBS) else "home"
    if k == "verbosity": return v.name
    return str(v)
def expected(k, v):
    """The normal form of an explicit value."""
    if k == "phases": return ",".join(p.name for p in P if p in list(v))
    return token(k, v)

class Thread:
    """Runs what it's told on a thread of its own."""
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while (f := self.q.get()) is not None:
            try: self.r.put((True, f()))
            except BaseException as e: self.r.put((False, e))
    def __call__(self, f):
        self.q.put(f)
        ok, v = self.r.get()
        if not ok: raise v
        return v

class Error(Exception): pass

def history(rng, n):
    """One random history; the profiles and the default are put back afterwards."""
    before = (dict(settings._profiles), settings._current_profile, settings.default)
    settings.load_profile("default")
    objs, ev, contexts, tests = [settings.default], [], {1: [], 2: [], 3: []}, []
    threads = {1: lambda f: f(), 2: Thread(), 3: Thread()}
    names = ["default", "ci", "p1", "p2", "p3", "no such"]
    for m in ("ci",): objs.append(settings.get_profile(m))
    def num(s):
        for i, o in enumerate(objs):
            if o is s: return i + 1
        objs.append(s)
        return len(objs)
    def see(h):
        now = threads[h](lambda: num(settings.default))
        profs = []
        for m in names:
            try: profs.append([m, num(settings.get_profile(m))])
            except InvalidArgument: profs.append([m, 0])
        return {"now": now, "profs": profs, "vals": [[token(k, getattr(o, k)) for k in KEYS] for o in objs]}
    s0 = see(1)
    s0["profs"] = [p for p in s0["profs"] if p[1]]
    ev.append(dict(s0, op="start", h=1, name="default", parent=0, args=[], wrong=0, res="ok", new=0))
    for _ in range(n):
        h = rng.choice([1, 1, 1, 2, 3])
        op = rng.choice(["make", "make", "make", "register", "register", "load", "load", "get", "enter", "enter", "leave", "leave", "set", "setclass", "define", "run", "run"])
        e = {"op": op, "h": h, "name": "", "parent": 0, "args": [], "wrong": 0, "res": "ok", "new": 0}
        def values():
            kw = {}
            for k in rng.sample(KEYS, rng.choice([0, 1, 1, 2, 2, 4])):
                if rng.random() < .08: kw[k] = rng.choice(BAD[k]); e["wrong"] = 1; e["args"].append([k, "?"])
                else:
                    v = rng.choice(GOOD[k])
                    if v is iter:
                        kw[k] = iter(P[1:3]); e["args"].append([k, expected(k, P[1:3])])
                    else: kw[k] = v; e["args"].append([k, expected(k, v)])
            return kw
        def parent():
            if rng.random() < .5: return None
            if rng.random() < .05: e["wrong"] = 1; return rng.choice([5, "default", settings, Weird()])
            i = rng.randrange(len(objs)); e["parent"] = i + 1
            return objs[i]
        go = None
        if op == "make":
            p, kw = parent(), values()
            def go(): e["new"] = num(settings(p, **kw))
        elif op == "register":
            e["name"] = rng.choice(names[:-1]); p, kw = parent(), values()
            if rng.random() < .2: kw.clear(); e["args"] = []; e["wrong"] = int(not (p is None or isinstance(p, settings)))
            def go():
                if p is None: settings.register_profile(e["name"], **kw)
                else: settings.register_profile(e["name"], p, **kw)
                num(settings.get_profile(e["name"]))
        elif op == "load":
            e["name"] = rng.choice(names)
            def go(): settings.load_profile(e["name"])
        elif op == "get":
            e["name"] = rng.choice(names)
            def go(): e["new"] = num(settings.get_profile(e["name"]))
        elif op == "enter":
            if len(contexts[h]) == 3: continue
            i = rng.randrange(len(objs)); e["parent"] = i + 1
            def go():
                m = local_settings(objs[i]); m.__enter__(); contexts[h].append(m)
        elif op == "leave":
            if not contexts[h]: continue
            exc = rng.random() < .4
            def go():
                m = contexts[h].pop()
                if not exc: m.__exit__(None, None, None)
                else:
                    try: raise Error()
                    except Error as x:
                        try: m.__exit__(Error, x, x.__traceback__)
                        except Error: pass
        elif op == "set":
            o, k = rng.choice(objs), rng.choice(KEYS)
            def go(): setattr(o, k, rng.choice([v for v in GOOD[k] if v is not iter]))
        elif op == "setclass":
            k = rng.choice(KEYS + ["default", "other"])
            def go(): setattr(settings, k, objs[0])
        elif op == "define":
            i = rng.choice([None, rng.randrange(len(objs))])
            e["parent"] = 0 if i is None else i + 1
            how = rng.random() < .5
            def go():
                inside = []
                def body(x):
                    inside.append(num(settings.default))
                    if fails: raise Error()
                fails = rng.random() < .4
                if i is not None and how: f = given(st.just(0))(objs[i](body))
                elif i is not None: f = objs[i](given(st.just(0))(body))
                else: f = given(st.just(0))(body)
                e["new"] = num(f._hypothesis_internal_use_settings)
                tests.append((e["new"], f, inside))
        elif op == "run":
            ready = [x for x in tests if Phase.generate in objs[x[0] - 1].phases]
            if not ready: continue
            i, f, inside = rng.choice(ready)
            e["parent"] = i
            def go():
                with contextlib.redirect_stdout(io.StringIO()):
                    try: f()
                    except Error: pass
                e["new"] = inside[-1] if len(set(inside)) == 1 else 0
        try: threads[h](go)
        except Exception as x:
            e["res"] = "rejected"
            if not isinstance(x, (InvalidArgument, AttributeError, TypeError, ValueError)): raise
            if not (e["wrong"] or op in ("set", "setclass")) and not isinstance(x, InvalidArgument): raise
        e.update(see(h))
        ev.append(e)
    for h in (1, 2, 3):
        for m in reversed(contexts[h]): threads[h](lambda: m.__exit__(None, None, None))
    for h in (2, 3): threads[h].q.put(None)
    settings._profiles.clear(); settings._profiles.update(before[0]); settings.load_profile("default")
    return ev


def run(c):
    import os, warnings
    warnings.simplefilter("ignore")
    from hypothesis.configuration import set_hypothesis_home_dir
    set_hypothesis_home_dir(vf.scratch("home"))
    r = c.model("MCSettings", "SPECIFICATION Spec\nCONSTANTS MaxObjects = %d\n MaxDepth = %d\nINVARIANTS Resolution LoadedExists\nPROPERTIES Immutable AtOnce Restores\nCHECK_DEADLOCK FALSE\n" % ((3, 2) if vf.THOROUGH else (2, 2)), workers=6)
    traces = [{"id": "%d" % i, "keys": KEYS, "ev": history(c.rng, 25)} for i in range(6000 if vf.THOROUGH else 400)]
    for t in traces:
        for e in t["ev"]: c.counts[e["op"]] = c.counts.get(e["op"], 0) + 1
    c.sample({"history": [{k: v for k, v in e.items() if k != "vals"} for e in traces[0]["ev"][:8]]})
    c.judge("SettingsTrace", traces, shards=6)
    c.assumptions.append("The default of a thread is the one it loaded or first looked up; the database of the library's own default settings (a place on disk that may change) is one value.")
