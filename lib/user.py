"""Whole tests run the way a user runs them (@given, @example, executors, clean-ups, random generators, observers), and
everything that could be seen from outside, as one trace for RunTrace.tla.

A *program* says what one test does: what its two arguments are drawn from, what the body does for which arguments, what
the runner around it does, which explicit examples there are and what the settings are.  Nested programs are run from
the body of others.  The log is a list of events; every event carries the states of all known generators (numbered)."""
import base64, contextlib, io, random, re, sys, unittest, warnings, zlib
import vf, explore
from hypothesis import HealthCheck, Phase, Verbosity, assume, event, example, given, note, register_random, reject, reproduce_failure, seed, settings, strategies as st, target
from hypothesis.control import cleanup, currently_in_test_context
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.errors import FailedHealthCheck, InvalidArgument, StopTest, UnsatisfiedAssumption, HypothesisException
from hypothesis.internal import observability
from hypothesis.reporting import with_reporter
from hypothesis.statistics import collector
from hypothesis.version import __version__
try: import numpy.random as nprandom
except ImportError: nprandom = None

class F1(Exception): pass
class F2(Exception): pass
class F3(AssertionError): pass
FAILS = {"f1": F1, "f2": F2, "f3": F3, "exit": SystemExit}
FATAL = {"int": KeyboardInterrupt, "skip": unittest.SkipTest}

class Like:
    """A generator of another kind: a number which every use changes."""
    def __init__(self, n): self.n = n
    def seed(self, s): self.n = hash(s) * 7919 + 13
    def getstate(self): return self.n
    def setstate(self, n): self.n = n
    def random(self): self.n = (self.n * 6364136223846793005 + 1442695040888963407) % 2 ** 64; return self.n / 2 ** 64
class Same(Like):
    """... which says it is equal to all others of its kind."""
    def __eq__(self, o): return isinstance(o, Same)
    __hash__ = Like.__hash__
class Numpy:
    def random(self): return nprandom.random()
    def getstate(self): s = nprandom.get_state(); return (s[0], s[1].tobytes(), *s[2:])

class TooLong(BaseException): pass

class World:
    """The generators, the log and the numbering of what appears in it."""
    def __init__(self, rng, gens):
        self.rng, self.log, self.ids, self.serial, self.excs, self.stop = rng, [], {}, 0, [], False
        self.gens = [random] + ([Numpy()] if nprandom else [])
        self.kinds = gens
        self.live = [True] * len(self.gens)
        self.registered = [True] * len(self.gens)
        random.seed(rng.randrange(10 ** 9))
        if nprandom: nprandom.seed(rng.randrange(10 ** 9))
        for kind in gens: self.add(kind)
        self.start = self.states()
    def add(self, kind):
        self.gens.append({"random": random.Random, "like": Like, "same": Same}[kind](self.rng.randrange(10 ** 6)))
        self.live.append(True); self.registered.append(False)
    def id(self, *k):
        return self.ids.setdefault(k, len(self.ids) + 1)
    def states(self):
        return [self.id("state", hash(g.getstate()) if not isinstance(g, Like) else g.n) if g is not None else 0 for g in self.gens]
    def new(self):
        self.serial += 1
        return self.serial
    def add_event(self, k, **kw):
        if len(self.log) > 3500: raise TooLong
        self.log.append({"k": k, "g": self.states(), **kw})
    def exc(self, e):
        """The serial number of an exception the program raised."""
        for n, x in self.excs:
            if x is e: return n
        return 0
    def raising(self, e, site):
        """Number an exception that's about to be raised there; its origin is its type, the place and what it came up in."""
        n = self.new()
        self.excs.append((n, e))
        e.serial = n
        c = sys.exception()
        if c is e: c = c.__context__
        e.org = self.id("origin", type(e).__name__, site, getattr(c, "org", type(c).__name__))
        return {"x": n, "org": e.org}

BASES = {"small": lambda: st.integers(0, 3), "bool": lambda: st.booleans().map(int), "big": lambda: st.integers(0, 40), "list": lambda: st.lists(st.integers(0, 3), max_size=4).map(lambda l: sum(x * 4 ** i for i, x in enumerate(l)) + len(l) * 1000),
         "odd": lambda: st.integers(0, 9).filter(lambda x: x % 2)}

def program(rng, **w):
    """A random program.  w: weights of features (0..1)."""
    p = lambda name, default=.3: rng.random() < w.get(name, default)
    P = {"a": rng.choice(["small", "small", "big", "big", "list", "odd", "bool"]), "b": rng.choice(["bool", "small"]), "rules": [], "runner": "none", "explicit": [], "name": rng.choice(["test_x", "test_y"])}
    def action():
        kinds = [k for k, n in (("clean", 3 * w.get("clean", .3)), ("note", 1), ("event", 1), ("target", 7 * w.get("target", .1)), ("use", 3 * w.get("rand", .2)), ("seedmod", 1.5 * w.get("rand", .2)), ("draw", w.get("inner", .5)), ("nested", w.get("nested", .1)), ("register", w.get("rand", .2)), ("drop", .5 * w.get("rand", .2))) for _ in range(round(n * 10))]
        k = rng.choice(kinds)
        return {"k": k, "n": rng.randrange(4), "clean": rng.choice(["ok", "ok", "ok", "f1", "f2", "assume", "more", "outside"] + ["int"] * w.get("cleanint", 1)) if rng.random() < w.get("cleanfail", .5) else "ok"}
    def actions(most=3): return [action() for _ in range(rng.randint(0, most))] if p("actions", .6) else []
    def outcome():
        r = rng.random()
        if r < w.get("fail", .35): return rng.choice(["f1", "f1", "f2", "f2", "f3", "exit"])
        if r < w.get("fail", .35) + w.get("fatal", .03): return rng.choice(["int", "skip"])
        if r < .8: return rng.choice(["reject", "assume", "reject", "overrun"])
        return "ok"
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        P["rules"].append({"when": [rng.choice("ab"), rng.choice([">=", "==", "%"]), rng.choice([0, 1, 1, 2, 3, 5, 13, 1001])], "do": actions(), "out": outcome()})
    P["rules"].append({"when": None, "do": actions(), "out": rng.choice(["ok"] * 8 + ["reject", "f1"])})
    P["randout"] = p("rand", .2) and rng.random() < .3            # the outcome depends on the global generator
    P["drawdo"] = actions(1) if p("drawdo", .2) else []
    P["drawout"] = rng.choice(["ok"] * 3 + ["f1", "reject", "overrun", "int"]) if p("drawout", .15) else "ok"
    if p("runner", .3):
        P["runner"] = rng.choice(["setup", "teardown", "both", "both", "both", "exec", "exec+both"])
        P["setupout"] = rng.choice(["ok"] * 4 + ["f1", "reject", "f2"]) if p("setupfail", .3) else "ok"
        P["tearout"] = rng.choice(["ok"] * 4 + ["f1", "reject", "f2"]) if p("setupfail", .3) else "ok"
        P["setupdo"] = [x for x in actions(2) if x["k"] in ("clean", "note", "event", "use")]
        P["setupwhen"] = rng.choice([1, 1, 2, 3])                   # fails every so many times only? (never: it would be flaky)
    if p("explicit", .3):
        for _ in range(rng.randint(1, 4)):
            P["explicit"].append({"a": rng.choice([0, 1, 2, 3, 5, 13, 40, 1001]), "b": rng.randrange(2), "xfail": rng.choice([None] * 4 + ["any", "f1", "f2", "f12", "f3"]) if p("xfail", .6) else None, "how": rng.choice(["args", "kwargs"])})
    phases = [x for x in Phase if rng.random() < .85] if p("phases", .4) else list(Phase)
    if rng.random() < .6: phases = [x for x in phases if x != Phase.explain]
    P["phases"] = [x.name for x in phases]
    P["multi"] = rng.random() < .6
    P["max"] = rng.choice([1, 2, 5, 10, 10, 20])
    P["derandomize"] = rng.random() < .2
    P["verbosity"] = rng.choice(["quiet", "normal", "normal", "normal", "verbose", "debug"]) if p("verbosity", .3) else "normal"
    P["blob"] = rng.random() < .5
    P["seed"] = rng.randrange(10 ** 6)
    P["observe"] = p("observe", .3)
    P["db"] = p("db", .3)
    P["twice"] = P["db"] and rng.random() < .7
    P["unsat"] = p("health", .2)                                    # leave the health checks on
    if w.get("depth", 1) and any(a["k"] == "nested" for r in P["rules"] for a in r["do"]):
        P["inner"] = program(rng, **{**w, "depth": w.get("depth", 1) - 1, "explicit": .2, "phases": .2, "nested": .1 if w.get("depth", 1) > 1 else 0, "twice": 0})
        P["inner"]["max"] = rng.choice([1, 2, 3]); P["inner"]["phases"] = [x for x in P["inner"]["phases"] if x not in ("shrink", "explain")]; P["inner"]["db"] = P["inner"]["twice"] = P["inner"]["observe"] = False
    return P

def matches(when, a, b):
    if when is None: return True
    v, op, n = (a if when[0] == "a" else b), when[1], when[2]
    return v >= n if op == ">=" else v == n if op == "==" else v % (n + 1) == n

class Run:
    """One test function made from a program, in a world."""
    def __init__(self, w, P, depth=0):
        self.w, self.P, self.depth, self.db = w, P, depth, InMemoryExampleDatabase() if P["db"] else None
        self.began = False
    # ---- what happens inside
    def emit(self, k, **kw): self.w.add_event(k, **kw)
    def begin(self):
        """At the first moment of an example that can be seen: is it one whose notes are shown?"""
        shown, n = [], self.w.new()
        class Shown:
            def _repr_pretty_(s, p, cycle): shown.append(1); p.text("<note %d>" % n)
        note(Shown())
        return bool(shown), n
    def do(self, acts, data=None):
        w, last = self.w, None
        for x in acts:
            k, n = x["k"], x["n"]
            if k == "clean":
                if not (last and n == 0):                     # (else: the same function once more)
                    c = w.new()
                    last = c, lambda c=c, how=x["clean"]: self.clean(c, how)
                cleanup(last[1])
                self.emit("reg", id=last[0])
            elif k == "note":
                shown, n = self.begin()
                self.emit("note", id=n, shown=shown)
            elif k == "event":
                event("e%d" % n, n)
                self.emit("event", key="e%d" % n)
            elif k == "target":
                try: target(float(n), label="t%d" % n)
                except InvalidArgument: self.emit("retarget", key="t%d" % n)
                else: self.emit("target", key="t%d" % n, score=n)
            elif k == "use":
                i = n % len(w.gens)
                if w.gens[i] is not None:
                    w.gens[i].random()
                    self.emit("use", i=i + 1)
            elif k == "register":
                i = 2 + n if nprandom else 1 + n
                if i < len(w.gens) and w.gens[i] is not None:
                    register_random(w.gens[i])
                    self.emit("register", i=i + 1)
            elif k == "drop":
                i = 3 + n if nprandom else 2 + n
                if i < len(w.gens) and w.gens[i] is not None:
                    w.gens[i] = None
                    self.emit("drop", i=i + 1)
            elif k == "seedmod" and data is not None:
                s = data.draw(st.random_module()).seed
                self.emit("seedmod", seed=w.id("seed", s))
            elif k == "draw" and data is not None:
                data.draw(st.integers(0, n))
            elif k == "nested" and self.P.get("inner"):
                Run(w, self.P["inner"], self.depth + 1).run(inner=True)
    def clean(self, c, how):
        w = self.w
        inside = currently_in_test_context() if self.depth == 0 else False
        e = {"f1": F1, "f2": F2, "int": KeyboardInterrupt}.get(how)
        refused = self.outside()
        if e:
            e = e("clean-up %d" % c)
            self.emit("clean", id=c, out="int" if how == "int" else how, refused=refused, **w.raising(e, "clean"))
            raise e
        if how == "assume":
            e = UnsatisfiedAssumption()
            self.emit("clean", id=c, out="reject", refused=refused, **w.raising(e, "clean"))
            raise e
        self.emit("clean", id=c, out="ok", x=0, org=0, refused=refused)
    def outside(self):
        """The context functions are refused outside of a test (or, in a nested one, speak of the outer one: not asked)."""
        if self.depth: return True
        for f in (lambda: note("x"), lambda: event("x"), lambda: target(1.0), lambda: cleanup(lambda: None)):
            try: f()
            except InvalidArgument: continue
            return False
        return not currently_in_test_context()
    def finish(self, out, k, data=None, **kw):
        """End of the body (or setup, ...) with this outcome."""
        w, self.finished = self.w, True
        if out == "ok": self.emit(k, out="ok", x=0, org=0, **kw); return
        if out == "reject" or out == "assume":
            try: reject() if out == "reject" else assume(False)
            except BaseException as e:
                self.emit(k, out="reject", **w.raising(e, out), **kw); raise
        if out == "overrun":
            if data is None: self.emit(k, out="ok", x=0, org=0, **kw); return
            try: data.draw(st.binary(min_size=9000, max_size=9000))
            except BaseException as e:
                self.emit(k, out="overrun", **w.raising(e, "stop"), **kw); raise
            self.emit(k, out="ok", x=0, org=0, **kw); return      # it isn't too long for this one
        e = {**FAILS, **FATAL}[out]("%s of %s" % (out, k))
        self.emit(k, out=out, **w.raising(e, "finish" if out in ("f1", "f2") else "finish3"), **kw)
        if out == "f1": raise e
        if out == "f2": raise e
        raise e
    def guarded(self, k, f, **kw):
        """f() inside the example; whatever it raises that no finish() did is logged as an end of that kind."""
        w, self.finished = self.w, False
        try: return f()
        except BaseException as e:
            if not self.finished:
                out = next((n for n, x in {**FAILS, **FATAL}.items() if type(e) is x), "overrun" if isinstance(e, StopTest) else "other")
                self.finished = True
                if w.exc(e): self.emit(k, out=out, x=w.exc(e), org=e.org, **kw)
                else: self.emit(k, out=out, err=type(e).__name__, **w.raising(e, "passing"), **kw)
            raise
    # ---- the test
    def make(self):
        P, w, self_ = self.P, self.w, self
        def body(a, b, data):
            shown, n = self_.begin()
            self_.emit("body", a=int(a), b=int(b), shown=shown, note=n, explicit=data is None)
            rule = next(r for r in P["rules"] if matches(r["when"], a, b))
            def go():
                self_.do(rule["do"], data)
                out = rule["out"]
                if P["randout"] and out == "ok" and random.random() < .3:
                    self_.emit("use", i=1); out = "f2"
                elif P["randout"] and out == "ok": self_.emit("use", i=1)
                self_.finish(out, "end", data)
            self_.guarded("end", go)
        @st.composite
        def arg(draw, name):
            shown, n = self_.begin()
            self_.emit("draw", name=name, shown=shown, note=n)
            def go():
                if name == "b" and P["drawdo"]: self_.do(P["drawdo"])
                v = draw(BASES[P[name]]())
                if name == "b" and v and P["drawout"] != "ok":
                    if P["drawout"] == "overrun": draw(st.binary(min_size=9000, max_size=9000)); self_.emit("drawn", out="ok", x=0, org=0, name=name, v=int(v)); return v
                    self_.finish(P["drawout"], "drawn", name=name, v=int(v)); return v
                self_.finished = True; self_.emit("drawn", out="ok", x=0, org=0, name=name, v=int(v))
                return v
            return self_.guarded("drawn", go, name=name, v=-1)
        @st.composite
        def last(draw):
            # the interactive drawer comes last, so that all arguments are there before the body begins
            return draw(st.data())
        holder = {}
        if P["runner"] == "none":
            def test(a, b, d=None): pass
            exec("def %s(a, b, d): return body(a, b, d)" % P["name"], {"body": lambda a, b, d: body(a, b, d)}, holder)
        else:
            exec("def %s(self, a, b, d): return body(a, b, d)" % P["name"], {"body": lambda a, b, d: body(a, b, d)}, holder)
        fn = holder[P["name"]]
        t = given(a=arg("a"), b=arg("b"), d=st.data())(fn)
        for x in reversed(P["explicit"]):
            ex = example(x["a"], x["b"], None) if x["how"] == "args" else example(a=x["a"], b=x["b"], d=None)
            if x["xfail"]: ex = ex.xfail(**({} if x["xfail"] == "any" else {"raises": {"f1": F1, "f2": F2, "f12": (F1, F2), "f3": F3}[x["xfail"]]}))
            t = ex(t)
        if P.get("repro"): t = reproduce_failure(P["repro"][0], P["repro"][1])(t)
        if not P["derandomize"]: t = seed(P["seed"])(t)
        s = dict(max_examples=P["max"], phases=[Phase[x] for x in P["phases"]], report_multiple_bugs=P["multi"], deadline=None, verbosity=Verbosity[P["verbosity"]], print_blob=P["blob"],
                 suppress_health_check=[] if P["unsat"] else list(HealthCheck))
        t = settings(**s, **({"derandomize": True} if P["derandomize"] else {"database": self.db}))(t)
        if P["runner"] == "none": return t
        ns = {P["name"]: t}
        def setup_example(s):
            shown, n = self_.begin()
            self_.emit("setup", shown=shown, note=n)
            def go():
                self_.do(P["setupdo"])
                tok = w.new()
                self_.finish(P["setupout"], "setupend", tok=tok)
                return tok
            return self_.guarded("setupend", go, tok=0)
        def teardown_example(s, tok):
            self_.emit("tear", tok=tok or 0)
            self_.finish(P["tearout"], "tearend")
        def execute_example(s, f):
            shown, n = self_.begin()
            self_.emit("exec", shown=shown, note=n)
            try: r = f()
            except BaseException as e:
                self_.emit("execend"); raise
            self_.emit("execend")
            return r
        r = P["runner"]
        if r in ("setup", "both", "exec+both"): ns["setup_example"] = setup_example
        if r in ("teardown", "both", "exec+both"): ns["teardown_example"] = teardown_example
        if r.startswith("exec"): ns["execute_example"] = execute_example
        obj = type("T", (), ns)()
        return getattr(obj, P["name"])
    def run(self, inner=False):
        """Run the test once and log how it came out."""
        P, w = self.P, self.w
        if getattr(self, "test", None) is None: self.test = self.make()
        fails = {"any": ["f1", "f2", "f3", "exit", "skip", "group", "other"], "f1": ["f1"], "f2": ["f2"], "f12": ["f1", "f2"], "f3": ["f3"], None: []}
        self.emit("run", cfg={"runner": P["runner"], "multi": P["multi"], "explicit": [{"a": x["a"], "b": x["b"], "x": x["xfail"] is not None, "all": x["xfail"] == "any", "ok": fails[x["xfail"]]} for x in P["explicit"]],
                              "phases": P["phases"], "max": P["max"], "observe": bool(observability.TESTCASE_CALLBACKS) or P["observe"], "verbose": P["verbosity"] in ("verbose", "debug"), "quiet": P["verbosity"] == "quiet", "unsat": P["unsat"], "blob": P["blob"], "repro": P.get("reprokind", "none"), "repa": P.get("repa", [-1, -1])})
        stats = []
        err = None
        def observer(rec):
            if rec["type"] != "test_case": return
            args = rec["arguments"]
            how = rec["how_generated"]
            kind = "explicit" if how == "explicit example" else "final" if how == "minimal failing example" else "engine"
            self.emit("rec", status=rec["status"], how=kind, phase=rec.get("how_generated").split()[1] if kind == "engine" else "", a=args.get("a", -1), b=args.get("b", -1), known=sorted(x for x in args if x in "ab"),
                      events=sorted(k for k in rec["features"] if re.fullmatch(r"e\d", k)), targets=sorted(k[7:] for k in rec["features"] if re.fullmatch(r"target:t\d", k)), rep=self.shown_args(rec["representation"]))
        with contextlib.ExitStack() as stack:
            if P["observe"]:
                observability.TESTCASE_CALLBACKS.append(observer)
                stack.callback(observability.TESTCASE_CALLBACKS.remove, observer)
            stack.enter_context(collector.with_value(stats.append))
            stack.enter_context(with_reporter(lambda s: None))
            stack.enter_context(warnings.catch_warnings()); warnings.simplefilter("ignore")
            stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
            try: self.test()
            except BaseException as e: err = e
        if len(w.log) > 3500: raise TooLong
        for s in stats:
            ph = []
            for name in ("reuse", "generate", "shrink"):
                d = s.get(name + "-phase") or {}
                ph.append([{"s": t["status"], "e": sorted(x.split(":")[0] for x in t["events"] if re.match(r"e\d", x))} for t in d.get("test-cases", [])])
            self.emit("stats", phases=ph, distinct=max([(s.get(n + "-phase") or {}).get("distinct-failures", 0) for n in ("reuse", "generate", "shrink")]), targets=[[k, int(v)] for k, v in sorted(s.get("targets", {}).items())])
        self.emit("ret", **self.result(err))
        return err
    def result(self, err):
        errs = []
        def flat(e):
            if isinstance(e, BaseExceptionGroup) and not self.w.exc(e) and ("distinct failures" in str(e)):
                for x in e.exceptions: flat(x)
            else: errs.append(e)
        if err is not None: flat(err)
        out = []
        for e in errs:
            notes = getattr(e, "__notes__", [])
            text = "\n".join(notes)
            kids = []
            x = self.w.exc(e)
            if not x and isinstance(e, BaseExceptionGroup): kids = [self.w.exc(y) for y in e.exceptions]
            sh = self.shown_args(text)
            out.append({"x": x, "type": type(e).__name__ if not x else "", "kids": kids, "a": sh[0], "b": sh[1], "explicit": "Falsifying explicit example" in text, "notes": [int(n) for n in re.findall(r"<note (\d+)>", text)], "falsifying": len(re.findall(r"Falsifying (?:explicit )?example", text)), "blob": "reproduce_failure" in text})
            m = re.search(r"@reproduce_failure\((.*)\)", text)
            if m: self.blob = re.search(r"b'([^']*)'", m.group(1)).group(1).encode()
        return {"errs": out, "kind": "ok" if err is None else "err"}
    @staticmethod
    def shown_args(text):
        a, b = re.search(r"\ba=(-?\d+)", text or ""), re.search(r"\bb=(-?\d+)", text or "")
        return [int(a.group(1)) if a else -1, int(b.group(1)) if b else -1]

def trace(rng, ident, more=None, **w):
    """A history: one or a few tests run one after another in the same world, with uses of the generators in between."""
    world = World(rng, [rng.choice(["random", "like", "same", "same"]) for _ in range(rng.choice([0, 0, 1, 2, 3]) if w.get("rand", .2) > .3 or rng.random() < .2 else 0)])
    for i in range(len(world.gens)):
        if i >= 1 + bool(nprandom) and rng.random() < .7:
            register_random(world.gens[i]); world.add_event("register", i=i + 1)
    progs = []
    def go():
        for _ in range(rng.choice([1, 1, 1, 2])):
            P = program(rng, **w)
            R = Run(world, P)
            progs.append((P, R))
            for _ in range(2 if P["twice"] else 1):
                R.run()
                if rng.random() < .5:
                    i = rng.randrange(len(world.gens))
                    if world.gens[i] is not None: world.gens[i].random(); world.add_event("use", i=i + 1)
            if more: more(world, P, R, rng)
    try: go()
    except TooLong: pass
    return {"id": ident, "n": len(world.gens), "start": world.start, "registered": list(range(1, 2 + bool(nprandom))), "ev": world.log, "prog": repr([p for p, _ in progs])}
