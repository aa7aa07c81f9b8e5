"""S01: random rule-based state machines run by the real engine; every run's calls, results, invariant checks and bundle
contents are validated against Stateful.tla."""
import sys, warnings
import vf
sys.path.insert(0, vf.REPO_SRC)
warnings.simplefilter("ignore")
from hypothesis import HealthCheck, Phase, settings, strategies as st
from hypothesis import errors
from hypothesis.stateful import (Bundle, RuleBasedStateMachine, consumes, initialize, invariant, multiple, precondition, rule,
                                 run_state_machine_as_test)
from hypothesis.database import InMemoryExampleDatabase

class Boom(Exception): pass

def norm(v):
    """A value as text."""
    if isinstance(v, Tag): return "T%d" % v.n
    if isinstance(v, (list, tuple)): return type(v).__name__ + "(" + ",".join(map(norm, v)) + ")"
    if isinstance(v, dict): return "{" + ",".join(k + ":" + norm(v[k]) for k in sorted(v)) + "}"
    return repr(v)

class Tag:
    def __init__(self, n): self.n = n
    def __repr__(self): return "Tag(%d)" % self.n

def num(v): return v.n if isinstance(v, Tag) else v[0] if isinstance(v, list) else v

def contents(machine, names):
    """What the bundles hold, as numbers; None if the machine doesn't keep it the way it does now."""
    try: return [[num(machine.names_to_values[r.name]) for r in machine.bundle(b)] for b in names]
    except (AttributeError, KeyError, TypeError): return None

BLANK = {"r": 0, "args": [], "has": 0, "contents": [], "vals": [], "i": 0, "bad": 0, "raw": "", "many": 0}

class Recorder:
    """All runs of one machine class."""
    def __init__(self): self.runs = []
    def start(self): self.runs.append([])
    def ev(self, op, **kw): self.runs[-1].append(dict(BLANK, op=op, **kw))

def arg_kinds(rng, nb, consuming):
    """(strategy given the bundles, spec of the argument, read(value) -> [[bundle, value], ...])"""
    b = rng.randrange(nb)
    one = lambda v: [[b + 1, num(v)]]
    use = 1 if consuming[b] else 0
    k = rng.randrange(15)
    if k == 0: return (lambda B: B[b]), {"b": [b + 1], "use": use, "direct": 1}, one
    if k in (1, 2): return (lambda B: consumes(B[b])), {"b": [b + 1], "use": 1, "direct": 1}, one
    if k == 3:
        lo = rng.choice([0, 0, 1, 2])
        return (lambda B: st.lists(B[b], min_size=lo, max_size=3)), {"b": [b + 1], "use": use, "direct": 0}, lambda v: [[b + 1, num(x)] for x in v]
    if k == 4:
        return (lambda B: st.lists(consumes(B[b]), max_size=3)), {"b": [b + 1], "use": 1, "direct": 0}, lambda v: [[b + 1, num(x)] for x in v]
    if k == 5:
        d = rng.randrange(nb)
        return (lambda B: st.tuples(consumes(B[b]), consumes(B[d]))), {"b": [b + 1, d + 1], "use": 1, "direct": 0}, \
            lambda v: [[b + 1, num(v[0])], [d + 1, num(v[1])]]
    if k == 6: return (lambda B: B[b].map(lambda v: (v,))), {"b": [b + 1], "use": use, "direct": 0}, lambda v: one(v[0])
    if k == 7: return (lambda B: B[b].flatmap(lambda v: st.tuples(st.just(v), st.integers(0, 3)))), {"b": [b + 1], "use": use, "direct": 0}, lambda v: one(v[0])
    if k == 8:
        d = rng.randrange(nb)
        if consuming[b] != consuming[d]: d = b
        return (lambda B: st.one_of(B[b].map(lambda v: (b, v)), B[d].map(lambda v: (d, v)))), {"b": [b + 1, d + 1], "use": use, "direct": 0}, \
            lambda v: [[v[0] + 1, num(v[1])]]
    if k == 9: return (lambda B: consumes(B[b]).map(lambda v: [v])), {"b": [b + 1], "use": 1, "direct": 0}, lambda v: one(v[0])
    if k == 10: return (lambda B: st.fixed_dictionaries({"x": consumes(B[b])})), {"b": [b + 1], "use": 1, "direct": 0}, lambda v: one(v["x"])
    if k == 11: return (lambda B: consumes(B[b]).flatmap(lambda v: st.lists(st.booleans(), max_size=2).map(lambda _: v))), {"b": [b + 1], "use": 1, "direct": 0}, one
    if k == 12: return (lambda B: st.text(max_size=3) | st.floats(allow_nan=False) | st.none()), {"b": [], "use": 0, "direct": 0}, lambda v: []
    return (lambda B: st.integers(0, 5)), {"b": [], "use": 0, "direct": 0}, lambda v: []

def modulus(rng):
    m = rng.choice([2, 3, 3, 4])
    return {"m": m, "r": rng.randrange(m)}

def build(rng, rec, failing=False):
    """A random machine class and its definition."""
    nb = rng.randint(1, 3)
    consuming = [rng.random() < 0.25 for _ in range(nb)]
    names = ["B%d" % i for i in range(nb)]
    bundles = [Bundle(n, consume=True) if c else Bundle(n) for n, c in zip(names, consuming)]
    ns = dict(zip(names, bundles))
    rules, invs = [], []
    tags = rng.choice([Tag, Tag, Tag, int, lambda n: n + 10 ** 6, lambda n: [n]])
    def define(index, init):
        nargs = rng.choice([0, 0, 1, 1, 2, 3]) if not init else rng.choice([0, 0, 1])
        args = [arg_kinds(rng, nb, consuming) for _ in range(nargs)]
        if init: args = [a for a in args if not a[1]["b"]]
        targets = [rng.randrange(nb) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        pre = [modulus(rng) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))] if not init else []
        mode = rng.choice(["new", "new", "new", "two", "none", "one", "back", "same"])
        fail = rng.choice([None] * (1 if failing else 4) + [(rng.choice([3, 5, 7]), rng.randrange(3))])
        keys = ["a%d" % i for i in range(len(args))]
        def body(self, **kw):
            self.calls += 1
            n = self.calls
            c = contents(self, names)
            rec.ev("call", r=index, args=[args[i][2](kw[k]) for i, k in enumerate(keys)], has=int(c is not None), contents=c or [], raw=norm(kw))
            if fail and n > 2 and n % fail[0] == fail[1]:
                rec.ev("raise")
                raise Boom("rule %d" % index)
            if not targets:
                rec.ev("ret"); return None
            def fresh():
                self.made += 1
                return tags(self.made)
            got = [v for k in keys for v in ([kw[k]] if isinstance(kw[k], Tag) else [])]
            vals = {"new": lambda: [fresh()], "two": lambda: [fresh(), fresh()], "none": lambda: [], "one": lambda: [fresh()],
                    "back": lambda: [got[0] if got else fresh()], "same": lambda: (lambda v: [v, v, fresh()])(fresh())}[mode]()
            rec.ev("ret", vals=[num(v) for v in vals], many=int(mode not in ("new", "back")))
            return vals[0] if mode in ("new", "back") else multiple(*vals)
        body.__name__ = body.__qualname__ = "rule%d" % index
        kwargs = {k: a[0](bundles) for k, a in zip(keys, args)}
        if len(targets) == 1 and rng.random() < 0.5: kwargs["target"] = bundles[targets[0]]
        elif targets: kwargs["targets"] = tuple(bundles[x] for x in targets)
        f = (initialize if init else rule)(**kwargs)(body)
        for p in pre:
            def cond(self, p=p): return self.calls % p["m"] != p["r"]
            f = precondition(cond)(f)
        ns["rule%d" % index] = f
        rules.append({"init": int(init), "args": [a[1] for a in args], "targets": [x + 1 for x in targets], "pre": pre})
    ninit = rng.choice([0, 0, 1, 2, 3])
    total = ninit + rng.randint(1, 5)
    for i in range(total): define(i + 1, i < ninit)
    for i in range(rng.choice([0, 1, 2, 3])):
        pre = [modulus(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
        during = rng.random() < 0.5
        fail = rng.choice([None, None, None, (rng.choice([4, 6]), rng.randrange(4))])
        def check(self, i=i, fail=fail):
            bad = bool(fail) and self.calls > 3 and self.calls % fail[0] == fail[1]
            c = contents(self, names)
            rec.ev("inv", i=i + 1, bad=int(bad), has=int(c is not None), contents=c or [])
            if bad: raise Boom("invariant %d" % i)
        check.__name__ = check.__qualname__ = "inv%d" % i
        f = invariant(check_during_init=during)(check)
        for p in pre:
            def cond(self, p=p): return self.calls % p["m"] != p["r"]
            f = precondition(cond)(f)
        ns["inv%d" % i] = f
        invs.append({"pre": pre, "during": int(during)})
    def __init__(self):
        RuleBasedStateMachine.__init__(self)
        self.calls = self.made = 0
        rec.start()
    def teardown(self):
        c = contents(self, names)
        rec.ev("teardown", has=int(c is not None), contents=c or [])
    ns["__init__"], ns["teardown"] = __init__, teardown
    cls = type("M", (RuleBasedStateMachine,), ns)
    if rng.random() < 0.2: cls = type("N", (cls,), {})       # inherited rules
    return cls, {"rules": rules, "invs": invs, "steps": 0, "nb": nb}

def machine(k, keep=24):
    """Run machine k: (outcome, traces, problem)."""
    rng = vf.random.Random(vf.SEED * 100003 + k)
    rec = Recorder()
    cls, m = build(rng, rec)
    m["steps"] = rng.choice([1, 3, 6, 10, 20])
    s = settings(max_examples=rng.choice([5, 15, 25]), stateful_step_count=m["steps"], database=None, deadline=None, derandomize=True,
                 suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    outcome, problem = "passed", None
    try: run_state_machine_as_test(cls, settings=s)
    except Boom: outcome = "failed"
    except errors.InvalidDefinition as e:
        if "No progress" not in str(e): raise
        outcome = "stuck"
        rec.ev("stuck")          # before the teardown of the run
        order = rec.runs[-1]
        order.insert(max(i for i, e in enumerate(order) if e["op"] == "teardown"), order.pop())
    except errors.Unsatisfiable: outcome = "unsatisfiable"
    except errors.Flaky as e: problem = e
    except BaseExceptionGroup as e:
        outcome = "several failures"
        if not all(isinstance(x, (Boom, errors.InvalidDefinition)) for x in e.exceptions): problem = e
    except Exception as e: problem = e
    if problem is not None:
        return "error", [], ("stateful-error:" + type(problem).__name__, "machine %d: running a valid machine raised %s: %s" % (k, type(problem).__name__, str(problem)[:200]), {"machine": m})
    runs = rec.runs
    if len(runs) > keep: runs = runs[: keep // 2] + runs[-keep // 2:]
    return outcome, [{"id": "%d/%d" % (k, j), "m": m, "ev": ev + [dict(BLANK, op="over")]} for j, ev in enumerate(runs)], None

def run(c):
    c.model("MCStateful", "SPECIFICATION Spec\nCONSTANTS Steps = %d\n MaxVals = 3\nINVARIANTS GoneForGood InitFirst InitOnce Limit\nCHECK_DEADLOCK FALSE" % (6 if vf.THOROUGH else 5))
    traces = []
    for outcome, tr, problem in vf.pmap(machine, range(2000 if vf.THOROUGH else 180)):
        c.counts["machines: " + outcome] += 1
        traces += tr
        if problem: c.violation(*problem)
    for t in traces: c.counts["calls"] += sum(e["op"] == "call" for e in t["ev"])
    c.sample(traces[0]["ev"][:6])
    c.assumptions.append("Preconditions and failures depend only on the number of calls; arguments are bundles, consumed bundles and collections, images and unions of them.")
    c.judge("StatefulTrace", traces, describe=lambda t, l: "machine %s: %s" % (t["id"], {k: v for k, v in t["ev"][l - 1].items() if v != BLANK.get(k)}))
