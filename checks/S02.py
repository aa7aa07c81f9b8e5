"""S02: the steps printed for failing machines are compared with the calls of the failing run, executed as a program, and the calls that
program makes compared again; all judged by StatefulReprTrace.tla."""
import ast, sys, warnings
import vf
sys.path.insert(0, vf.REPO_SRC)
warnings.simplefilter("ignore")
import importlib.util, os
def _load(name):
    spec = importlib.util.spec_from_file_location("chk_" + name, os.path.join(vf.VERIF, "checks", name + ".py"))
    m = importlib.util.module_from_spec(spec); sys.modules["chk_" + name] = m; spec.loader.exec_module(m); return m
S01 = _load("S01")
from hypothesis import HealthCheck, Phase, settings
from hypothesis import errors
from hypothesis.stateful import run_state_machine_as_test

def actions(run):
    """The calls of a run: [kind, f, args, vals, many, raised]."""
    out = [{"kind": "new", "f": "", "args": "", "vals": [], "many": 0, "raised": 0}]
    for e in run:
        if e["op"] == "call": out.append({"kind": "call", "f": "rule%d" % e["r"], "args": e["raw"], "vals": [], "many": 0, "raised": 0, "direct": e["args"]})
        elif e["op"] == "ret": out[-1].update(vals=e["vals"], many=e["many"])
        elif e["op"] == "raise": out[-1]["raised"] = 1
        elif e["op"] == "inv": out.append({"kind": "inv", "f": "inv%d" % (e["i"] - 1), "args": "", "vals": [], "many": 0, "raised": e["bad"]})
        elif e["op"] == "teardown": out.append({"kind": "down", "f": "", "args": "", "vals": [], "many": 0, "raised": 0})
    return out

def printed(line, cls, m, names, act):
    """A printed line: ([kind, f, names, form, refs, pairs, unnamed], statement)."""
    p = {"kind": "?", "f": "", "names": [], "form": 0, "refs": [], "pairs": [], "unnamed": 0}
    try: tree = ast.parse(line)
    except SyntaxError: return p, None
    if len(tree.body) != 1: return p, None
    stmt = tree.body[0]
    number = lambda n: names.setdefault(n, len(names) + 1)
    if isinstance(stmt, ast.Assign):
        call = stmt.value
        ids = [n.id for x in stmt.targets for n in ast.walk(x) if isinstance(n, ast.Name)]
        if ids == ["state"] and isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id == cls.__name__:
            return dict(p, kind="new"), stmt
        p["names"] = [number(n) for n in ids]
        p["form"] = 1 if all(isinstance(x, ast.Name) for x in stmt.targets) else 2 if all(isinstance(x, ast.Tuple) and len(x.elts) == 1 for x in stmt.targets) else 3
        if p["form"] == 3 and len(stmt.targets) > 1: p["form"] = 4
    elif isinstance(stmt, ast.Expr): call = stmt.value
    else: return p, None
    if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == "state"):
        return p, None
    f = call.func.attr
    p["f"] = f
    if f.startswith("rule"): p["kind"] = "call"
    elif f.startswith("inv"): p["kind"] = "inv"
    elif f == "teardown": p["kind"], p["f"] = "down", ""
    if p["kind"] == "call" and act["kind"] == "call" and act["f"] == f:
        spec = m["rules"][int(f[4:]) - 1]
        for kw in call.keywords:
            i = int(kw.arg[1:])
            p["refs"] += [number(n.id) for n in ast.walk(kw.value) if isinstance(n, ast.Name) and n.id not in ("inf", "nan", "Tag")]
            p["unnamed"] += sum(isinstance(n, ast.Call) for n in ast.walk(kw.value))          # Tag(3)
            if i < len(spec["args"]) and spec["args"][i]["direct"]:
                if not isinstance(kw.value, ast.Name): p["unnamed"] += 1
                else: p["pairs"].append([number(kw.value.id), act["direct"][i][0][1]])
    return p, stmt

def execute(stmts, m, cls, rec):
    """Run the printed program; the calls it makes and how it fails."""
    ns = {cls.__name__: cls, "inf": float("inf"), "nan": float("nan"), "Tag": S01.Tag}
    before, error = len(rec.runs), ""
    for s in stmts:
        if error and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, "attr", "") == "teardown"): break
        f = getattr(getattr(getattr(s, "value", None), "func", None), "attr", "")
        multi = isinstance(s, ast.Assign) and f.startswith("rule") and isinstance(s.targets[0], ast.Tuple) and len(s.targets[0].elts) > 1
        try:
            if multi and len(m["rules"][int(f[4:]) - 1]["targets"]) > 1:       # (not executable as printed: a recorded finding)
                ids = [n.id for n in s.targets[0].elts]
                vals = list(eval(compile(ast.Expression(s.value), "<program>", "eval"), ns))
                nt = len(m["rules"][int(f[4:]) - 1]["targets"])
                ns.update((n, vals[i // nt]) for i, n in enumerate(ids) if i // nt < len(vals))
            else: exec(compile(ast.Module([s], []), "<program>", "exec"), ns)
        except S01.Boom as e: error = str(e)
        except Exception as e: error = "%s: %s" % (type(e).__name__, e)
    runs = rec.runs[before:]
    return actions(runs[0]) if runs else [], error

def machine(k):
    rng = vf.random.Random(vf.SEED * 100003 + 50021 + k)
    rec = S01.Recorder()
    cls, m = S01.build(rng, rec, failing=True)
    steps = rng.choice([6, 10, 20])
    phases = [Phase.generate, Phase.shrink] if rng.random() < 0.5 else [Phase.generate]
    s = settings(max_examples=rng.choice([15, 30]), stateful_step_count=steps, database=None, deadline=None, derandomize=True, print_blob=False,
                 suppress_health_check=list(HealthCheck), phases=phases, report_multiple_bugs=rng.random() < 0.7)
    try: run_state_machine_as_test(cls, settings=s); return "passed", [], None
    except errors.Flaky as e: return "error", [], ("stateful-error", "machine %d: %r" % (k, e), {"machine": m})
    except S01.Boom as e: found = [e]
    except BaseExceptionGroup as e: found = list(e.exceptions)
    except errors.InvalidDefinition: return "stuck", [], None
    except errors.Unsatisfiable: return "unsatisfiable", [], None
    finals = rec.runs[-len(found):]
    traces = []
    for j, (e, run) in enumerate(zip(found, finals)):
        if not isinstance(e, S01.Boom): continue
        notes = [x for x in getattr(e, "__notes__", [])]
        heads = [i for i, x in enumerate(notes) if x.strip().endswith("example:")]
        lines = notes[heads[0] + 1:] if heads else []
        lines = [x for x in "\n".join(lines).split("\n") if not x.startswith(("You can reproduce", "Explanation"))]
        acts, names, ps, stmts = actions(run), {}, [], []
        for i, line in enumerate(lines):
            p, stmt = printed(line, cls, m, names, acts[i] if i < len(acts) else {"kind": "none"})
            ps.append(p)
            if stmt is not None: stmts.append(stmt)
        xs, xerr = execute(stmts, m, cls, rec)
        ev, blank = [], {"kind": "none", "f": "", "args": "", "vals": [], "many": 0, "raised": 0}
        for i in range(max(len(ps), len(acts))):
            a = dict(acts[i] if i < len(acts) else blank)
            a.pop("direct", None)
            a["nt"] = len(m["rules"][int(a["f"][4:]) - 1]["targets"]) if a["kind"] == "call" else 0
            x = dict(xs[i] if i < len(xs) else blank)
            x.pop("direct", None)
            none = {"kind": "missing", "f": "", "names": [], "form": 0, "refs": [], "pairs": [], "unnamed": 0}
            ev.append({"op": "step", "p": ps[i] if i < len(ps) else none, "s": a, "x": x, "what": lines[i] if i < len(lines) else ""})
        ev.append({"op": "end", "error": str(e), "xerror": xerr, "count": len(acts), "pcount": len(ps), "xcount": len(xs), "last": ps[-1]["kind"] if ps else ""})
        traces.append({"id": "%d/%d" % (k, j), "ev": ev, "lines": lines})
    return "failed", traces, None

def run(c):
    c.model("MCStatefulRepr", "SPECIFICATION Spec\nCONSTANTS Steps = %d\nINVARIANTS ProgramKnowsTheValues NamesOnce\nCHECK_DEADLOCK FALSE" % (4 if vf.THOROUGH else 3))
    traces = []
    for outcome, tr, problem in vf.pmap(machine, range(3000 if vf.THOROUGH else 260)):
        c.counts["machines: " + outcome] += 1
        traces += tr
        if problem: c.violation(*problem)
    if len(traces) < 30: raise vf.MachineryError("only %d failing machines" % len(traces))
    for t in traces:
        c.counts["lines"] += len(t.pop("lines"))
    c.sample([e.get("what") for e in traces[0]["ev"]])
    c.assumptions.append("Arguments are bundle values, collections and images of them, numbers, text and None; st.data() and values whose printed form isn't an expression are left out.")
    c.judge("StatefulReprTrace", traces)
