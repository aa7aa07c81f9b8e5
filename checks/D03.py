"""D03: the directory database under crashes, failing calls and concurrent processes (FsDB.tla, DurableTrace.tla).

Every call is run under a line tracer that covers the database code and the standard library beneath it.  The
contents of the directory between two lines are exactly what a process killed there would leave behind, so each
distinct intermediate state is read back with a fresh handle; other processes' calls are run at those points; and
file-system calls are made to fail one at a time through an audit hook (or all of one kind, or by a file size limit)."""
import errno, itertools, os, resource, shutil, sys, tempfile, threading
import vf
from hypothesis.database import DirectoryBasedExampleDatabase

SHORT = {"v1": b"first value", "v2": b"the second value"}
LONG = {"v1": bytes(range(256)) * 40, "v2": b"y" * 20000}
EMPTYISH = {"v1": b"", "v2": b"\0"}
K = {"k1": b"test-key", "k2": b"test-key.secondary"}

FS_EVENTS = ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.listdir", "os.scandir", "os.link", "os.truncate",
             "tempfile.mkstemp", "os.utime", "os.chmod")
state = {"on": False, "count": 0, "fail": None, "kind": None, "busy": False}


def hook(event, args):
    if not state["on"] or event not in FS_EVENTS or state["busy"]: return
    if event == "open" and isinstance(args[0], (str, bytes)) and not os.fsdecode(args[0]).startswith(state["root"]): return
    state["count"] += 1
    state["log"].append(event)
    if state["fail"] == state["count"]: raise OSError(state["errno"], os.strerror(state["errno"]))
    if state["kind"] is not None and state["kind"](event, args): raise OSError(state["errno"], os.strerror(state["errno"]))
sys.addaudithook(hook)


class Box:
    """One database directory plus a temporary directory of its own."""
    def __init__(self, vals, init):
        self.root = vf.scratch("fs")
        self.tmp = os.path.join(self.root, "tmp"); os.mkdir(self.tmp)
        self.path = os.path.join(self.root, "examples")
        self.V = vals
        self.inv = {v: k for k, v in vals.items()}
        tempfile.tempdir = self.tmp
        self.init = init
        self.ev = []
        for k, v in init:
            self.call({"op": "save", "k": k, "k2": k, "v": v})
            self.ev.append({"ev": "run", "a": {"op": "save", "k": k, "k2": k, "v": v}})

    def handle(self): return DirectoryBasedExampleDatabase(self.path)

    def call(self, a, db=None):
        db = db or self.handle()
        if a["op"] == "save": db.save(K[a["k"]], self.V[a["v"]])
        elif a["op"] == "delete": db.delete(K[a["k"]], self.V[a["v"]])
        elif a["op"] == "move": db.move(K[a["k"]], K[a["k2"]], self.V[a["v"]])
        elif a["op"] == "fetch": return self.names(db.fetch(K[a["k"]]))

    def names(self, vals): return [self.inv.get(x, "partial-or-foreign:%r" % bytes(x)[:20]) for x in vals]

    def contents(self):
        state["busy"] = True
        try:
            db = self.handle()
            return {k: self.names(db.fetch(b)) for k, b in K.items()}
        finally: state["busy"] = False

    def print_(self):
        out = []
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                try: st = os.stat(os.path.join(d, f)); out.append((d, f, st.st_size, st.st_ino))
                except OSError: pass
            out.append((d, tuple(sorted(ds))))
        return tuple(out)

    def done(self):
        tempfile.tempdir = None
        shutil.rmtree(self.root, ignore_errors=True)


def traced(fn, on_line):
    """Run fn, calling on_line(n) before every line executed beneath it."""
    n = [0]
    busy = [False]
    def tr(frame, event, arg):
        if frame.f_code.co_filename == __file__: return None
        if event == "line" and not busy[0]:
            busy[0] = True
            n[0] += 1
            try: on_line(n[0], frame)
            finally: busy[0] = False
        return tr
    old = sys.gettrace()
    sys.settrace(tr)
    try: return fn()
    finally: sys.settrace(old)


def crash_states(c, vals, init, a):
    """All intermediate contents of call a."""
    b = Box(vals, init)
    last = [None]
    points = []
    seen = set()
    def line(n, frame):
        f = b.print_()
        if f != last[0]:
            last[0] = f
            got = b.contents()
            points.append(n)
            k = repr(sorted(got.items()))
            if k not in seen:
                seen.add(k)
                b.ev.append({"ev": "snap", "a": a, "got": got, "whole": True, "at": "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)})
        elif frame.f_code.co_filename.endswith("hypothesis/database.py"): points.append(n)
    db = b.handle()
    try: traced(lambda: b.call(a, db), line)
    except Exception as e: b.ev.append({"ev": "error", "a": a, "msg": repr(e)})
    # with everything but the last step done the process may be killed, or carry on: both are covered by running on
    b.ev.append({"ev": "run", "a": a})
    b.ev.append({"ev": "all", "got": b.contents()})
    left = os.listdir(b.tmp)
    b.done()
    c.counts["crash points (distinct contents)"] += len(seen)
    return {"id": "crash:%s:%s" % (tag(a), sorted(init)), "ev": b.ev}, points, left


def tag(a): return "%s(%s,%s,%s)" % (a["op"], a["k"], a["k2"], a["v"])


def crash_reruns(c, vals, init, a, points, rng, count):
    """Leave a call for dead at a point, then use the directory normally."""
    out = []
    class Killed(BaseException): pass
    for n in rng.sample(points, min(count, len(points))):
        b = Box(vals, init)
        dead = [False]
        def line(i, frame):
            if i == n:
                # the kill: whatever the dying code still does (finally, except) must not reach the disk
                shutil.copytree(b.root, b.root + "-dead", symlinks=True); dead[0] = True
                raise Killed
        try: traced(lambda: b.call(a), line)
        except Killed: pass
        except OSError: pass
        if dead[0]:
            shutil.rmtree(b.root); os.rename(b.root + "-dead", b.root)
        b.ev.append({"ev": "broken", "a": a})
        b.ev.append({"ev": "all", "got": b.contents()})
        for x in random_ops(rng, 3):
            b.call(x)
            b.ev.append({"ev": "run", "a": x})
            b.ev.append({"ev": "all", "got": b.contents()})
        out.append({"id": "killed:%s:%s:%d" % (tag(a), sorted(init), n), "ev": b.ev})
        b.done()
    return out


def random_ops(rng, n):
    out = []
    for _ in range(n):
        op = rng.choice(["save", "delete", "move"])
        k = rng.choice(["k1", "k2"])
        out.append({"op": op, "k": k, "k2": rng.choice(["k1", "k2"]) if op == "move" else k, "v": rng.choice(["v1", "v2"])})
    return out


def overlapped(c, vals, init, a, other, points):
    """Call `other` (a complete call by another process) at each point of call a."""
    out = []
    for n in points:
        b = Box(vals, init)
        res = []
        def line(i, frame):
            if i == n: res.append(b.call(other))
        db = b.handle()
        try: r = traced(lambda: b.call(a, db), line)
        except Exception as e:
            b.ev.append({"ev": "error", "a": a, "msg": "%r while another process did %s" % (e, tag(other))})
            out.append({"id": "overlap:%s|%s:%s:%d" % (tag(a), tag(other), sorted(init), n), "ev": b.ev}); b.done()
            continue
        if not res: b.done(); continue
        if other["op"] == "fetch":
            b.ev.append({"ev": "snap", "a": a, "got": {other["k"]: res[0]}, "whole": False})
            b.ev.append({"ev": "run", "a": a})
        elif a["op"] == "fetch":
            b.ev.append({"ev": "snap", "a": other, "got": {a["k"]: r}, "whole": False})
            b.ev.append({"ev": "run", "a": other})
        else: b.ev.append({"ev": "both", "a": a, "b": other})
        b.ev.append({"ev": "all", "got": b.contents()})
        out.append({"id": "overlap:%s|%s:%s:%d" % (tag(a), tag(other), sorted(init), n), "ev": b.ev})
        b.done()
    return out


def interleaved(vals, init, a, o, rng, n):
    """Two threads, each on its own handle, under a random line-level schedule."""
    b = Box(vals, init)
    cond = threading.Condition()
    turn = [rng.randint(0, 1)]
    live = [True, True]
    left = [rng.choice([1, 2, 3, 5, 9, 17])]
    errs = []
    def worker(me, call):
        def line(i, frame):
            with cond:
                while turn[0] != me and live[1 - me]: cond.wait(1)
                left[0] -= 1
                if left[0] <= 0 and live[1 - me]:
                    turn[0] = 1 - me; left[0] = rng.choice([1, 2, 3, 5, 9, 17, 40]); cond.notify_all()
        try: traced(lambda: b.call(call), line)
        except Exception as e: errs.append(repr(e))
        with cond:
            live[me] = False; turn[0] = 1 - me; cond.notify_all()
    ts = [threading.Thread(target=worker, args=(i, x)) for i, x in enumerate((a, o))]
    for x in ts: x.start()
    for x in ts: x.join(30)
    if errs: b.ev.append({"ev": "error", "a": a, "msg": errs[0]})
    b.ev.append({"ev": "both", "a": a, "b": o})
    b.ev.append({"ev": "all", "got": b.contents()})
    b.done()
    return {"id": "threads:%s|%s:%s:%d" % (tag(a), tag(o), sorted(init), n), "ev": b.ev}


def faulted(c, vals, init, a, nth=None, kind=None, eno=errno.EIO, label="", fsize=None, expect_done=False):
    b = Box(vals, init)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    db = b.handle()
    state.update(on=True, count=0, fail=nth, kind=kind, errno=eno, root=b.root, log=[])
    err = None
    try:
        if fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, old[1]))
        b.call(a, db)
    except OSError as e: err = e      # allowed: the call was disturbed
    except Exception as e: b.ev.append({"ev": "error", "a": a, "msg": repr(e)})
    finally:
        if fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, old)
        state.update(on=False)
    hit = nth is None or state["count"] >= nth
    b.ev.append({"ev": "run" if expect_done else "broken", "a": a})
    b.ev.append({"ev": "all", "got": b.contents()})
    for x in (a, {"op": "save", "k": "k1", "k2": "k1", "v": "v2"}):
        b.call(x)     # afterwards everything works again
        b.ev.append({"ev": "run", "a": x})
        b.ev.append({"ev": "all", "got": b.contents()})
    leak = os.listdir(b.tmp)
    b.done()
    if leak: c.counts["temporary files left behind"] += len(leak)
    return {"id": "fault:%s:%s:%s" % (label, tag(a), sorted(init)), "ev": b.ev}, hit


def cross_device(event, args):
    # the database directory is on another file system than the temporary directory
    return event == "os.rename" and ("/tmp/" in os.fsdecode(args[0]).replace(os.path.dirname(vf.scratch()), "", 1)) and "/examples/" in os.fsdecode(args[1])


def run(c):
    cfg = """SPECIFICATION Spec
CONSTANTS Keys = {"k1", "k2"} Vals = {"v1"%s} Procs = {1, 2} Faults = 1
INVARIANTS NoPartial InADir OthersKept MoveKeeps SaveStays DeletedGone
CHECK_DEADLOCK FALSE
"""
    c.model("FsDB", cfg % (', "v2"' if vf.THOROUGH else ""), workers=4)
    pairs = [("k1", "v1"), ("k1", "v2"), ("k2", "v1"), ("k2", "v2")]
    inits = [list(x) for r in range(5) for x in itertools.combinations(pairs, r)]
    A = [{"op": "save", "k": "k1", "k2": "k1", "v": "v1"}, {"op": "delete", "k": "k1", "k2": "k1", "v": "v1"},
         {"op": "move", "k": "k1", "k2": "k2", "v": "v1"}, {"op": "move", "k": "k1", "k2": "k1", "v": "v1"}]
    F = {"op": "fetch", "k": "k1", "k2": "k1", "v": "v1"}
    full = vf.THOROUGH
    traces = []
    rng = c.rng
    for a in A:
        for init in inits:
            for vals in ((SHORT, LONG, EMPTYISH) if full else (rng.choice([SHORT, SHORT, LONG, EMPTYISH]),)):
                tr, points, left = crash_states(c, vals, init, a)
                traces.append(tr)
                if left: c.counts["temporary files left behind"] += len(left)
                traces += crash_reruns(c, vals, init, a, points, rng, 8 if full else 1)
                # faults, one call at a time
                n = 1
                while True:
                    tr, hit = faulted(c, vals, init, a, nth=n, eno=rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.ENOENT]), label="call%d" % n)
                    if not hit: break
                    traces.append(tr); n += 1
                if len(vals["v1"]) > 1:
                    for lim in (0, 1, len(vals["v1"]) // 2, len(vals["v1"]) - 1):
                        traces.append(faulted(c, vals, init, a, fsize=lim, label="fsize%d" % lim)[0])
                traces.append(faulted(c, vals, init, a, kind=cross_device, eno=errno.EXDEV, label="cross-device", expect_done=True)[0])
                for kinds in (("os.rename",), ("tempfile.mkstemp",), ("os.mkdir",), ("os.remove",), ("os.rename", "tempfile.mkstemp")):
                    traces.append(faulted(c, vals, init, a, kind=lambda e, x: e in kinds, label="all " + "+".join(kinds))[0])
    others = A + [{"op": "save", "k": "k1", "k2": "k1", "v": "v2"}, {"op": "move", "k": "k2", "k2": "k1", "v": "v1"},
                  {"op": "delete", "k": "k2", "k2": "k2", "v": "v1"}, {"op": "move", "k": "k1", "k2": "k2", "v": "v2"},
                  {"op": "save", "k": "k2", "k2": "k2", "v": "v1"}, F, {**F, "k": "k2", "k2": "k2"}]
    combos = [(a, o, i) for a in A + [F] for o in others for i in inits]
    if not full:     # every pair of calls at least once, those that empty the directory always
        pick = [(a, o, i) for a in A + [F] for o in others for i in [rng.choice(inits)]]
        combos = pick + [(a, o, [(x["k"], "v1")]) for a in A + [F] for o in others for x in (a, o) if x["op"] == "move"]
        combos = [x for n, x in enumerate(combos) if x not in combos[:n]]
    one = {"op": "delete", "k": "k1", "k2": "k1", "v": "v2"}
    for a, o, init in combos + [(A[0], one, [("k1", "v2")]), (A[2], {**one, "k": "k2", "k2": "k2"}, [("k1", "v1"), ("k2", "v2")]), (one, A[0], [("k1", "v2")])]:
        if a["op"] == "fetch" and o["op"] == "fetch": continue
        b = Box(SHORT, init)
        pts = []
        def line(n, frame):
            if frame.f_code.co_filename.endswith("hypothesis/database.py") or b.print_() != b.last: pts.append(n); b.last = b.print_()
        b.last, db = None, b.handle()
        traced(lambda: b.call(a, db), line)
        b.done()
        traces += overlapped(c, SHORT, init, a, o, pts if full or len(pts) < 10 or a["op"] == "fetch" or "v2" == (a if o is A[0] else o)["v"] else sorted(rng.sample(pts, 9)))
    muts = [x for x in others if x["op"] != "fetch"]
    for n in range(4000 if full else 150):
        traces.append(interleaved(SHORT, rng.choice(inits), rng.choice(muts), rng.choice(muts), rng, n))
    tempfile.tempdir = None
    c.judge("DurableTrace", traces)
    for tr in traces: c.counts[tr["id"].split(":")[0] + " traces"] += 1
    c.sample({"trace": traces[0]})
    c.assumptions += ["rename within one file system is atomic and nothing is reordered by a power failure (process crashes only)",
                      "a save into a key from which another process moves the last value away at the same moment may be in vain"]
