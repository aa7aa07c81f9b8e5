"""Shared harness: scratch space, running TLC, collecting verdicts, writing evidence."""
import atexit, collections, contextlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REPO_SRC = os.environ.get("VF_REPO", "/repo") + "/hypothesis-python/src"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

_scratch = None
def scratch(name=None):
    """A scratch directory, removed at exit (only by the process that made it)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    if name is None:
        return _scratch
    d = tempfile.mkdtemp(prefix=name + "-", dir=_scratch)
    return d


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.prints = []      # decoded JSON objects printed as "@@..."
        self.violated = None  # name of a violated invariant/property of the *design*
        self.out = ""


def tlc(module, cfg, env=None, workers=1, timeout=600, simulate=None, depth=None, heap="3g",
        allow_violation=False, extra=()):
    """Run TLC on specs/<module>.tla with the given config text."""
    d = scratch("tlc")
    cfgp = os.path.join(d, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPECS, "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgp]
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(SEED)]
        if depth: cmd += ["-depth", str(depth)]
    cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + module)
    r = TLCResult()
    r.out = p.stdout
    rest = []
    for line in p.stdout.splitlines():
        if line.startswith('"@@'):
            try:
                r.prints.append(json.loads(json.loads(line)[2:]))
            except ValueError as ex:
                raise MachineryError("unreadable TLC print: %r (%s)" % (line[:300], ex))
        else:
            rest.append(line)
    text = "\n".join(rest)
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", text)
    if m:
        r.generated = int(m[-1][0].replace(",", "")); r.distinct = int(m[-1][1].replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m: r.depth = int(m.group(1))
    m = re.search(r"(?:Invariant|Action property|Property|Temporal properties?) ?(\w*) (?:is|was|were) violated", text)
    if m:
        r.violated = m.group(1) or "property"
        if not allow_violation:
            raise MachineryError("design spec %s violates %s:\n%s" % (module, r.violated, text[-3000:]))
    elif p.returncode != 0 or "Error:" in text:
        raise MachineryError("TLC failed on %s (rc=%s):\n%s" % (module, p.returncode, text[-4000:]))
    shutil.rmtree(d, ignore_errors=True)
    return r


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []      # dicts: key, what, replay
        self.rng = random.Random("%s/%s" % (pid, SEED))
        self.counts = collections.Counter()

    # ------------------------------------------------------------------ accumulation
    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, key, what, replay=None):
        self.violations.append({"key": key, "what": what, "replay": replay})

    def model(self, module, cfg, **kw):
        """An exhaustive (or simulated) run of a design spec; must not violate anything."""
        r = tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        if "simulate" not in kw and r.distinct == 0:
            raise MachineryError("TLC explored nothing in " + module)
        return r

    def validate(self, module, traces, cfg_extra="", consts="", shards=None, timeout=600, what=None):
        """Validate recorded traces against specs/<module>.tla.

        `traces` is a list of dicts with at least "ev" (list of events).  The spec prints one
        verdict {"t", "l", "bad"} for every violated clause and one {"done": t} when a trace is consumed.
        """
        if not traces:
            raise MachineryError("no traces for " + module)
        shards = shards or min(4, 1 + len(traces) // 60)
        groups = [list(range(i, len(traces), shards)) for i in range(shards)]
        groups = [g for g in groups if g]
        from concurrent.futures import ThreadPoolExecutor

        def one(g):
            d = scratch("tr")
            p = os.path.join(d, "traces.json")
            with open(p, "w") as f:
                json.dump([traces[i] for i in g], f)
            cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Report\n" + consts + "\n" + cfg_extra + "\n"
            r = tlc(module, cfg, env={"TRACES": p}, timeout=timeout)
            shutil.rmtree(d, ignore_errors=True)
            return r

        with ThreadPoolExecutor(len(groups)) as ex:
            results = list(ex.map(one, groups))
        verdicts = []
        done = set()
        for g, r in zip(groups, results):
            self.states += r.distinct
            self.transitions += r.generated
            for p in r.prints:
                i = g[p["t"] - 1]
                if p.get("done"):
                    done.add(i)
                else:
                    for b in (p["bad"] if isinstance(p["bad"], list) else [p["bad"]]): verdicts.append((i, p["l"], b))
        missing = set(range(len(traces))) - done
        if missing:
            raise MachineryError("%s: %d traces were not consumed, e.g. %s" % (
                module, len(missing), json.dumps(traces[min(missing)])[:1500]))
        self.traces += len(traces)
        return verdicts

    def judge(self, module, traces, describe=None, limit=5, only=None, **kw):
        """validate() and turn verdicts into violations."""
        n = 0
        for i, l, bad in self.validate(module, traces, **kw):
            if only and not bad.startswith(only): continue
            tr = traces[i]
            ev = tr["ev"][l - 1] if 0 < l <= len(tr["ev"]) else {}
            n += 1
            key = "%s:%s" % (bad, tr.get("id", i))
            if sum(1 for v in self.violations if v["key"].startswith(bad + ":")) < 15:
                self.violation(key, "clause %s violated at event %d %s of trace %s" % (
                    bad, l, json.dumps(ev)[:300], tr.get("id", i)), {"trace": tr, "event": l, "clause": bad})
        return n

    # ------------------------------------------------------------------ finishing
    def finish(self):
        if os.environ.get("VF_ALL"):
            for v in self.violations: print("  ", v["key"], (v["replay"] or {}).get("trace", {}).get("ev", [{}])[max(0, (v["replay"] or {}).get("event", 1) - 1)].get("what"), v["what"][:int(os.environ["VF_ALL"])])
        known = {}
        kp = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kp):
            for k in json.load(open(kp)):
                if k.get("status") == "known" and k["property"] == self.pid:
                    known[k["key"]] = k
        new, seen = [], []
        for v in self.violations:
            hit = next((k for k in known if v["key"] == k or re.fullmatch(k, v["key"])), None)
            (seen if hit else new).append((v, hit))
        for k in sorted({h for _, h in seen}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
        rc = 0
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, (v, _) in enumerate(new[:5]):
            rp = os.path.join(rdir, "%s-%d.json" % (self.pid, n))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("   %s: %s" % (v["key"], v["what"][:500]))
            rc = 1
        if len(new) > 5: print("   ... and %d more" % (len(new) - 5))
        wall = round(time.time() - self.t0, 2)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        if self.counts: cov["counts"] = dict(self.counts)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": wall, "violations": len(new), "assumptions": self.assumptions}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("%s %s tier=%s states=%d transitions=%d traces=%d violations=%d %.1fs" % (
            self.pid, "VIOLATED" if rc else "ok", TIER, self.states, self.transitions, self.traces, len(new), wall))
        return rc


def pmap(fn, items, workers=6):
    """[fn(x) for x in items] in forked processes; an exception in one is raised here (with its traceback as a note)."""
    import multiprocessing as mp, traceback, pickle
    items = list(items)
    if not items: return []
    ctx = mp.get_context("fork")
    pipes = []
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(min(workers, len(items))):
        r, s = ctx.Pipe(False)
        pid = os.fork()
        if pid == 0:
            try:
                def late(sig, frame):
                    stack = traceback.format_stack(frame)
                    s.send_bytes(pickle.dumps((False, (any("/src/hypothesis/" in x for x in stack), "no-termination",
                        "the code under test was still running after many times the time the whole check takes", "".join(stack)))))
                    os._exit(0)
                if not THOROUGH:
                    signal.signal(signal.SIGALRM, late); signal.alarm(700)
                try: out = (True, [fn(x) for x in items[w::workers]])
                except BaseException as e: out = (False, (in_repo_tb(e), type(e).__name__, str(e), traceback.format_exc()))
                s.send_bytes(pickle.dumps(out))
            finally: os._exit(0)
        s.close()
        pipes.append((w, r, pid))
    res, failed, gone = [None] * len(items), None, set()
    for w, r, pid in pipes:
        try: ok, val = pickle.loads(r.recv_bytes())
        except (EOFError, OSError): ok, val = False, (False, "EOFError", "a worker process died", "")
        if not ok and not failed:
            for _, _, other in pipes:
                if other != pid and other not in gone:
                    with contextlib.suppress(OSError): os.kill(other, signal.SIGKILL)
        os.waitpid(pid, 0); gone.add(pid)
        if ok: res[w::workers] = val
        else: failed = failed or val
    if failed: raise WorkerError(*failed)
    return res


class WorkerError(Exception):
    def __init__(self, in_repo, name, msg, tb):
        super().__init__("%s: %s\n%s" % (name, msg, tb))
        self.in_repo, self.name, self.tb = in_repo, name, tb


# ---------------------------------------------------------------------- transition tours
class Graph:
    """State graph printed by a spec (edges {"s","a","t"}); replayed as paths covering every edge."""
    def __init__(self, prints, init=None):
        self.edges = collections.defaultdict(list)
        seen = set()
        self.state = {}
        for p in prints:
            if "a" not in p: continue
            s, t = self._k(p["s"]), self._k(p["t"])
            self.state[s], self.state[t] = p["s"], p["t"]
            k = (s, self._k(p["a"]), t)
            if k not in seen:
                seen.add(k)
                self.edges[s].append((p["a"], t))
        self.n = len(seen)
        self.init = self._k(init) if init is not None else None

    @staticmethod
    def _k(x):
        return json.dumps(x, sort_keys=True)

    def tours(self, maxlen=120, rng=None, limit=None):
        """Yield lists of (action, target_state) from the initial state covering all edges.

        With `limit` (a number of edges) a random subset of that size is covered instead."""
        todo = {s: list(range(len(es))) for s, es in self.edges.items()}
        left = self.n
        if rng:
            for s in todo: rng.shuffle(todo[s])
        if limit is not None and limit < left:
            allv = [(s, i) for s, v in todo.items() for i in v]
            keep = set(rng.sample(allv, limit))
            todo = {s: [i for i in v if (s, i) in keep] for s, v in todo.items()}
            left = limit
        while left:
            cur, path = self.init, []
            while len(path) < maxlen:
                if todo.get(cur):
                    i = todo[cur].pop(); left -= 1
                    a, t = self.edges[cur][i]
                    path.append((a, self.state[t])); cur = t
                    continue
                # breadth-first to the nearest state with an uncovered edge
                prev, q, goal = {cur: None}, collections.deque([cur]), None
                while q and goal is None:
                    x = q.popleft()
                    for i, (a, t) in enumerate(self.edges.get(x, ())):
                        if t not in prev:
                            prev[t] = (x, i)
                            if todo.get(t): goal = t; break
                            q.append(t)
                if goal is None: break
                steps = []
                x = goal
                while prev[x] is not None:
                    steps.append(prev[x]); x = prev[x][0]
                if path and len(path) + len(steps) >= maxlen: break
                for x, i in reversed(steps):
                    a, t = self.edges[x][i]
                    if i in todo.get(x, ()): todo[x].remove(i); left -= 1
                    path.append((a, self.state[t]))
                cur = goal
            if not path:
                raise MachineryError("transition tour is stuck (%d edges unreachable)" % left)
            yield path


def in_repo_tb(exc):
    """The innermost frame of exc's traceback that belongs to the code under test or to the harness."""
    last = None
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO_SRC): last = "repo"
        elif fn.startswith(VERIF): last = "verif"
        tb = tb.tb_next
    return last == "repo"
