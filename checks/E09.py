"""E09: the same tests run in several processes which differ in everything that shouldn't matter (Repro.tla, ReproTrace.tla)."""
import json, os, random, subprocess, sys
import vf

INV = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT SameExamples\nPROPERTY NothingLeft\n"

def module(rng, i):
    """A module of a user's, with constants (the same number may be an integer in one and a float in another)."""
    nums = [x if rng.random() < .5 else float(x) for x in rng.sample(range(1000, 1030), 12)]
    words = rng.sample(["alpha", "beta", "gamma", "delta", "eps"], 3)
    return "NUMBERS = %r\nWORDS = %r\nRAW = %r\n" % (nums, words, [w.encode() for w in words])

def jobs(i):
    """The processes of a batch: (folder, job file, hash seed, width of the terminal)."""
    rng = random.Random("E09/%d/%d" % (vf.SEED, i))
    d = vf.scratch("repro")
    mods = ["local_%d" % j for j in range(rng.randint(0, 3))]
    for j, m in enumerate(mods): open(os.path.join(d, m + ".py"), "w").write(module(rng, j))
    progs = rng.sample(range(100000), 4)
    for p in range(3):
        units = []
        for n in progs:
            units.append([{"what": "test", "n": n, "mode": "derandomize", "keep": 0}])
            units.append([{"what": "test", "n": n, "mode": 5 + n % 3, "keep": k, "fixed": f} for k, f in ((0, False), (1, False), (1, True))])
            units.append([{"what": "test", "n": n, "mode": "global", "keep": 0}])
        units += [u for u in rng.sample(units, 2)]
        if p:
            rng.shuffle(units)
            units = [u for u in units if p < 2 or rng.random() < .8]
            for _ in range(rng.randrange(12)): units.insert(rng.randrange(len(units) + 1), [{"what": "noise", "n": rng.randrange(10 ** 6)}])
        loaded = list(mods)
        rng.shuffle(loaded)
        job = os.path.join(d, "job%d.json" % p)
        json.dump({"steps": [x for u in units for x in u], "random": rng.randrange(10 ** 9), "path": [d], "modules": loaded}, open(job, "w"))
        # each process has its own folder for what hypothesis keeps on disk; the last one finds that of the first
        cwd = os.path.join(d, "cwd%d" % (p % 2)); os.makedirs(cwd, exist_ok=True)
        yield i, p, cwd, job, str(rng.randrange(1, 10 ** 6)), str(rng.choice([80, 200]))

def process(x):
    i, p, cwd, job, hashseed, columns = x
    env = {**os.environ, "PYTHONHASHSEED": hashseed, "COLUMNS": columns, "PYTHONPYCACHEPREFIX": os.path.join(vf.scratch(), "pyc")}
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    r = subprocess.run([sys.executable, os.path.join(vf.VERIF, "lib", "repro.py"), job], capture_output=True, text=True, cwd=cwd, env=env, timeout=600)
    if r.returncode: raise RuntimeError("a process with tests ended with %d:\n%s" % (r.returncode, r.stderr[-3000:]))
    return [json.loads(line[2:]) for line in r.stdout.splitlines() if line.startswith("@@")]

def run(c):
    c.model("Repro", INV + "CONSTANTS N = %d Saved = %s Leak = \"none\"\n" % ((3, "{1, 2, 3}") if vf.THOROUGH else (2, "{1, 2}")), workers=4, timeout=3000)
    todo = [j for i in range(160 if vf.THOROUGH else 11) for j in jobs(i)]
    process(todo[0])                                    # (compiles everything once)
    ids, traces = {}, []
    num = lambda x: ids.setdefault(json.dumps(x), len(ids) + 1)
    for (i, p, *_), lines in zip(todo, vf.pmap(process, todo, workers=8)):
        if p == 0: traces.append({"id": "batch-%d" % i, "ev": []}); ids = {}
        c.counts["processes"] += 1
        for x in lines:
            c.counts["tests run"] += 1; c.counts["examples"] += len(x["calls"]); c.counts["failing"] += x["result"] != "ok"
            traces[-1]["ev"].append({"key": num(["key", x["n"], x["mode"], x["before"]]), "calls": [num(c) for c in x["calls"]], "result": num(["r", x["result"]]), "report": num(x["report"]), "after": num(["db", x["after"]]),
                                     "what": "test %d (%s)" % (x["n"], x["mode"]), "process": p})
    c.counts["runs that had to agree with an earlier one"] = sum(len(t["ev"]) - len({e["key"] for e in t["ev"]}) for t in traces)
    c.sample({"events": [{**e, "calls": e["calls"][:10]} for e in traces[0]["ev"][:5]]})
    c.judge("ReproTrace", traces, shards=6)
    c.assumptions += ["the worlds compared load the same modules (constants in the user's modules are a source of examples), have the same version of Python and no time limits", "sets are compared as sets: the order in which Python prints them is its own"]
