"""E07: no example is generated twice and finite spaces are covered exactly (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck
import vf

def small(rng):
    while True:
        p = rng.choice([enginecheck.weighted(p=1), enginecheck.weighted(p=5, r=1), enginecheck.weighted(p=1, r=4), enginecheck.weighted(p=40, r=4, f=1), engine.listy])(rng)
        if 0 < p.leaves() <= 300: return p

def wide(rng):
    """One choice among many, and perhaps a few after it."""
    k, more = rng.choice([256, 257, 300, 511, 600]), rng.choice([0, 0, 3])
    def step(p): return ("draw", k) if not p else ("draw", 1) if len(p) == 1 and p[0] < more else ("end", "p")
    return engine.Program("wide", k, step, True)

def job(rng, rec):
    prog = small(rng)
    if rng.random() < .04: prog = wide(rng)
    n = prog.leaves()
    boolean = prog.k == 1 and rng.random() < .5
    cfg = {"max": rng.choice([n - 1, n, n + 1, 2 * n, 10 * n, 400, max(1, n // 2)]) or 1, "boolean": boolean, "types": rng.choice([None, None, "float", "zeros", "normal", "normal-", "one", "text", "sizes", "offset", "below", "sampled"]), "phases": rng.choice([enginecheck.FULL, ["generate"], ["generate", "shrink"]])}
    engine.run(prog, rec, None, cfg, rng.randrange(10 ** 6))

def run(c):
    c.model("MCEngine", "SPECIFICATION Spec\nCONSTANTS N = %d\n Origins = {\"f1\", \"f2\"}\n MaxCalls = 9\nINVARIANTS EndsRight\nCHECK_DEADLOCK FALSE\n" % (4 if vf.THOROUGH else 3), workers=4)
    enginecheck.check(c, "E07", job, 500)
