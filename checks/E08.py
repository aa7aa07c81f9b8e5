"""E08: tests that aren't deterministic are reported as flaky, never as a clean result (Engine.tla, EngineTrace.tla)."""
import engine, enginecheck
import random, vf

def behaviour(rng, prog):
    """How the test departs from what it did before: a function of the number of the call, the choices so far and what it should do."""
    kind = rng.choice(["vanish", "once", "other", "parity", "range", "longer", "shorter", "appear", "reject", "first", "end", "pass"])
    at, salt, seen = rng.choice([1, 2, 3, 5, 8, 15, 30, 60]), rng.random(), {}
    def h(p): return random.Random("%s/%s" % (salt, p)).random()
    def b(n, p, s):
        if len(p) > 24: return ("end", "p")
        end, bad = s[0] == "end", s[0] == "end" and s[1][0] == "f"
        if kind == "vanish": return ("end", "p") if bad and n > at else s            # failures stop happening
        if kind == "once":                                                          # an example only fails the first time(s) it runs
            if bad:
                seen[p] = seen.get(p, 0) + 1
                if seen[p] > 1 + at // 8: return ("end", "p")
            return s
        if kind == "other": return ("end", "f6") if bad and n > at else s            # another failure instead
        if kind == "parity": return ("end", "p") if bad and n % 2 else s
        if kind == "range": return (("draw", s[1] + 1) if not end and n > at and h(p) < .3 else s)
        if kind == "longer": return ("draw", prog.k) if end and n > at and h(p) < .4 and len(p) < 9 else s
        if kind == "shorter": return ("end", "p") if p and n > at and h(p) < .2 else s
        if kind == "appear": return ("end", "f1") if end and n > at and h(p) < .5 else s
        if kind == "reject": return ("end", "r") if end and n > at and h(p) < .5 else s
        if kind == "first": return ("draw", s[1] + 1) if not p and not end and n > at else s
        if kind == "end": return ("end", random.Random("%s/%s/%s" % (salt, p, n)).choice(["p", "p", "r", "f1", "f2"])) if end and h(p) < .5 else s
        return ("end", "p") if bad and h((p, n)) < .3 else s
    b.kind = kind
    return b

def job(rng, rec):
    db = engine.DB(rec) if rng.random() < .5 else None
    for _ in range(100):
        prog = rng.choice([enginecheck.weighted(p=4, r=1, f=2), enginecheck.weighted(p=4, r=1, f=2), enginecheck.weighted(p=20, r=2, f=2), enginecheck.weighted(p=1, r=1), engine.listy, engine.pair])(rng)
        if prog.k < 31000: break
    for r in range(rng.randint(1, 2)):
        engine.run(prog, rec, db, {"max": rng.choice([5, 20, 50]), "multi": rng.random() < .65, "phases": rng.choice([enginecheck.FULL] * 3 + [["reuse", "generate"], ["reuse", "generate", "shrink", "explain"], ["reuse", "shrink"]])}, rng.randrange(10 ** 6), behave=behaviour(rng, prog))

def run(c):
    c.model("MCFlaky", "SPECIFICATION Spec\nCONSTANTS MaxCalls = %d\nINVARIANTS NeverClean NotPlain Carried\nCHECK_DEADLOCK FALSE\n" % (6 if vf.THOROUGH else 5), workers=4)
    enginecheck.check(c, "E08", job, 450)
