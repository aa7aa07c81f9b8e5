"""Enumerate all executions of a strategy over small choice spaces, through a provider that follows a script."""
import contextlib, random
from hypothesis.control import BuildContext
from hypothesis.errors import HypothesisException, StopTest, UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.providers import PrimitiveProvider


class Scripted(PrimitiveProvider):
    def __init__(self, data, /, *, script=(), rng=None, limit=200, wide=9, probes=()):
        super().__init__(data)
        self.script, self.rng, self.limit, self.wide = script, rng, limit, wide
        self.probes = probes
        self.path, self.partial = [], False

    def pick(self, options):
        n, i = len(options), len(self.path)
        if i >= self.limit: self._cd.mark_overrun()
        k = self.script[i] if i < len(self.script) else (self.rng.randrange(n) if self.rng else 0)
        self.path.append((k, n))
        return options[k]

    def draw_boolean(self, p=0.5):
        return self.pick([False] if p <= 2 ** -64 else [True] if p >= 1 - 2 ** -64 else [False, True])

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        if min_value is not None and max_value is not None and max_value - min_value < self.wide:
            return self.pick(list(range(min_value, max_value + 1)))
        self.partial = True
        c = [shrink_towards, 0, 1, -1, 2, 5, -7, 100, 1000, -1000, 2 ** 20, 2 ** 70, -2 ** 70, min_value, max_value]
        if min_value is not None: c += [min_value + 1, min_value + 7, min_value + 300]
        if max_value is not None: c += [max_value - 1, max_value - 7]
        if min_value is not None and max_value is not None: c += [(min_value + max_value) // 2]
        if self.rng: c += [self.rng.randint(-50, 50), self.rng.randint(min_value if min_value is not None else -10 ** 6, max_value if max_value is not None else 10 ** 6)
                           if (min_value is None or min_value <= 10 ** 6) and (max_value is None or max_value >= -10 ** 6) else 0]
        c += [x for x in self.probes if isinstance(x, int)]
        c = list(dict.fromkeys(int(x) for x in c if x is not None and (min_value is None or x >= min_value) and (max_value is None or x <= max_value)))
        return self.pick(c)

    def draw_float(self, *, min_value, max_value, allow_nan, smallest_nonzero_magnitude):
        from hypothesis.internal.conjecture.choice import choice_permitted
        self.partial = True
        from hypothesis.internal.floats import next_down, next_up
        c = [0.0, -0.0, 1.0, -1.0, .5, 1.5, 2.0, 3.0, -2.5, 1e10, -1e10, 1e308, float("inf"), -float("inf"), float("nan"), 5e-324, 2.3e-308,
             min_value, max_value, next_up(min_value), next_down(max_value), (min_value + max_value) / 2, smallest_nonzero_magnitude, -smallest_nonzero_magnitude]
        c += [x for x in self.probes if isinstance(x, float)]
        k = dict(min_value=min_value, max_value=max_value, allow_nan=allow_nan, smallest_nonzero_magnitude=smallest_nonzero_magnitude)
        c = [x for x in c if choice_permitted(x, k)]
        if not c: raise AssertionError("no permitted float in %r" % (k,))
        return self.pick(c)

    def _sequence(self, letters, min_size, max_size):
        if len(letters) > 4: self.partial = True; letters = letters[:3] + letters[-1:]
        if max_size - min_size > 3: self.partial = True; max_size = min_size + 3
        n = self.pick(list(range(min_size, max_size + 1)))
        return [self.pick(letters) for _ in range(n)] if letters else []

    def draw_string(self, intervals, *, min_size=0, max_size=10 ** 10):
        if not len(intervals): max_size = 0
        letters = [intervals[i] for i in range(min(len(intervals), 4))] + ([intervals[-1]] if len(intervals) > 4 else [])
        return "".join(map(chr, self._sequence(letters, min_size, max_size)))

    def draw_bytes(self, min_size=0, max_size=10 ** 10):
        self.partial = True
        return bytes(self._sequence([0, 1, 255], min_size, max_size))


class Outcome:
    __slots__ = ("status", "value", "error", "path", "partial", "data")


def execute(strategy, script=(), rng=None, limit=200, wide=9, fn=None, probes=()):
    """One execution; status is "ok", "invalid", "overrun" or "error"."""
    o = Outcome()
    o.value = o.error = None
    data = ConjectureData(random=random.Random(0), provider=Scripted, provider_kw={"script": script, "rng": rng, "limit": limit, "wide": wide, "probes": probes})
    try:
        with BuildContext(data, is_final=False):
            o.value = fn(data) if fn else data.draw(strategy)
        o.status = "ok"
    except StopTest: o.status = "invalid" if data.status is Status.INVALID else "overrun"
    except UnsatisfiedAssumption: o.status = "invalid"
    except RecursionError as e: o.status, o.error = "error", e
    except Exception as e: o.status, o.error = "error", e
    o.path, o.partial, o.data = data.provider.path, data.provider.partial, data
    return o


def explore(strategy, max_paths=2000, rng=None, limit=60, wide=9, extra=0, fn=None, probes=()):
    """Yield outcomes of all executions in order (at most max_paths), then of `extra` random ones.
    The generator returns True if the enumeration was exhaustive."""
    script, n, exhausted = [], 0, False
    while n < max_paths:
        o = execute(strategy, script, None, limit, wide, fn, probes)
        n += 1
        yield o
        p = o.path
        while p and p[-1][0] + 1 >= p[-1][1]: p.pop()
        if not p: exhausted = True; break
        script = [k for k, _ in p[:-1]] + [p[-1][0] + 1]
    if not exhausted and rng:
        for _ in range(extra): yield execute(strategy, (), rng, limit, wide, fn, probes)
    return exhausted


def outcomes(strategy, **kw):
    """(list of outcomes, exhaustive?) - exhaustive means every choice sequence of the strategy was executed."""
    g, out = explore(strategy, **kw), []
    while True:
        try: out.append(next(g))
        except StopIteration as e: return out, bool(e.value) and not any(o.partial or o.status == "overrun" for o in out)


def sweep(strategy, depth=2, most=400, **kw):
    """Outcomes of the executions that differ in their first `depth` choices (the others are the first option)."""
    out, todo = [], [()]
    for _ in range(depth):
        nxt = []
        for s in todo:
            o = execute(strategy, s, **kw)
            n = o.path[len(s)][1] if len(o.path) > len(s) else 0
            if not n: out.append(o)
            nxt += [s + (k,) for k in range(n)]
        todo = nxt[:most]
    return out + [execute(strategy, s, **kw) for s in todo]


def where(e):
    import traceback
    f = traceback.extract_tb(e.__traceback__)[-1]
    return "%r at %s:%s" % (e, f.filename.rpartition("/")[2], f.name)
