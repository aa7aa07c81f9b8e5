"""V05: character sets (Intervals.tla)."""
import itertools, unicodedata
import vf
from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument
from hypothesis.internal import charmap
from hypothesis.internal.intervalsets import IntervalSet
from hypothesis.strategies._internal.strings import OneCharStringStrategy

MAXC = 0x10FFFF
OPS = {"or": lambda a, b: a | b, "and": lambda a, b: a & b, "sub": lambda a, b: a - b}


def canonical(points):
    out = []
    for p in sorted(points):
        if out and out[-1][1] + 1 >= p: out[-1][1] = p
        else: out.append([p, p])
    return out


def lst(s): return [list(x) for x in s.intervals]


def binary(a, b, op):
    try: r = lst(OPS[op](IntervalSet(a), IntervalSet(b)))
    except Exception as e: return {"op": "error", "msg": repr(e), "a": a, "b": b, "was": op}
    return {"op": op, "a": a, "b": b, "r": r}


def look(a, rng):
    try:
        s = IntervalSet(a)
        n = len(s)
        idx = range(n) if n <= 40 else sorted({0, 1, n - 1, n // 2} | {rng.randrange(n) for _ in range(20)} | {s.index_above(48), min(n - 1, s.index_above(90))} - {n})
        pts = sorted({p for u, v in a for p in (u - 1, u, v, v + 1, (u + v) // 2) if 0 <= p <= MAXC} | {48, 90, 0})
        def index(p):
            try: return s.index(p)
            except ValueError: return -1
        items = [[i, s[i]] for i in idx] + [[n - 1 - i, s[-1 - i]] for i in idx]
        for i in (n, -n - 1):
            try: s[i]; return {"op": "error", "msg": "no IndexError for %d" % i, "a": a}
            except IndexError: pass
        order = []
        for i in idx:
            ch = s.char_in_shrink_order(i)
            order.append([i, ord(ch), s.index_from_char_in_shrink_order(ch)])
        if n <= 40: items += [[i, p] for i, p in enumerate(s)]
        return {"op": "look", "a": a, "size": n, "items": items, "index": [[p, index(p)] for p in pts],
                "above": [[p, s.index_above(p)] for p in pts], "has": [[p, int(p in s)] for p in pts], "order": order}
    except Exception as e: return {"op": "error", "msg": repr(e), "a": a, "was": "look"}


def randset(rng):
    k = rng.random()
    if k < .3: return canonical(p for p in rng.sample(range(40, 100), rng.randint(0, 25)))
    if k < .5: return canonical(p for p in range(44, 95) if rng.random() < rng.choice([.1, .5, .9]))
    return merged(sorted(rng.sample(range(0, MAXC + 1) if k < .8 else range(0, 400), 2 * rng.randint(0, 12))))


def pooled(rng):
    """A set with ends out of a small pool of points, so that two sets share many."""
    return merged([p for p in POOL if rng.random() < rng.choice([.3, .6, .9])])


POOL = sorted({p for q in (1, 48, 91, 128, 256, 0x3000, 0xD800, 0xE000, 0xFFFF, 0x10000, 0x20000, 0xE0100, MAXC - 1) for p in (q - 1, q, q + 1)} | {0x5000, 0x18000, 0x30000, 0x90000})


def merged(cut):
    out = []
    for u, v in zip(cut[::2], cut[1::2]):
        if out and out[-1][1] + 1 >= u: out[-1][1] = v
        else: out.append([u, v])
    return out


def params(rng):
    cats = list(charmap.categories())
    pick = rng.choice([None, [], rng.sample(cats, 1), rng.sample(cats, rng.randint(2, 8)), rng.sample(cats, len(cats) - 1), cats])
    lo = rng.choice([None, 0, 1, 48, 65, 0x80, 0x3000, 0xD800, rng.randint(0, MAXC)])
    hi = rng.choice([None, MAXC, 90, 0x7f, 0xff, 0xDFFF, rng.randint(0, MAXC)])
    if lo is not None and hi is not None and lo > hi: lo, hi = hi, lo
    def chars(): return "".join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x2FF), rng.randint(0, MAXC)])) for _ in range(rng.randint(0, 6)))
    inc, exc = chars(), chars()
    if rng.random() < .3: exc += "".join(rng.sample(inc, min(len(inc), 2)))
    codec = rng.choice([None, None, None, "ascii"] + ["latin-1", "utf-8", "cp1252"] * vf.THOROUGH)
    return [pick, lo, hi, inc, exc, codec and __import__("codecs").lookup(codec).name]


def related(q, rng):
    """Almost the same query: the answers to earlier ones must not leak into it."""
    pick, lo, hi, inc, exc, codec = q
    k = rng.randrange(8)
    if k == 0: inc, exc = exc, inc
    elif k == 1 and inc: inc, exc = inc[1:], exc + inc[0]
    elif k == 2 and exc: inc, exc = inc + exc[0], exc[1:]
    elif k == 3 and pick: pick = pick[:-1]
    elif k == 4 and pick: pick = pick[::-1] + [rng.choice(charmap.categories())]
    elif k == 5: lo, hi = lo, rng.choice([None, lo, 0xffff])
    elif k == 6: lo, hi = rng.choice([None, 0, hi]), hi
    elif k == 7: inc, exc = inc + exc, ""
    if lo is not None and hi is not None and lo > hi: lo, hi = hi, lo
    return [pick, lo, hi, inc, exc, codec]


def query_event(rng, q):
    pick, lo, hi, inc, exc, codec = q
    cats = list(charmap.categories())
    e = {"op": "query", "cats": cats if pick is None else pick, "lo": lo or 0, "hi": MAXC if hi is None else hi,
         "inc": [ord(x) for x in inc], "exc": [ord(x) for x in exc], "codec": codec or ""}
    try:
        try:
            r = OneCharStringStrategy.from_characters_args(codec=codec, min_codepoint=lo, max_codepoint=hi, categories=None if pick is None else tuple(pick),
                                                           exclude_characters=exc, include_characters=inc).intervals.intervals
        except InvalidArgument: r = ()
    except Exception as ex: return {"op": "error", "msg": repr(ex), "was": e}
    e["r"] = [list(x) for x in r]
    pts = {p for u, v in rng.sample(e["r"], min(60, len(e["r"]))) for p in (u - 1, u, v, v + 1)} | set(e["inc"]) | set(e["exc"]) | {rng.randint(0, MAXC) for _ in range(60)}
    pts |= {rng.randint(0, 300) for _ in range(20)} | {0, 48, 90, MAXC, e["lo"], e["hi"], e["lo"] - 1, e["hi"] + 1, 0xD800, 0xDFFF, 127, 128, 255, 256}
    if len(e["r"]) > 390: e["r"] = None     # too long for the checker: drop the canonical-form part below
    def enc(p):
        try: chr(p).encode(codec or "utf-32", "strict" if codec else "surrogatepass"); return 1
        except UnicodeEncodeError: return 0
    pts = sorted(p for p in pts if 0 <= p <= MAXC)
    if e["r"] is None:
        full = [list(x) for x in r]
        lo_i = rng.randrange(len(full) - 300)
        # a window of it: everything outside is ignored
        w = full[lo_i:lo_i + 300]
        pts = [p for p in pts if w[0][0] <= p <= w[-1][1]] + [q for u, v in w[::3] for q in (u - 1, u, v)][1:]
        e["r"] = w
    e["points"] = [[p, unicodedata.category(chr(p)), enc(p)] for p in pts]
    return e


def run(c):
    big = vf.THOROUGH
    c.model("MCIntervals", "SPECIFICATION Spec\nCONSTANT U = %s\nINVARIANTS Algebra ShrinkOrder\nCHECK_DEADLOCK FALSE\n"
            % ("{46,47,48,49,50,89,90,91,92}" if big else "{46,47,48,49,90,91,92}"), workers=4)
    rng, traces = c.rng, []
    U = [46, 47, 48, 49, 89, 90, 91, 92] if big else [46, 47, 48, 90, 91, 92]
    sets = [canonical(x) for r in range(len(U) + 1) for x in itertools.combinations(U, r)]
    evs = [binary(a, b, op) for a in sets for b in sets for op in OPS]
    if not big: evs = rng.sample(evs, 5000)
    U2 = [0, 1, 46, 47, 48, 49, 89, 90, 91, 127, 128]
    evs += [look(canonical(x), rng) for r in range(len(U2) + 1) for x in itertools.combinations(U2, r) if big or r < 3 or rng.random() < .3]
    for _ in range(20000 if big else 900):
        evs.append(binary(randset(rng), randset(rng), rng.choice(list(OPS))))
    for _ in range(10000 if big else 900):
        evs.append(binary(pooled(rng), pooled(rng), rng.choice(list(OPS))))
    for _ in range(5000 if big else 300): evs.append(look(rng.choice([randset, pooled])(rng), rng))
    for _ in range(1500 if big else 150):
        s = "".join(chr(rng.choice([rng.randint(0, 60), rng.randint(0, MAXC)])) for _ in range(rng.randint(0, 12)))
        evs.append({"op": "string", "chars": [ord(x) for x in s], "r": lst(IntervalSet.from_string(s))})
    for _ in range(1000 if big else 90):
        q = params(rng)
        for _ in range(rng.randint(1, 5)): evs.append(query_event(rng, q)); q = related(q, rng)
    rng.shuffle(evs)
    for i in range(0, len(evs), 200): traces.append({"id": "t%d" % (i // 200), "ev": evs[i:i + 200]})
    c.counts["events"] = len(evs)
    c.judge("IntervalsTrace", traces, shards=8 if big else 4)
    c.sample({"events": [e for e in evs if e["op"] == "and"][:3]})
