"""C02: the numbering of choices (ChoiceOrder.tla)."""
import itertools, math, struct
import vf
from hypothesis.errors import ChoiceTooLarge
from hypothesis.internal.conjecture.choice import ChoiceNode, choice_from_index, choice_permitted, choice_to_index
from hypothesis.internal.conjecture.datatree import all_children, compute_max_children
from hypothesis.internal.intervalsets import IntervalSet

NONE = -999999


def f2o(f):
    """ordinal of a float: 0, 1, 2... from +0.0 upwards, -1, -2... from -0.0 downwards"""
    (b,) = struct.unpack("!Q", struct.pack("!d", f))
    return b if b < 1 << 63 else -1 - (b - (1 << 63))


def o2f(o):
    return struct.unpack("!d", struct.pack("!Q", o if o >= 0 else (1 << 63) + (-1 - o)))[0]


def bits(n, k): return [(n >> (k - 1 - i)) & 1 for i in range(k)]


def order(alphabet):
    """characters of an alphabet from the simplest on (as documented: from 0 up to Z, then down from 0, then the rest)"""
    cs = sorted(alphabet)
    z = sum(1 for c in cs if c < "0")
    q = min(sum(1 for c in cs if c < "Z"), len(cs) - 1)
    if z > q: return cs[::-1][len(cs) - 1 - q:] + cs[q + 1:]
    return cs[z:q + 1] + cs[:z][::-1] + cs[q + 1:]


class Dom:
    """a choice type with constraints, and the translation of its values for the specification"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def int_dom(lo, hi, st, base=0, weights=None):
    cons = {"min_value": None if lo is None else lo + base, "max_value": None if hi is None else hi + base, "weights": weights, "shrink_towards": st + base}
    c = {"k": "int", "lo": NONE if lo is None else lo, "hi": NONE if hi is None else hi, "st": st}
    return Dom("integer", cons=cons, c=c, enc=lambda v: int(v) - base, dec=lambda v: v + base)


def bool_dom(p):
    can = "false" if p <= 2.0 ** -64 else "true" if p >= 1 - 2.0 ** -64 else "both"
    return Dom("boolean", cons={"p": p}, c={"k": "bool", "can": can}, enc=int, dec=bool)


def str_dom(alphabet, lo, hi):
    o = order(alphabet)
    rank = {ch: i for i, ch in enumerate(o)}
    cons = {"intervals": IntervalSet.from_string("".join(alphabet)), "min_size": lo, "max_size": hi}
    return Dom("string", cons=cons, c={"k": "seq", "n": len(o), "min": lo, "max": hi},
               enc=lambda v: [rank.get(ch, -1) for ch in v], dec=lambda v: "".join(o[i] for i in v))


def bytes_dom(lo, hi):
    return Dom("bytes", cons={"min_size": lo, "max_size": hi}, c={"k": "seq", "n": 256, "min": lo, "max": hi}, enc=list, dec=bytes)


def guard(f):
    def g(*a):
        try: return f(*a)
        except Exception as e: return {"op": "error", "msg": repr(e), "at": repr([getattr(x, "cons", x) for x in a])[:200]}
    return g


@guard
def ev_index(d, v):
    value = d.dec(v)
    i = choice_to_index(value, d.cons)
    ok = choice_permitted(value, d.cons)
    n = ChoiceNode(type=d.kind, value=value, constraints=d.cons, was_forced=False)
    back = choice_from_index(i, d.kind, d.cons)
    return {"op": "index", "c": d.c, "v": v, "i": i, "ok": int(ok), "back": d.enc(back) if type(back) is type(value) else repr(back), "triv": int(n.trivial)}


@guard
def ev_permitted(d, v):
    return {"op": "permitted", "c": d.c, "v": v, "ok": int(choice_permitted(d.dec(v), d.cons))}


@guard
def ev_from(d, i):
    return {"op": "from", "c": d.c, "i": i, "v": d.enc(choice_from_index(i, d.kind, d.cons))}


@guard
def ev_compare(d, v, w):
    a, b = choice_to_index(d.dec(v), d.cons), choice_to_index(d.dec(w), d.cons)
    return {"op": "compare", "c": d.c, "v": v, "w": w, "cmp": (a > b) - (a < b),
            "back": [d.enc(choice_from_index(a, d.kind, d.cons)), d.enc(choice_from_index(b, d.kind, d.cons))]}


@guard
def ev_children(d):
    return {"op": "children", "c": d.c, "max": compute_max_children(d.kind, d.cons), "all": [d.enc(x) for x in all_children(d.kind, d.cons)]}


ALLF = {"min_value": -math.inf, "max_value": math.inf, "allow_nan": True, "smallest_nonzero_magnitude": 5e-324}


@guard
def ev_float(b):
    f = struct.unpack("!d", struct.pack("!Q", b))[0]
    i = choice_to_index(f, ALLF)
    back = choice_from_index(i, "float", ALLF)
    return {"op": "float", "v": bits(b, 64), "i": bits(i, 65), "back": bits(struct.unpack("!Q", struct.pack("!d", back))[0], 64)}


def float_dom(lo, hi, snm=1, base=0):
    cons = {"min_value": o2f(lo + base), "max_value": o2f(hi + base), "allow_nan": False, "smallest_nonzero_magnitude": o2f(snm) if not base else 5e-324}
    c = {"k": "float", "lo": lo, "hi": hi, "snm": snm if not base else 0}
    return Dom("float", cons=cons, c=c, enc=lambda f: f2o(f) - base, dec=lambda o: o2f(o + base))


def cut(o): return max(-2 ** 30, min(2 ** 30, o))     # far outside is just outside


@guard
def ev_clamped(d, i):
    v = choice_from_index(i, "float", d.cons)
    raw = choice_from_index(i, "float", ALLF)
    nan = v != v
    return {"op": "clamped", "c": d.c, "v": 2 ** 30 if nan else cut(d.enc(v)), "raw": 2 ** 30 if raw != raw else cut(d.enc(raw))}


def run(c):
    big, rng = vf.THOROUGH, c.rng
    c.model("MCChoiceOrder", "SPECIFICATION Spec\nCONSTANTS R = %d E = 4 M = %d W = 6\nINVARIANTS IntGood SeqGood FloatGood\nCHECK_DEADLOCK FALSE\n"
            % ((6, 4) if big else (4, 3)), workers=4)
    evs = []
    # integers: every small bound and target, also far away from zero, and with weights
    R = 6 if big else 4
    bounds = [None] + list(range(-R, R + 1))
    for lo in bounds:
        for hi in bounds:
            if lo is not None and hi is not None and lo > hi: continue
            for st in range(-R - 2, R + 3):
                if not big and rng.random() < .5: continue
                base = rng.choice([0, 0, 2 ** 63, -2 ** 64 + 1, 10 ** 30, 255])
                w = None
                if lo is not None and hi is not None and rng.random() < .3: w = {lo + base: .2, hi + base: .3}
                d = int_dom(lo, hi, st, base, w)
                a = max(lo if lo is not None else -99, min(st, hi if hi is not None else 99))
                ok = [v for v in range(a - 9, a + 10) if (lo is None or v >= lo) and (hi is None or v <= hi)]
                evs += [ev_index(d, v) for v in ok]
                evs += [ev_permitted(d, v) for v in range(-R - 2, R + 3)]
                n = len(ok) if lo is not None and hi is not None and hi - lo < 9 else 9
                evs += [ev_from(d, i) for i in range(min(n, compute_max_children("integer", d.cons)))]
                if lo is not None and hi is not None: evs.append(ev_children(d))
    for _ in range(3000 if big else 300):     # wide ranges
        m = rng.choice([20, 300, 10 ** 6, 10 ** 8])
        x, y, st = sorted(rng.randint(-m, m) for _ in range(2)) + [rng.randint(-m, m)]
        d = int_dom(rng.choice([x, x, None]), rng.choice([y, y, None]), st, rng.choice([0, 2 ** 70, -2 ** 90]))
        for v in {x, y, (x + y) // 2, rng.randint(x, y), min(max(st, x), y)}: evs.append(ev_index(d, v))
        evs += [ev_from(d, i) for i in {0, (y - x) // 2, y - x, rng.randint(0, y - x)}]
    for p in [0, 2.0 ** -65, 2.0 ** -64, 2.0 ** -63, 1e-9, .25, .5, .99, 1 - 2.0 ** -53, 1]:
        d = bool_dom(p)
        evs += [ev_index(d, v) for v in (0, 1) if d.c["can"] == "both" or v == (d.c["can"] == "true")]
        if p in (0, .25, .5, 1): evs += [ev_permitted(d, v) for v in (0, 1)]
        evs.append(ev_children(d))
        evs += [ev_from(d, i) for i in range(compute_max_children("boolean", d.cons))]
    # strings and byte strings
    alphabets = ["", "a", "0", "ab", "01", "/0", "AZ[", "+/09AZ[az", "\x00\x01é", "".join(map(chr, range(40, 100)))]
    for al in alphabets:
        for lo in range(0, 4 if al else 1):
            for hi in range(lo, lo + 4):
                d = str_dom(list(al), lo, hi)
                n = d.c["n"]
                size = 1 if n == 0 else sum(n ** k for k in range(lo, hi + 1))
                if n and n ** hi > 2 ** 30: continue
                words = []
                if size <= 400: words = [list(w) for k in range(lo, hi + 1 if n else 1) for w in itertools.product(range(n), repeat=k)]
                else: words = [[rng.randrange(n) for _ in range(rng.randint(lo, hi))] for _ in range(30)] + [[n - 1] * k for k in range(lo, hi + 1)] + [[0] * k for k in range(lo, hi + 1)]
                if len(words) > 60 and not big: words = rng.sample(words, 60)
                evs += [ev_index(d, w) for w in words]
                evs += [ev_from(d, i) for i in {0, size - 1, size // 2} | {rng.randrange(size) for _ in range(20)}]
                for w in rng.sample(words, min(len(words), 8)):
                    for x in ([], w[1:], w + [0] * (n > 0), w + w): evs.append(ev_permitted(d, x))
                    if n < 50 and w: evs.append(ev_permitted(d, w[:-1]))
                if size <= (2000 if big else 500): evs.append(ev_children(d))
    bd = str_dom(list("0ab"), 0, 3)
    evs.append({"op": "permitted", "c": bd.c, "v": [-1], "ok": int(choice_permitted("z", bd.cons))})
    for lo, hi in [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (2, 3)]:
        d = bytes_dom(lo, hi)
        words = [[rng.randrange(256) for _ in range(rng.randint(lo, hi))] for _ in range(150)] + [[v] * k for k in range(lo, hi + 1) for v in (0, 1, 255)]
        evs += [ev_index(d, w) for w in words if len(w) < 4]
        evs += [ev_permitted(d, w) for w in [[0] * k for k in range(5)]]
        size = sum(256 ** k for k in range(lo, hi + 1))
        evs += [ev_from(d, i) for i in {0, size - 1} | {rng.randrange(size) for _ in range(60)}]
        if size < 300: evs.append(ev_children(d))
    for _ in range(4000 if big else 400):     # long ones: compare only
        k = rng.choice([5, 20, 60, 300])
        d = bytes_dom(rng.choice([0, 3]), 2000) if rng.random() < .5 else str_dom([chr(x) for x in rng.sample(range(0x3000), rng.choice([2, 3, 10, 150]))], rng.choice([0, 2]), 2000)
        n = d.c["n"]
        def word(): return [rng.choice([0, n - 1, rng.randrange(n)]) for _ in range(rng.choice([k, k, k + 1, 3, rng.randint(3, k)]))]
        v = word()
        w = rng.choice([word, lambda: v[:-1] + [rng.randrange(n)], lambda: [rng.randrange(n)] + v[1:], lambda: v + [0], lambda: [n - 1] * len(v), lambda: [0] * (len(v) + 1), lambda: list(v)])()
        evs.append(ev_compare(d, v, w))
    # floats
    specials = [0, 1, 2, 0x7FF << 52, (0x7FF << 52) - 1, (0x7FF << 52) + 1, (0x7FF8 << 48), 1 << 52, (1 << 52) - 1, (1 << 63) - 1]
    fl = [0.5, 1.0, 1.5, 2.0, 3.0, 1 / 3, .1, 2.0 ** 52, 2.0 ** 53, 2.0 ** 54, 2.0 ** 55, 2.0 ** 56, 2.0 ** 56 - 8, 2.0 ** 57, 1e300, 255.0, 1e-300, 3.5, 1000000.25]
    pats = set(specials) | {struct.unpack("!Q", struct.pack("!d", x))[0] for x in fl}
    for _ in range(6000 if big else 500):
        pats.add(rng.getrandbits(63))
        pats.add(struct.unpack("!Q", struct.pack("!d", rng.randint(0, 2 ** rng.randint(1, 60)) / 2 ** rng.randint(0, 30)))[0])
        pats.add(struct.unpack("!Q", struct.pack("!d", float(rng.randint(0, 2 ** rng.randint(1, 60)))))[0])
    for b in sorted(pats): evs += [ev_float(b), ev_float(b | 1 << 63)]
    for lo in range(-4, 4):
        for hi in range(lo, 4):
            for snm in (1, 2, 3, 6):
                d = float_dom(lo, hi, snm)
                if not any(x in (0, -1) or (x if x >= 0 else -1 - x) >= snm for x in range(lo, hi + 1)): continue
                evs.append(ev_children(d))
                evs += [ev_permitted(d, o) for o in range(-6, 6)]
                for _ in range(4): evs.append(ev_clamped(d, rng.choice([rng.getrandbits(65), rng.getrandbits(10), 1 << 64 | rng.getrandbits(64), choice_to_index(o2f(rng.randint(-5, 5)), ALLF)])))
    for _ in range(2000 if big else 250):
        f = rng.choice([1.0, -1.0, 1.5, 2.0 ** 56, .1, 1e308, 3.0, -2.0, 1e-310])
        base = f2o(f) + rng.randint(-30, 30)
        lo = rng.randint(-20, 10)
        d = float_dom(lo, rng.randint(lo, 25), 1, base)
        if rng.random() < .3: evs.append(ev_children(d))
        for _ in range(4): evs.append(ev_clamped(d, rng.choice([rng.getrandbits(65), rng.getrandbits(5), choice_to_index(d.dec(rng.randint(-25, 30)), ALLF)])))
    rng.shuffle(evs)
    traces = [{"id": "t%d" % (i // 250), "ev": evs[i:i + 250]} for i in range(0, len(evs), 250)]
    c.counts["events"] = len(evs)
    for e in evs: c.counts[e["op"]] += 1
    c.judge("ChoiceOrderTrace", traces, shards=8 if big else 4)
    c.sample({"events": [e for e in evs if e["op"] == "index"][:4]})
    c.assumptions.append("Indices of semi-bounded and unbounded integers and of very large string spaces are compared, not counted; the enumeration of children is only checked for spaces of up to 2000.")
