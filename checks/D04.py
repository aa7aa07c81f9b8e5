"""D04: saved choice sequences round-trip exactly (Codec.tla)."""
import hashlib, math, struct
import vf
from hypothesis.database import choices_from_bytes, choices_to_bytes

INTS = sorted({s * (2 ** b + d) for b in list(range(0, 20)) + [31, 32, 63, 64, 127, 128, 239, 240, 247, 248, 255, 256, 1000, 1016, 1024, 2040, 8192, 130000]
               for d in (-1, 0, 1) for s in (1, -1)} | {0})
BITS = [0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001,
        0x7ff8dead00000001, 0xfff4000000000000, 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x4330000000000000]
SIZES = [0, 1, 2, 7, 8, 29, 30, 31, 32, 33, 63, 64, 126, 127, 128, 129, 255, 256, 300, 1000, 16383, 16384, 16385, 70000]


def canon(cs):
    if cs is None: return "none"
    out = []
    for c in cs:
        if type(c) is bool: out.append("b%d" % c)
        elif type(c) is int: out.append("i%x" % c)
        elif type(c) is float: out.append("f" + struct.pack("!d", c).hex())
        elif type(c) is bytes: out.append("y" + c.hex())
        elif type(c) is str: out.append("s" + c.encode("utf-8", "surrogatepass").hex())
        else: out.append("?" + repr(c))
    s = "[" + ",".join(out) + "]"
    return s if len(s) < 200 else "#" + hashlib.sha256(s.encode()).hexdigest()


def name(b):
    return b.hex() if len(b) < 100 else "#" + hashlib.sha256(b).hexdigest()


def choice(rng):
    k = rng.choice("biiffys")
    if k == "b": return rng.random() < 0.5
    if k == "i": return rng.choice(INTS) if rng.random() < 0.7 else rng.getrandbits(rng.randint(1, 300)) * rng.choice([1, -1])
    if k == "f":
        bits = rng.choice(BITS) if rng.random() < 0.5 else rng.getrandbits(64)
        return struct.unpack("!d", bits.to_bytes(8, "big"))[0]
    n = rng.choice(SIZES[:18]) if rng.random() < 0.9 else rng.choice(SIZES)
    if k == "y": return bytes(rng.choice([0, 1, 31, 32, 64, 127, 128, 255]) for _ in range(n))
    return "".join(rng.choice("a\0\x7f\x80\u07ff\u0800\ud800\udfff\uffff\U00010000\U0010ffff") for _ in range(n))


def record(ev, cs):
    try: b = bytes(choices_to_bytes(cs))
    except Exception as e: ev.append({"op": "error", "x": canon(cs), "msg": repr(e)}); return None
    ev.append({"op": "enc", "x": canon(cs), "b": name(b)})
    read(ev, b)
    return b


def read(ev, b):
    proper = True
    try:
        r = choices_from_bytes(b)
        x = canon(r)
        proper = r is None or (isinstance(r, tuple) and "?" not in x)
    except Exception as e: r, x = None, "error"
    ev.append({"op": "dec", "x": x, "b": name(b), "proper": proper})
    return r


def run(c):
    big = vf.THOROUGH
    c.model("Codec", """SPECIFICATION Spec
CONSTANTS Short = 3 Base = 2 MaxInt = %d MaxLen = %d JunkLen = 3
INVARIANTS RoundTrip PrefixFree
CHECK_DEADLOCK FALSE
""" % ((70, 6) if big else (40, 4)), workers=4)
    rng, traces = c.rng, []
    ev = []
    for x in INTS + [True, False] + [struct.unpack("!d", b.to_bytes(8, "big"))[0] for b in BITS]:
        record(ev, (x,))
    for n in SIZES:
        for v in (b"\0" * n, b"\xff" * n, "a" * n, "\0" * n, "\ud800" * (n // 3 + 1)): record(ev, (v,))
    traces.append({"id": "boundaries", "ev": ev})
    lim = 35000 if big else 1000
    for lo in range(-lim, lim, 500):
        ev = []
        for x in range(lo, lo + 500): record(ev, (x,))
        traces.append({"id": "ints%d" % lo, "ev": ev})
    for i in range(400 if big else 40):
        ev = []
        for _ in range(40):
            cs = tuple(choice(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 10])))
            b = record(ev, cs)
            if b is None: continue
            # the same prefix cut, extended, bit-flipped: anything may be in a database
            for _ in range(3):
                j = bytearray(b)
                w = rng.randint(0, 3)
                if w == 0: j = j[:rng.randint(0, len(j))]
                elif w == 1: j += bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 4)))
                elif j: j[rng.randrange(len(j))] ^= 1 << rng.randrange(8)
                if rng.random() < 0.3: j = bytearray(rng.choice([0, 1, 31, 32, 63, 64, 95, 96, 127, 128, 159, 160, 191, 192, 224, 255]) for _ in range(rng.randint(1, 12)))
                r = read(ev, bytes(j))
                if r is not None: record(ev, r)
        traces.append({"id": "random%d" % i, "ev": ev})
    c.judge("CodecTrace", traces)
    c.counts["events"] = sum(len(t["ev"]) for t in traces)
    c.sample({"events": traces[1]["ev"][:4]})
