"""E12: explicit examples run first, in order, once, with their own rules; blobs are replayed (Run.tla)."""
import base64, copy, random
import user, usercheck, vf
from hypothesis.core import encode_failure, decode_failure

def weights(rng):
    return dict(explicit=1, xfail=rng.choice([.2, .9]), fail=rng.choice([.1, .35, .6]), fatal=rng.choice([.03, .2]), phases=.3, clean=rng.choice([.1, .5]), cleanfail=.5, runner=.4, setupfail=.4, observe=.3, nested=rng.choice([0, 0, .3]), verbosity=.2)

def blobs(world, P, R, rng):
    """Replay what the run printed, as it was or changed, on this test or on one that has been edited."""
    blob = getattr(R, "blob", None)
    if blob is None:
        if rng.random() < .5: return
        blob = encode_failure([rng.randint(0, 3) for _ in range(rng.randint(1, 3))])
        kinds = ["other"]
    else: kinds = ["exact", "exact", "exact", "other"]
    for _ in range(2):
        Q = copy.deepcopy(P)
        Q["repro"], Q["reprokind"] = (user.__version__, blob), rng.choice(kinds + ["junk", "version"])
        if Q["reprokind"] == "exact":
            last = [e for e in world.log if e["k"] == "body" and e["shown"]]
            if not last or P["verbosity"] != "normal" or P["multi"]: Q["reprokind"] = "other"
            else: Q["repa"] = [last[-1]["a"], last[-1]["b"]]
        if Q["reprokind"] == "version": Q["repro"] = ("0.0.1", blob)
        elif Q["reprokind"] == "junk":
            raw = base64.b64decode(blob)
            Q["repro"] = (user.__version__, rng.choice([b"", b"A", base64.b64encode(b"\x02" + raw[1:]), base64.b64encode(b"\x01" + raw[1:][::-1] + b"\xff"), base64.b64encode(b"\x00\xff\xff\xff"), blob[:-1] if len(blob) % 4 == 0 and blob[-1:] != b"=" else b"A"]))
        elif Q["reprokind"] == "other":
            ch = list(decode_failure(blob))
            for _ in range(rng.randint(0, 2)):
                k = rng.randrange(4)
                if k == 0 and ch: ch.pop()
                elif k == 1: ch.append(rng.choice([0, True, 1.5, "x", b"y"]))
                elif ch: ch[rng.randrange(len(ch))] = rng.choice([0, 1, 2, 3, 5, 13, False, True, 0.5, "a", b"", 10 ** 9])
            Q["repro"] = (user.__version__, encode_failure(ch))
            if rng.random() < .5: rng.choice(Q["rules"])["out"] = rng.choice(["ok", "reject", "f3"])
        user.Run(world, Q).run()

def run(c):
    usercheck.design(c, explicit=2, quick=7)
    usercheck.check(c, "E12", 300, weights, more=blobs)
    c.assumptions += ["an explicit example that is rejected counts as neither failing nor unexpectedly passing", "reproduce_failure leaves explicit examples out"]
