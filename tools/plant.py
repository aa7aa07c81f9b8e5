#!/usr/bin/env python3
"""Work with planted bugs in scratch copies of /repo.
   plant.py new ID PROPERTY   make seeded/ID from the diff of the scratch copy /tmp/wt/new/repo (then resets it); meta/demo to be written
   plant.py demo ID...        run the demo on a clean and on a patched copy
   plant.py check ID...       run the property's quick check against a patched copy (or the properties given as P=ID)
   plant.py test ID...        apply all of them to one copy and run the main tests against the baseline"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")

def copy(patches=()):
    os.makedirs("/tmp/wt", exist_ok=True)
    d = tempfile.mkdtemp(dir="/tmp/wt")
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", r], check=True)
    for i in patches:
        subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=r, check=True)
    return d, r

def env(r): return dict(os.environ, PYTHONPATH=r + "/hypothesis-python/src", PYTHONDONTWRITEBYTECODE="1")

def demo(i):
    out = []
    for p in ((), (i,)):
        d, r = copy(p)
        dd = os.path.join(d, "demo"); shutil.copytree(os.path.join(S, i), dd)
        for x in ("meta.json", "patch.diff"): os.path.exists(os.path.join(dd, x)) and os.remove(os.path.join(dd, x))
        try:
            q = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
            out.append((q.returncode, (q.stdout + q.stderr)[-300:]))
        except subprocess.TimeoutExpired: out.append((124, "timeout"))
        shutil.rmtree(d)
    ok = out[0][0] == 0 and out[1][0] != 0
    return "%s demo %s clean=%s patched=%s" % (i, "OK" if ok else "BAD", out[0], out[1]) if not ok else "%s demo OK (%s)" % (i, out[1][1].strip().splitlines()[-1][:150] if out[1][1].strip() else "")

def check(i):
    pid = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    d, r = copy((i,))
    q = subprocess.run([os.path.join(V, "check"), pid, "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VF_REPO=r))
    shutil.rmtree(d)
    lines = [x for x in q.stdout.splitlines() if "VIOLATION" not in x]
    return "%s check %s rc=%d %s %s" % (i, pid, q.returncode, (lines[0] if lines else "")[:160], q.stderr[-300:] if q.returncode not in (0, 1) else "")

def tests(ids):
    d, r = copy(ids)
    h = r + "/hypothesis-python"
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    cmd = ("/opt/venv/bin/python -bb -X dev -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 -n 6 tests "
           "--ignore=tests/crosshair --ignore=tests/watchdog --ignore=tests/ghostwriter --junitxml=%s/o.xml" % d)
    q = subprocess.run(cmd.split(), cwd=h, env=env(r), capture_output=True, text=True)
    bad = []
    for tc in ET.parse(d + "/o.xml").getroot().iter("testcase"):
        if tc.find("failure") is not None or tc.find("error") is not None:
            n = tc.get("classname") + "::" + tc.get("name")
            bad.append((n in stable, n))
    shutil.rmtree(d)
    return "tests with %s: %s\n%s" % (ids, "OK" if not any(b for b, _ in bad) else "FAIL", "\n".join("  %s %s" % b for b in sorted(bad)[-25:])) + "\n" + q.stdout.strip().splitlines()[-1]

cmd, args = sys.argv[1], sys.argv[2:]
if cmd == "new":
    r = "/tmp/wt/new/repo"
    df = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    assert df
    os.makedirs(os.path.join(S, args[0]), exist_ok=True)
    open(os.path.join(S, args[0], "patch.diff"), "w").write(df)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
elif cmd == "test": print(tests(args))
else:
    if args == ["all"]: args = sorted(os.listdir(S))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for o in ex.map({"demo": demo, "check": check}[cmd], args): print(o, flush=True)
