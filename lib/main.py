import importlib.util, os, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

def main():
    pid = sys.argv[1]
    sys.pycache_prefix = os.path.join(vf.scratch(), "pyc")
    os.environ["HOME"] = vf.scratch()
    os.chdir(vf.scratch("cwd"))
    c = vf.Check(pid)
    def late(sig, frame):
        stack = traceback.format_stack(frame)
        if any("/src/hypothesis/" in x for x in stack):
            c.violation("no-termination", "the code under test was still running after many times the time the whole check takes", {"stack": stack})
            rc = c.finish()
        else: print("MACHINERY ERROR in %s: out of time" % pid, file=sys.stderr); rc = 2
        sys.stdout.flush(); os._exit(rc)
    if not vf.THOROUGH:
        signal.signal(signal.SIGALRM, late); signal.alarm(780)
    try:
        spec = importlib.util.spec_from_file_location("chk_" + pid, os.path.join(vf.VERIF, "checks", pid + ".py"))
        mod = importlib.util.module_from_spec(spec)
        sys.modules["chk_" + pid] = mod
        spec.loader.exec_module(mod)
        mod.run(c)
    except vf.MachineryError as e:
        print("MACHINERY ERROR in %s: %s" % (pid, e), file=sys.stderr)
        if not c.violations: return 2
    except KeyboardInterrupt: raise
    except vf.WorkerError as e:
        print(e, file=sys.stderr)
        if e.in_repo: c.violation("internal-error:" + e.name, "the code under test: " + str(e)[:300], {"traceback": e.tb})
        elif not c.violations: return 2
    except BaseException as e:
        traceback.print_exc()
        if vf.in_repo_tb(e):
            c.violation("internal-error:" + type(e).__name__, "the code under test raised an unexpected %s: %s" % (
                type(e).__name__, e), {"traceback": traceback.format_exc()})
        elif not c.violations:
            return 2
    return c.finish()

rc = main()
sys.stdout.flush()
sys.exit(rc)
