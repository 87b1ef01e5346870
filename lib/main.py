import importlib, os, shutil, signal, sys, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import core


def main(pid):
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    ctx = core.Ctx(pid, scratch)
    home = os.getcwd()
    rc = 2
    try:
        mod = importlib.import_module(pid.lower())
        ctx.rule = (mod.__doc__ or "").strip()
        ctx.level = getattr(mod, "LEVEL", "exploration")
        ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        with ctx.guard():
            ctx.watch(signal.SIGPROF)
            signal.setitimer(signal.ITIMER_PROF, 5, 5)
            mod.run(ctx)
        signal.setitimer(signal.ITIMER_PROF, 0, 0)
        rc = ctx.finish()
    except core.Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (pid, e))
        if ctx.viol:
            rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s: harness error" % pid)
        if ctx.viol:
            rc = ctx.finish()
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main(sys.argv[1])
