#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree."""
import importlib, os, signal, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
import registry


def known_findings(pid):
    p = os.path.join(vp.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(ln.strip())
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vp.Ctx(pid, tier, seed)
    ctx.known = known_findings(pid)
    mod, fn, level = registry.CHECKS[pid]
    rc = 0
    try:
        getattr(importlib.import_module(mod), fn)(ctx)
        ctx.finish(level, True)
        for k in ctx.known_hits:
            print(k)
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (pid, ctx.states, ctx.traces, ctx.samples,
                                                                        time.time() - ctx.t0))
    except vp.Violation as v:
        replay = vp.write_replay(pid, v)
        ctx.finish(level, False, [v.what])
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        rc = 1
    except vp.Inconclusive as v:
        print("INCONCLUSIVE property=%s\n%s" % (pid, v))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        ctx.cleanup()
    return rc


if __name__ == "__main__":
    sys.exit(main())
