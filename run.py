#!/usr/bin/env python3
"""run.py PID quick|thorough : runs one check (see DESIGN.md)."""
import os
import shutil
import sys
import traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import core  # noqa
import checks  # noqa


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = core.Check(pid, tier, seed)
    try:
        checks.CHECKS[pid](ck)
        ck.build()
        if os.environ.get("VERIF_VERBOSE"):
            print("built in %.1fs" % ck.build_s)
        ck.run_jobs()
        if os.environ.get("VERIF_VERBOSE"):
            for j in ck.jobs:
                print("  %-28s %6.1fs  ev=%s" % (j.name, j.wall, (j.result or {}).get("evaluations")))
        rc = ck.finish()
        print("%s %s seed=%d: %s, %d evaluations, %d distinct, %.1fs" % (
            pid, tier, seed, "VIOLATED" if rc else "held on what was observed", ck.evaluations, ck.distinct,
            __import__("time").time() - ck.t0))
        return rc
    except core.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
    except core.Harness as e:
        print("ERROR: harness: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(ck.scratch, ignore_errors=True)


sys.exit(main())
