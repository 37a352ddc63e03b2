#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property.  VERIF_TIER, VERIF_SEED."""
import importlib, os, subprocess, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import core
    m = importlib.import_module(pid.lower())
    chk = core.Check(pid, getattr(m, "LEVEL", "model_checking"))
    try:
        m.run(chk)
    except core.Misbehaves as x:
        chk.violation("not a behaviour of the specification: %s" % x, {"what": str(x)})
    except subprocess.TimeoutExpired as x:
        # run time of the code under test (TLC's own limit is a TlcError)
        traceback.print_exc()
        chk.violation("does not terminate: %s" % str(x.cmd)[:300], {"cmd": str(x.cmd)})
    except Exception:
        traceback.print_exc()
        if not chk.violations:
            sys.exit(2)          # an error of the check, not a verdict
    chk.finish()


main()
