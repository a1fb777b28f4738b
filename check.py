#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree"""
import os
import sys

VT = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(VT) and (os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") or os.environ.get("PYTHONHASHSEED") != "0"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import core
    import checks
    return checks.main(pid, tier, seed)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def run():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException as e:
            import traceback
            tb = traceback.format_exc()
            sys.stderr.write(tb[-4000:])
            rc.append(2)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc[0] if rc and isinstance(rc[0], int) else 2)
