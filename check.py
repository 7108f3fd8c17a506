#!/usr/bin/python3
"""check.py <property id> [--tier quick|thorough]   decide one property on /repo's working tree."""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import vlib  # noqa: E402
from registry import BUILDS, CHECKS  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.property == "setup":
        try:
            for b in BUILDS:
                b()
        except vlib.CheckError as e:
            print(e)
            return 2
        print(f"built in {time.time() - t0:.1f} s")
        return 0
    spec = CHECKS[a.property]
    os.makedirs(vlib.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"traces_{a.property}_", dir=vlib.BUILD)
    try:
        bad = spec.run(a.property, a.tier, a.seed, work, t0)
    except vlib.CheckError as e:
        print(f"ERROR property={a.property}: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        print(f"ERROR property={a.property}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    print(f"{a.property}: {'ok' if not bad else 'violated'} in {time.time() - t0:.1f} s")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
