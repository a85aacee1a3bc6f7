#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough] [--repo /repo]: static check of one property on the current source."""
import argparse, importlib, os, sys, traceback
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only", nargs="*")
    a = ap.parse_args()
    from sa.framework import Check, finish
    from sa.loader import AnalysisError
    mod = importlib.import_module("checks." + a.property.lower())
    seed = int(os.environ.get("VERIF_SEED") or 1)
    try:
        ck = Check(a.property, a.repo, a.tier, seed)
        ck.only = a.only
        mod.run(ck)
        return finish(ck, mod.LEVEL, mod.TECHNIQUE, mod.EXPLANATION, getattr(mod, "ASSUMPTIONS", []), 0 if a.only else mod.FLOOR)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={a.property}: {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={a.property}: {e}")
        return 2


if __name__ == "__main__":
    rc = []
    def run():
        try: rc.append(main())
        except SystemExit as e: rc.append(e.code)
        except BaseException:
            traceback.print_exc(); rc.append(3)
    t = threading.Thread(target=run); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
