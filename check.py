#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from the current source of /repo.

Exit 0: every obligation of the property's rules was discharged on the analysed program.
Exit 1: VIOLATION lines name the constructs that break a rule.  Exit 2: /repo cannot be analysed (does not compile)."""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(100000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or "quick"
    t0 = time.time()
    import dump
    try:
        d, info = dump.ensure()
    except dump.DumpError as e:
        print(f"cannot analyse /repo: {e}")
        return 2
    import mir
    import cx as cxm
    P = mir.Prog(d)
    cx = cxm.Cx(P, a.id, tier, info)
    mod = importlib.import_module("rules." + a.id.lower())
    cx.run_rule(mod)
    return cx.finish(t0, HERE, verbose=a.v)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(main())
        except BaseException:
            traceback.print_exc()
            rc.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
