#!/usr/bin/env python3
"""run_check.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import os, sys, importlib, signal, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if "--tier" in sys.argv:
    os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
sys.set_int_max_str_digits(0)
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, build, run
LIMIT = int(os.environ.get("TG_LIMIT", "780"))  # quick runs only; they need a tenth of it
TABLE = {
    "gcs": "C01 C02 C03 C04 C05 C07 C08",
    "crypto": "C06 C09 C10 C11 C12 C13 C16 C23",
    "hostile": "C14 C15 C29",
    "netl": "C17 C18 C19 C20",
    "files": "C21 C22 C24",
    "tools": "C25 C26 C27",
    "resources": "C30",
    "verilog": "C28", "cells": "C31", "images": "C32",
}


def descendants():
    kids = {}
    for p in filter(str.isdigit, os.listdir("/proc")):
        try: kids.setdefault(int(open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()[1]), []).append(int(p))
        except OSError: pass
    r, todo = [], [os.getpid()]
    while todo:
        k = kids.get(todo.pop(), []); r += k; todo += k
    return r


def main():
    prop = sys.argv[1]
    mod = [m for m, ps in TABLE.items() if prop in ps.split()][0]
    f = getattr(importlib.import_module("checks." + mod), prop)
    ck = check.Check(prop)

    def late(*_):
        # a changed tree can make case after case run into its own limit: what was observed until now is the answer
        for p in descendants():
            try: os.kill(p, 9)
            except OSError: pass
        ck.cov["stopped_early"] = True
        print("stopped after %d s with %d cases judged" % (LIMIT, ck.cov["evaluations"]))
        rc = ck.finish()
        sys.stdout.flush(); os._exit(rc)
    if not ck.thorough:
        signal.signal(signal.SIGALRM, late); signal.alarm(LIMIT)
    try:
        f(ck)
    except run.Stuck as e:
        ck.case(("stuck", e.job.get("id")))
        ck.violation("stuck", str(e), {k: v for k, v in e.job.items()})
    except (build.BuildError, run.HarnessError) as e:
        print("error: %s" % e)
        ck.error = str(e)
        if not ck.viol:
            import shutil; shutil.rmtree(ck.wd, ignore_errors=True)
            return 3
    signal.alarm(0)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
