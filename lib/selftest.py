"""Validate the engine: run the repository's own unit tests inside pbse."""
import sys, os, glob, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pipeline import *
build_engine()
tot = 0; bad = 0
for t in sorted(glob.glob(REPO + "/tests/*/*/test.c")):
    w = tempfile.mkdtemp(prefix="pbself")
    try:
        bc = build_bc(w, [t], defines=["-Dmain=harness_main"], extra_inc=[HARN + "/selftest"], ndebug=True)
        r = run_engine(bc, w + "/o.json", entry="harness_main", workers=1, timeout=300, opts=["--max-steps=400000000"])
        n = open(t).read().count("tcase_add_test(")
        tot += n
        st = "ok" if not r["errors"] and not r["incomplete"] else "FAIL"
        if st != "ok": bad += 1
        print(st, os.path.relpath(t, REPO), n, "tests", r["steps"], "steps %.2fs" % r["wall"], r["incomplete"], [(e["kind"], e["func"], e["line"], e["msg"], e["trace"][:6]) for e in r["errors"]][:4])
    finally:
        shutil.rmtree(w)
print("tests run in the engine:", tot, "failing suites:", bad)
sys.exit(1 if bad else 0)
