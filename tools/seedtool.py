#!/usr/bin/env python3
"""seedtool.py verify ID... | check ID... | all : planted bugs against the build, the tests, their demonstration and the checks."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd="/repo", t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def tests_ok():
    rc, o = sh("bash /opt/vp/build.sh")
    if rc: return "build failed: " + o[-1500:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = "/tmp/seedtest.json"
    sh("bash /opt/vp/test.sh " + out)
    t = open(out).read(); d = json.loads(t)
    want = base.get("stable") or base.get("passed") or base
    passed = d.get("passed") or d
    miss = [x for x in want if x not in passed]
    return "tests failing: %s" % miss if miss else None
def demo(i):
    d = tempfile.mkdtemp(prefix="seeddemo"); p = d + "/x"
    shutil.copytree("%s/seeded/%s" % (V, i), p, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try: return sh("bash %s/demo.sh" % p, t=300)
    finally: shutil.rmtree(d)
def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    if not ids: ids = sorted(os.listdir(V + "/seeded"))
    assert not sh("git status --porcelain")[1].strip(), "dirty /repo"
    for i in ids:
        meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        if mode in ("verify", "all"):
            rc0, o0 = demo(i)
            e = "" if rc0 == 0 else " demo fails on the unchanged tree: " + o0[-800:]
        rc, o = sh("git apply --check %s/seeded/%s/patch.diff" % (V, i))
        if rc: print(i, "patch does not apply", o); continue
        sh("git apply %s/seeded/%s/patch.diff" % (V, i))
        try:
            if mode in ("verify", "all"):
                b = tests_ok()
                if b: e += " " + b
                rc1, o1 = demo(i)
                if rc1 == 0: e += " demo passes with the patch"
                print(i, "verify", "OK" if not e else e, "| demo says:", o1.strip().splitlines()[-1:] , flush=True)
            if mode in ("check", "all"):
                rc, o = sh("VERIF_SEED=%s python3 tools/check.py %s" % (os.environ.get("VERIF_SEED", "1"), meta["property"]), cwd=V)
                print(i, "check", meta["property"], "CAUGHT" if rc == 1 and "VIOLATION property=" + meta["property"] in o else "MISSED rc=%d" % rc, o.strip().splitlines()[-2:], flush=True)
        finally:
            sh("git checkout -- .")
    if mode in ("verify", "all"): sh("bash /opt/vp/build.sh")
main()
