#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and runs its property's check against it.
usage: trybug.py ID... [--nocheck] [--nobuild]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, cwd="/", env=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def one(i):
    d = V + "/seeded/" + i
    w = "/tmp/bug_" + i
    meta = json.load(open(d + "/meta.json"))
    shutil.rmtree(w, ignore_errors=True)
    sh("mkdir %s && git -C /repo archive HEAD | tar x -C %s" % (w, w))
    ok = True
    try:
        r = sh("bash %s/demo.sh" % d, "/repo")
        if r.returncode:
            print(i, "demo fails on the unchanged tree:", r.stdout[-600:]); ok = False
        r = sh("patch -p1 < %s/patch.diff" % d, w)
        if r.returncode:
            print(i, "patch does not apply", r.stdout); return False
        r = sh("bash %s/demo.sh" % d, w)
        if r.returncode == 0:
            print(i, "demo passes with the patch"); ok = False
        elif "--v" in sys.argv: print(r.stdout[-500:])
        if "--nobuild" not in sys.argv:
            b = open("/opt/vp/build.sh").read().replace("/repo", w)
            t = open("/opt/vp/test.sh").read().replace("/repo", w).replace("/opt/vp/build.sh", w + "/.b.sh")
            open(w + "/.b.sh", "w").write(b); open(w + "/.t.sh", "w").write(t)
            r = sh("bash %s/.t.sh %s/.out.json" % (w, w))
            try:
                o = json.load(open(w + "/.out.json"))
            except Exception:
                o = {"passed": []}
            lost = base - set(o["passed"])
            if lost:
                print(i, "tests lost:", sorted(lost)[:5], r.stdout[-300:] if len(lost) > 20 else ""); ok = False
        if "--nocheck" not in sys.argv:
            e = dict(os.environ, SIMU_REPO=w, SX_EVIDENCE="/tmp/ev_" + i)
            r = sh("timeout 890 python3 %s/check.py %s --tier quick" % (V, meta["property"]), env=e)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, meta["property"], "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", [l for l in r.stdout.splitlines() if "viol" in l.lower()][:3])
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(i, "valid" if ok else "NOT VALID")
    return ok


for a in sys.argv[1:]:
    if not a.startswith("--"):
        one(a)
