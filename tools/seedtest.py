#!/usr/bin/env python3
"""Confirms planted bugs in a scratch worktree (stable tests pass, demo fails with and passes without)
and runs the property's check against each in /repo.
usage: seedtest.py [--demo-only|--check-only] ID..."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seed-wt"
args = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(R + "/seeded"))
demo_only, check_only = "--demo-only" in sys.argv, "--check-only" in sys.argv
def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout
if not check_only:
    sh("git -C /repo worktree remove --force " + WT)
    print(sh("git -C /repo worktree add --detach %s HEAD" % WT)[1].splitlines()[-1])
for i in args:
    d = R + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    out = [i, m["property"]]
    if not check_only:
        rc0, o0 = sh("bash %s/demo.sh" % d, cwd=WT)
        rca, oa = sh("git apply %s/patch.diff" % d, cwd=WT)
        rc1, o1 = sh("bash %s/demo.sh" % d, cwd=WT)
        sh("git checkout -- . ", cwd=WT)
        out += ["demo %d/%d apply %d" % (rc0, rc1, rca)]
        if rc0 != 0 or rc1 == 0 or rc1 == 3:
            out += ["BAD DEMO", o0[-1500:], o1[-1500:]]
    if not demo_only:
        rc, o = sh("git -C /repo apply %s/patch.diff" % d)
        b, ob = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.json")
        c, oc = sh("python3-vt %s/check.py %s" % (R, m["property"]))
        sh("git -C /repo checkout -- .")
        v = [l for l in oc.splitlines() if l.startswith("VIOLATION")]
        out += ["build+tests %d %s" % (b, ob.splitlines()[-1] if ob else ""), "check rc %d %s" % (c, "CAUGHT" if c == 1 and v else "MISSED"), "" if c == 1 else oc[-1500:]]
        out += [l for l in oc.splitlines() if "assert" in l.lower() or "panic" in l.lower()][:2]
    print(" | ".join(out), flush=True)
if not check_only:
    sh("git -C /repo worktree remove --force " + WT)
