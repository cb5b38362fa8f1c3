#!/usr/bin/env python3
"""seed.py ID [CHECK..]: confirm a planted bug in /repo and run checks against it; always restores /repo.
   --nodemo / --notest skip parts"""
import json, os, shutil, subprocess, sys, tempfile
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
sid, checks = args[0], args[1:]
d = "/verif/seeded/" + sid
if not checks:
    checks = [json.load(open(d + "/meta.json"))["property"]]
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
def demo():
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + "/x")
    for f in os.listdir(t + "/x"):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(t + "/x/" + f)
    r = sh("timeout 300 bash %s/x/demo.sh" % t, cwd="/repo")
    shutil.rmtree(t)
    return r
ok = True
if "--nodemo" not in flags and "--notest" not in flags:
    sh("bash /opt/vp/build.sh")
    r = demo()
    print("demo unchanged:", r.returncode, r.stdout[-300:] if r.returncode else "")
    ok &= r.returncode == 0
try:
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        sys.exit("patch does not apply: " + r.stdout)
    if "--notest" not in flags:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(r.stdout[-3000:]); sys.exit("does not build")
        r = demo()
        print("demo patched:", r.returncode, r.stdout[-200:])
        ok &= r.returncode != 0
        sh("bash /opt/vp/test.sh /tmp/seedt.json")
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t = set(json.load(open("/tmp/seedt.json"))["passed"])
        print("tests missing:", sorted(b - t)[:8])
        ok &= not (b - t)
    for c in checks:
        r = sh("MON_EVIDENCE=/tmp/seedev timeout 900 bash /verif/check.sh %s quick" % c)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  job")]
        print("check", c, "->", r.returncode, "\n".join(x[:300] for x in v[:4]) if v else r.stdout[-600:])
finally:
    sh("git -C /repo checkout -- .")
    if "--notest" not in flags:
        sh("bash /opt/vp/build.sh")
print("counts:", ok)
