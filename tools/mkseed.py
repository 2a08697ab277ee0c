#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds/*.py (edits given as old/new text) and confirm each:
   the patch applies, builds, passes the stable tests, its demo passes without and fails with it.
   usage: mkseed.py [ID ...]"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); SEEDED = os.path.join(HERE, "..", "seeded")
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo): SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))): exec(compile(open(f).read(), f, "exec"))
ids = sys.argv[1:]
wt = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for s in SEEDS:
    if ids and s["id"] not in ids: continue
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a /repo %s" % wt)
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=wt).stdout
    d = os.path.join(SEEDED, s["id"])
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(HERE, "seedbase"), d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, DEMO_TARGET="/tmp/demotarget")
    bad = subprocess.run([d + "/demo.sh"], cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    good = subprocess.run([d + "/demo.sh"], cwd="/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # build and stable tests
    assert not sh("git -C /repo status --short").stdout
    sh("git -C /repo apply %s/patch.diff" % os.path.abspath(d))
    b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json")
    sh("git -C /repo checkout -- .")
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]; r = open("/tmp/seedtest.json").read() if b.returncode in (0, 1) else ""
    ok = b.returncode == 0
    print(s["id"], s["prop"], "demo good=%d bad=%d build/tests=%s" % (good.returncode, bad.returncode, "ok" if ok else "FAILED"))
    if good.returncode != 0: print(good.stdout[-3000:])
    if bad.returncode in (0, 3): print(bad.stdout[-3000:])
    if bad.returncode not in (0, 3): print("   ", "\n    ".join(bad.stdout.strip().splitlines()[-3:]))
    if not ok: print(b.stdout[-2000:])
shutil.rmtree(wt, ignore_errors=True)
