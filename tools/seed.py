#!/usr/bin/env python3
"""seed.py make NAME...|all : writes seeded/<id>/ from tools/seeds/*.py, confirming build, stable tests and demo both ways (uses /repo; restores it)
   seed.py run NAME...|all  : runs the property's check against each seeded bug on a copy in /tmp"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}


def seed(id, prop, edits, needs, breaks, demo, files=None, stubs=()):
    S[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}, stubs=stubs)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)


for f in sorted(os.listdir(V + "/tools/seeds")):
    if f.endswith(".py"):
        exec(open(V + "/tools/seeds/" + f).read())


def apply(root, s):
    for f, a, b in s["edits"]:
        p = os.path.join(root, f)
        t = open(p).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(p, "w").write(t.replace(a, b))


def make(id):
    s = S[id]
    d = V + "/seeded/" + id
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for n, c in s["files"].items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(c)
    for x in s["stubs"]:
        src = V + "/stubs/" + x
        dst = d + "/stubs/" + x
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(src, dst) if os.path.isdir(src) else shutil.copy(src, dst)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + s["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        apply("/repo", s)
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        o = json.load(open("/tmp/seed_out.json"))
        r1 = sh("cp -r %s /tmp/seed_demo && cd /repo && timeout 300 bash /tmp/seed_demo/demo.sh" % d)
    finally:
        sh("git -C /repo checkout -- .")
    shutil.rmtree("/tmp/seed_demo", ignore_errors=True)
    sh("bash /opt/vp/build.sh")
    r0 = sh("cp -r %s /tmp/seed_demo && cd /repo && timeout 300 bash /tmp/seed_demo/demo.sh" % d)
    shutil.rmtree("/tmp/seed_demo", ignore_errors=True)
    ok = len(o["passed"]) == 2 and r0.returncode == 0 and r1.returncode != 0
    print("%-28s %s tests=%d clean=%d patched=%d" % (id, "ok" if ok else "BAD", len(o["passed"]), r0.returncode, r1.returncode))
    if not ok or "-v" in sys.argv:
        print("   clean:", (r0.stdout + r0.stderr)[-1500:])
        print("   patched:", (r1.stdout + r1.stderr)[-1500:])


def run(id):
    s = S[id]
    t = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s" % t)
        apply(t, s)
        r = sh("cd %s && PSI_REPO=%s PSI_EVIDENCE=%s/ev python3 check.py %s" % (V, t, t, s["prop"]))
        ok = r.returncode == 1 and "VIOLATION property=%s" % s["prop"] in r.stdout
        l = [x for x in r.stdout.splitlines() if "[" in x][:2]
        print("%-28s %s %s rc=%d %s" % (id, s["prop"], "CAUGHT" if ok else "MISSED", r.returncode, " | ".join(l)[:300] if ok else r.stdout[-300:]), flush=True)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    if ids == ["all"]:
        ids = sorted(S)
    for i in ids:
        (make if sys.argv[1] == "make" else run)(i)
