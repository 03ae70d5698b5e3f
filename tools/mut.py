#!/usr/bin/env python3
"""Regression of the checks against small edits.  tools/mutants/Cxx.py holds M(name, expect, file, old, new) entries;
expect is 'V' (violation) or 'Q' (quiet).  Usage: mut.py C22 [name...]"""
import os, subprocess, sys, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutrepo.%s" % sys.argv[1]


def main():
    pid = sys.argv[1]
    only = set(sys.argv[2:])
    ms = []

    def M(name, expect, *edits, check=None):
        ms.append((name, expect, edits, check or pid))
    exec(open(os.path.join(V, "tools", "mutants", pid + ".py")).read(), {"M": M})
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", "/repo/", W + "/"], check=True) if shutil.which("rsync") else \
        (shutil.rmtree(W, ignore_errors=True), subprocess.run("mkdir -p %s && cd /repo && tar cf - --exclude=_build --exclude=.git . | tar xf - -C %s" % (W, W), shell=True, check=True))
    bad = 0
    for name, expect, edits, chk in ms:
        if only and name not in only:
            continue
        orig = {}
        ok = True
        for f, old, new in edits:
            p = os.path.join(W, f)
            s = open(p).read()
            orig.setdefault(p, s)
            if s.count(old) < 1:
                print("?? %s: text not found in %s: %r" % (name, f, old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if ok:
            r = subprocess.run([sys.executable, os.path.join(V, "check.py"), chk], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PSI_REPO=W, PSI_EVIDENCE="/tmp/mut-evidence"))
            got = {0: "Q", 1: "V"}.get(r.returncode, "E")
            flag = "ok " if got == expect else "BAD"
            if got != expect:
                bad += 1
            print("%s %-40s expect %s got %s" % (flag, name, expect, got))
            if got != expect or only:
                print("    " + "\n    ".join(r.stdout.strip().splitlines()[-4:]))
        for p, s in orig.items():
            open(p, "w").write(s)
    shutil.rmtree(W, ignore_errors=True)
    print("%d unexpected" % bad)


main()
