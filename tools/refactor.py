#!/usr/bin/env python3
"""Edits of /repo that keep its behaviour: every check has to stay quiet on them.

  refactor.py [ID..]   apply each in turn, run the stable tests and the checks named (all = every check), undo

Each entry: id -> (checks, [(file, {signature prefix: new source of the function}, [(old, new)..])..])
"""
import os, re, subprocess, sys
REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from refactors import R


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def apply(edits):
    for file, funcs, subs in edits:
        p = os.path.join(REPO, file)
        s = open(p).read()
        for sig, new in funcs.items():
            i = s.index(sig)
            assert s.count(sig) == 1, (file, sig, s.count(sig))
            j = s.index("\n}\n", i) + 3 if "{ return" not in s[i:s.index("\n", i)] else s.index("\n", i) + 1
            s = s[:i] + new.strip("\n") + "\n" + s[j:]
        for old, new in subs:
            assert s.count(old) == 1, (file, old, s.count(old))
            s = s.replace(old, new)
        open(p, "w").write(s)


def main():
    assert sh("git", "-C", REPO, "status", "--porcelain").stdout == ""
    for i in sys.argv[1:] or list(R):
        checks, edits = R[i]
        try:
            apply(edits)
            b = sh("go", "build", "./...", cwd=REPO, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
            if b.returncode:
                print(i, "DOES NOT BUILD\n" + b.stdout)
                continue
            t = sh("bash", "/opt/vp/test.sh", "/tmp/refactor-test.json")
            print(i, "tests", t.returncode, end=" ", flush=True)
            for c in checks.split():
                p = sh("python3", os.path.join(VERIF, "check.py"), c)
                print(c, "quiet" if p.returncode == 0 else "ALARM\n" + p.stdout[:3000], end=" ", flush=True)
            print(flush=True)
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")


main()
