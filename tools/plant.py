#!/usr/bin/env python3
"""Writes, verifies and measures planted bugs (seeded/<id>/).

  plant.py make SPEC.py     write seeded/<id>/ for every entry of PLANTS in SPEC.py and verify it
  plant.py check [ID..]     run the property's check against each planted bug and print who catches what

A SPEC entry: dict(id, property, needs, breaks, pkg, edits=[(file, old, new)..], test="Go test file source", race=bool)
"""
import json, os, subprocess, sys, tempfile, importlib.util
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "plants"))

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ORIGIN = "58da836"

DEMO = """#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
overlay=$(mktemp)
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_planted_demo_test.go" "$here/demo_test.go" >"$overlay"
go test -vet=off -count=1%(race)s -timeout 240s -overlay "$overlay" -run '^TestPlantedDemo$' ./%(pkg)s
rc=$?
unlink "$overlay"
exit $rc
"""


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    assert sh("git", "-C", REPO, "status", "--porcelain").stdout == "", "repo is not clean"


def undo():
    sh("git", "-C", REPO, "checkout", "--", ".")


def original_lines(file):
    out = sh("git", "-C", REPO, "blame", "-s", "--abbrev=10", file).stdout.split("\n")
    return [l.lstrip("^").startswith(ORIGIN) for l in out]


def make(e):
    d = os.path.join(SEEDED, e["id"])
    clean()
    try:
        touched_orig = False
        for file, old, new in e["edits"]:
            p = os.path.join(REPO, file)
            src = open(p).read()
            if src.count(old) != 1:
                return f"{file}: old text occurs {src.count(old)} times"
            open(p, "w").write(src.replace(old, new))
        diff = sh("git", "-C", REPO, "diff").stdout
        undo()
        # which original lines go away?
        import re
        cur, orig = None, None
        mine = 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                cur = l[6:]
                orig = original_lines(cur)
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1)) - 1
            elif l.startswith("-") and not l.startswith("---"):
                if orig[n]:
                    touched_orig = True
                else:
                    mine += 1
                n += 1
            elif l.startswith(" "):
                n += 1
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo_test.go"), "w").write(e["test"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=e["pkg"], race=" -race" if e.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": e["property"], "needs": e["needs"], "what_it_breaks": e["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
        note = "" if touched_orig else " (NO ORIGINAL LINE REMOVED)"
        if mine:
            note += f" ({mine} own lines removed)"
        p = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
        if p.returncode != 0:
            return "demo fails on the unchanged tree\n" + p.stdout[-3000:]
        p = sh("git", "-C", REPO, "apply", os.path.join(d, "patch.diff"))
        if p.returncode:
            return "patch does not apply\n" + p.stdout
        p = sh("bash", "/opt/vp/build.sh")
        if p.returncode:
            return "does not build\n" + p.stdout
        p = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
        if p.returncode == 0:
            return "demo passes with the patch"
        why = [l for l in p.stdout.split("\n") if "demo_test" in l or "panic" in l or "RACE" in l][:1]
        if "build failed" in p.stdout:
            return "demo does not build\n" + p.stdout
        if any(x in diff for x in ("common/limiter/fixed", "common/limiter/leaky", "common/hash")):
            out = tempfile.mktemp()
            sh("bash", "/opt/vp/test.sh", out)
            r = json.load(open(out))
            os.unlink(out)
            passed = set(r.get("passed", []))
            if not STABLE <= passed:
                return "stable tests fail: " + str(STABLE - passed)
        return "ok" + note + " " + " ".join(why)[:160]
    finally:
        undo()


def check(i):
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    clean()
    try:
        p = sh("git", "-C", REPO, "apply", os.path.join(SEEDED, i, "patch.diff"))
        if p.returncode:
            return False, "does not apply"
        p = sh("python3", os.path.join(VERIF, "check.py"), meta["property"], cwd=VERIF)
        caught = p.returncode == 1 and f"VIOLATION property={meta['property']} " in p.stdout
        lines = [l for l in p.stdout.split("\n") if l.strip()]
        return caught, (lines[0][:200] if lines else "")
    finally:
        undo()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            spec = importlib.util.spec_from_file_location("spec", f)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            for e in m.PLANTS:
                print(e["id"], e["property"], make(e), flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for i in ids:
            c, t = check(i)
            print("CAUGHT" if c else "MISSED", i, t, flush=True)
