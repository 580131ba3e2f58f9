#!/usr/bin/env python3
"""Runner of the runtime-monitoring checks.

  check.py C01            decide property C01 on /repo's working tree
  check.py C01 --replay F rerun the violating case stored in F
  check.py --setup        build every monitored binary once (warms the cache)

Exit 0: held on everything observed. Exit 1 and a VIOLATION line: refuted.
Exit 2: the check itself could not decide (build error, nothing observed, ...).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
NOBODY = 65534
CODE = "github.com/ahKevinXy/go-web-tools"
TABLE = json.load(open(os.path.join(VERIF, "checks.json")))


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local",
             GOWORK="off", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


def build(pid, out):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if TABLE[pid].get("race"):
        cmd.append("-race")
    cmd.append("./props/" + pid.lower())
    p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print(f"ERROR: {pid}: the monitored binary does not build")
        sys.exit(2)


def run(pid, binary, scratch, seed, tier, case=None):
    """One monitored execution, as an unprivileged user inside its own scratch directory."""
    work = tempfile.mkdtemp(prefix="run-", dir=scratch)
    os.chmod(work, 0o755)
    os.chown(work, NOBODY, NOBODY)
    out = os.path.join(work, "out.json")
    limit = TABLE[pid].get("limit", 200) * (3 if tier == "thorough" else 1)
    env = {
        "PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": work, "TMPDIR": work, "LANG": "C.UTF-8",
        "VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_OUT": out, "VERIF_WORK": work,
        "GORACE": f"halt_on_error=0 exitcode=0 history_size=3 log_path={work}/race",
        "GOTRACEBACK": "all",
    }
    if case is not None:
        env["VERIF_CASE"] = case
    log = os.path.join(scratch, os.path.basename(work) + ".log")
    with open(log, "wb") as lf:
        p = subprocess.Popen([binary, "-test.run", "^TestProp$", "-test.timeout", f"{limit}s"], cwd=work, env=env,
                             stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             user=NOBODY, group=NOBODY, extra_groups=[], umask=0o022, start_new_session=True)
        try:
            p.wait(limit + 30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGQUIT)
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)  # anything it left behind
    except (ProcessLookupError, PermissionError):
        pass
    with open(log, "rb") as lf:
        lf.seek(0, 2)
        size = lf.tell()
        lf.seek(0)
        text = lf.read(200000)
        if size > 400000:
            lf.seek(-2000000 if size > 2000000 else 0, 2 if size > 2000000 else 0)
            text += b"\n...\n" + lf.read()
    text = text.decode("utf-8", "replace")
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        res = None
    races = []
    for f in sorted(os.listdir(work)):
        if f.startswith("race."):
            races += re.findall(r"WARNING: DATA RACE\n.*?(?=\n==================|\Z)", open(os.path.join(work, f), errors="replace").read(), re.S)
    races += re.findall(r"WARNING: DATA RACE\n.*?(?=\n==================|\Z)", text, re.S)
    return p.returncode, text, res, races


def crash_of(text):
    """The goroutine dump of a crashed or hung run, if the code under test is in it."""
    m = re.search(r"^(panic: |fatal error: |SIGQUIT|runtime: goroutine stack exceeds|MONITOR: )", text, re.M)
    if not m:
        return None, False
    dump = text[m.start():]
    head = dump.split("\n", 1)[0]
    groups = dump.split("\n\n")
    mine = [g for g in groups if CODE in g]
    return head + "\n" + "\n\n".join(mine)[:6000], bool(mine)


def dedupe(races):
    seen, out = set(), []
    for r in races:
        key = tuple(re.findall(re.escape(CODE) + r"[^\s(]*[.(][^\n]*", re.sub(r"0x[0-9a-f]+|:\d+", "", r))[:2])
        if key not in seen:
            seen.add(key)
            out.append(r)
    return out


def last_case(text):
    c = re.findall(r"^CASE (.+)$", text, re.M)
    return c[-1] if c else None


def main():
    if sys.argv[1:] == ["--setup"]:
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for pid in sorted(TABLE):
                build(pid, os.path.join(tmp, "bin"))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("setup ok")
        return 0
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    case = None
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier, case = rep["seed"], rep["tier"], rep["case"]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.chmod(scratch, 0o755)
    try:
        return decide(pid, seed, tier, case, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def deadlocked(text):
    """The goroutines of the code under test that the watchdog saw waiting for
    a lock, and saw there again seconds later, with nothing of ours running
    that could still let it go."""
    both = []
    for dump in text.split("\nMONITOR: ")[1:3]:
        stuck = {}
        for g in dump.split("\n\n"):
            m = re.match(r"\s*goroutine (\d+) [^\[]*\[([^\]]*)\]:", g)
            if not m or "mon.(*M).watch" in g or CODE not in g and "verif/harness" not in g:
                continue
            if re.match(r"(running|runnable|syscall|sleep\b(?! \(durable))", m.group(2)):
                return ""
            if CODE in g and m.group(2).startswith("sync.") and "durable" not in m.group(2):
                stuck[m.group(1)] = g
        both.append(stuck)
    if len(both) < 2:
        return ""
    return "\n\n".join(g for k, g in both[0].items() if k in both[1])


def decide(pid, seed, tier, case, scratch, t0):
    binary = os.path.join(scratch, "check.test")
    build(pid, binary)
    os.chmod(binary, 0o755)
    rc, text, res, races = run(pid, binary, scratch, seed, tier, case)
    found = []  # (what, case, detail)
    for v in (res or {}).get("violations") or []:
        found.append((v["what"], f"{v['group']}:{v['case']}", v.get("trace") or []))
    mine = dedupe([r for r in races if CODE in r])
    for r in mine[:5]:
        found.append(("data race in the code under test", last_case(text), r.split("\n")))
    error = None
    if races and not mine:
        error = "data race inside the harness:\n" + races[0]
    if not found and not (res and res["done"]):
        head, ours = crash_of(text)
        at = last_case(text)
        if head is None:
            error = f"run ended with status {rc} and no result\n" + text[-3000:]
            if at and rc >= 0:  # not killed: something called exit, and the harness never does
                rc2, text2, res2, _ = (rc, text, None, None) if case else run(pid, binary, scratch, seed, tier, at)
                if rc2 >= 0 and not (res2 and (res2["done"] or res2.get("violations"))) and crash_of(text2)[0] is None:
                    error = None
                    found.append((f"the process was ended, with status {rc}, in the middle of the case (twice)", at, text2[-3000:].split("\n")))
        elif not ours:
            error = "run crashed outside the code under test\n" + text[-3000:]
        elif "timed out" in head or "SIGQUIT" in head or "MONITOR: " in head:
            # the watchdog is generous (hundreds of times the usual length of a
            # case); believe it only if the same case hangs again on its own
            if at and case is None:
                rc2, text2, res2, _ = run(pid, binary, scratch, seed, tier, at)
                head2, ours2 = crash_of(text2)
                if (res2 or {}).get("violations"):
                    v = res2["violations"][0]
                    found.append((v["what"], at, v.get("trace") or []))
                elif not (res2 and res2["done"]) and ours2:
                    found.append(("no progress: the workload never finishes (twice)", at, head2.split("\n")))
                elif deadlocked(text):
                    found.append(("deadlock: waiting for a lock with nothing running, long after the case should have ended", at, deadlocked(text).split("\n")))
                else:
                    error = "watchdog fired once but not on the rerun of " + at + "\n" + head
            else:
                found.append(("no progress: the workload never finishes", at, head.split("\n")))
        else:
            found.append(("the process crashed: " + head.split("\n")[0], at, head.split("\n")))
    if not found and not error and case is None:
        if res["evaluations"] <= 0 or res["distinct_nontrivial"] <= 0:
            error = "the monitors observed nothing"

    wall = round(time.time() - t0, 2)
    if res and case is None:
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"],
               "samples": res["samples"] or []}
        cov["observed"] = dict(sorted(res["counters"].items()))
        if TABLE[pid].get("race"):
            cov["observed"]["race_reports"] = len(races)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": TABLE[pid].get("level", "exploration"), "coverage": cov,
              "assumptions": TABLE[pid].get("assumptions", []), "wall_s": wall, "violations": len(found)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    if found:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (what, at, trace) in enumerate(found):
            path = os.path.join(VERIF, "replays", f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, "case": at, "what": what, "trace": trace}, f, indent=1, ensure_ascii=False)
            print(f"{pid} {at}: {what[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if error:
        print(f"ERROR: {pid}: {error}")
        return 2
    print(f"OK {pid}: {res['evaluations']} executions, {res['distinct_nontrivial']} distinct non-trivial, {wall}s; observed {json.dumps(res['counters'])}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
