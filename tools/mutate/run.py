#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT WORKERS [SEED]: tries the checks on every mutant, in copies of /repo and /verif under /tmp/mut.

OUT gets one line per mutant: verdict (killed by, SURVIVED, NOANSWER, build), file:line, what."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
CHECKS = {
 "common/container/deque": "C12", "common/container/heap/heap.go": "C07 C18 C21", "common/container/heap/heapn.go": "C08", "common/container/list": "C11 C12",
 "common/container/meap": "C09", "common/container/pqueue": "C07", "common/container/reap": "C10", "common/container/ringbuffer/fix": "C13 C14",
 "common/container/ringbuffer/round": "C13 C14", "common/container/ringbuffer/unbounded": "C15", "common/container/set": "C12", "common/container/stack": "C12",
 "common/filter/bloom": "C16 C17", "common/hash": "C39", "common/limiter/fixed": "C01 C06", "common/limiter/leaky": "C02 C06", "common/limiter/sliding_log": "C05 C06",
 "common/limiter/sliding_window": "C04 C06", "common/limiter/token": "C03 C06", "common/math": "C38 C13", "common/timer/delayqueue": "C18 C19 C20",
 "common/timer/timingwheel/bucket": "C22 C21 C24", "common/timer/timingwheel": "C21 C22 C23 C24", "gorm_tools/gorm": "C26 C28 C29", "gorm_tools/update": "C27 C29",
 "help/utils/base64": "C40", "help/utils/breakpoint": "C30 C44 C33 C36", "help/utils/cmd": "C43", "help/utils/csv": "C40 C33", "help/utils/files": "C35 C45 C41 C46 C36 C33 C40",
 "help/utils/ints": "C46", "help/utils/maps": "C25 C40 C46", "help/utils/math": "C41", "help/utils/md5": "C36 C34", "help/utils/rand": "C42", "help/utils/runtime": "C45 C46",
 "help/utils/strings": "C37 C46", "help/utils/times": "C46", "help/utils/url": "C45", "help/utils/zip": "C31 C32 C33",
}
LAST = "C48 C47"


def main():
    muts = [json.loads(l) for l in open(sys.argv[1])]
    muts = [m for m in muts if "/sys.go" not in m["File"]]
    random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(muts)
    q = queue.Queue()
    for m in muts:
        q.put(m)
    out = open(sys.argv[2], "a", buffering=1)
    lock = threading.Lock()

    def worker(n):
        base = f"/tmp/mut/{n}"
        if not os.path.exists(base):
            os.makedirs(base)
            subprocess.run(["git", "clone", "-q", "/repo", base + "/repo"], check=True)
            subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "/verif/", base + "/verif/"]) if shutil.which("rsync") else \
                subprocess.run(f"mkdir {base}/verif && cp -a /verif/check.py /verif/checks.json /verif/tools /verif/harness /verif/*.jsonl /verif/*.json /verif/*.txt {base}/verif/", shell=True)
            p = base + "/verif/harness/go.mod"
            s = open(p).read().replace("=> /repo", f"=> {base}/repo")
            open(p, "w").write(s)
            p = base + "/verif/harness/mon/mon.go"
            s = open(p).read().replace("caseLimit = 75 * time.Second", "caseLimit = 20 * time.Second")
            open(p, "w").write(s)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", VERIF_SEED="1", VERIF_TIER="quick")
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            rel = m["File"].removeprefix("/repo/")
            f = f"{base}/repo/{rel}"
            orig = subprocess.run(["git", "show", "HEAD:" + rel], cwd=base + "/repo", stdout=subprocess.PIPE, check=True).stdout
            verdict = "SURVIVED"
            try:
                open(f, "wb").write(orig[:m["From"]] + m["New"].encode() + orig[m["To"]:])
                b = subprocess.run(["go", "build", "./..."], cwd=base + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if b.returncode:
                    verdict = "build"
                else:
                    checks = next(v for k, v in sorted(CHECKS.items(), key=lambda kv: -len(kv[0])) if rel.startswith(k)).split() + LAST.split()
                    for c in checks:
                        try:
                            r = subprocess.run(["python3", base + "/verif/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, start_new_session=True)
                            rc, txt = r.returncode, r.stdout
                        except subprocess.TimeoutExpired:
                            rc, txt = 99, "timeout"
                        if rc == 1:
                            verdict = "killed " + c
                            break
                        if rc != 0:
                            verdict = f"NOANSWER {c} {rc} " + txt[-400:].replace("\n", " | ")
                            break
            finally:
                open(f, "wb").write(orig)
            with lock:
                out.write(f"{verdict}\t{rel}:{m['Line']}\t{m['What'][:300]!r}\t-> {m['New'][:120]!r}\n")

    ts = [threading.Thread(target=worker, args=(n,)) for n in range(int(sys.argv[3]))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
