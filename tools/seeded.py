#!/usr/bin/env python3
"""Runs checks against planted bugs in copies of /repo and /verif (a development tool; no check uses it).

seeded.py [-w WORKERS] [-a] [-t] [ID...]      -a: all checks, not just the one of the bug's property; -t: thorough tier
"""
import json, os, shutil, subprocess, sys, threading, queue, argparse
a = argparse.ArgumentParser(); a.add_argument("-w", type=int, default=2); a.add_argument("-a", action="store_true"); a.add_argument("-t", action="store_true"); a.add_argument("ids", nargs="*")
a = a.parse_args()
SEEDED = os.environ.get("SEEDED", "/verif/seeded"); ROOT = "/tmp/seedrun"; ALL = [f"C{i:02}" for i in range(1, 27)]
ids = a.ids or sorted(os.listdir(SEEDED))
q = queue.Queue()
for i in ids: q.put(i)
lock = threading.Lock()
def worker(k):
    w = f"{ROOT}/w{k}"; repo = f"{w}/repo"; ver = f"{w}/verif"
    if os.path.exists(repo): shutil.rmtree(repo)
    os.makedirs(w, exist_ok=True)
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target"))
    os.makedirs(ver, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", "work", "--exclude", "seeded", "--exclude", "evidence", "--exclude", ".git", "/verif/", ver + "/"]) if shutil.which("rsync") else None
    if not shutil.which("rsync"):
        for x in ("harness", "miri", "probe", "check.sh", "known_findings.jsonl", "properties.jsonl", "tools"):
            d = f"{ver}/{x}"
            if os.path.isdir(d): shutil.rmtree(d)
            (shutil.copytree if os.path.isdir("/verif/" + x) else shutil.copy)("/verif/" + x, d)
    for x in ("harness", "miri", "probe", "check.sh"):
        for d, _, fs in ([(ver, [], [x])] if os.path.isfile(f"{ver}/{x}") else os.walk(f"{ver}/{x}")):
            for f in fs:
                p = os.path.join(d, f); t = open(p).read()
                if "/repo" in t: open(p, "w").write(t.replace("/repo", repo))
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        m = json.load(open(f"{SEEDED}/{i}/meta.json"))
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", repo, "apply", f"{SEEDED}/{i}/patch.diff"], check=True)
        res = []
        for c in ALL if a.a else [m["property"]]:
            p = subprocess.run(["bash", f"{ver}/check.sh", c, "thorough" if a.t else "quick"], cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1 and f"VIOLATION property={c}" in p.stdout: res.append(c)
            elif p.returncode != 0: res.append(f"{c}:rc{p.returncode}"); last = p.stdout[-600:]
        with lock: print(i, m["property"], "caught by" if any(":" not in r for r in res) else "MISSED", " ".join(res), flush=True)
        if any(":" in r for r in res): print(last, flush=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.w)]
for t in ts: t.start()
for t in ts: t.join()
