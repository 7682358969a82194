#!/usr/bin/env python3
"""Runs the checks against planted bugs: applies each seeded patch to a scratch clone of /repo (VERIF_REPO)
and runs the check of its property.  Usage: bugs.py [-a] [ID...]   (writes seeded/RESULTS.txt when all are run)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(VERIF + "/seeded/*") if os.path.isdir(d))
def run(i):
    meta = json.load(open(f"{VERIF}/seeded/{i}/meta.json")); p = meta["property"]
    w = tempfile.mkdtemp(prefix="bugs_")
    try:
        subprocess.run(f"git clone -q /repo {w}/repo && git -C {w}/repo apply {VERIF}/seeded/{i}/patch.diff", shell=True, check=True)
        # a private copy of the machinery, so that runs do not share build and evidence folders
        subprocess.run(f"mkdir {w}/verif && cd {VERIF} && cp -a check.py engine props tools known_findings.json properties.jsonl MANIFEST.json {w}/verif/", shell=True, check=True)
        t = time.time()
        r = subprocess.run(["python3", "check.py", p, "--tier", "quick"], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
        v = re.findall(r"^VIOLATION property=(\S+).*$", r.stdout, re.M)
        ok = r.returncode == 1 and p in v
        det = [l for l in r.stdout.splitlines() if "facet" in l.lower() or "VIOLATION" in l][:2]
        return i, p, ("caught" if ok else f"MISSED (exit {r.returncode})"), time.time() - t, ("" if ok else r.stdout[-600:]) , det
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(2) as ex:
    res = []
    for i, p, s, t, tail, det in ex.map(run, ids):
        print(f"{i:32s} {p} {s} {t:.0f}s", det if s == "caught" else tail, flush=True); res.append((i, p, s))
print(sum(s == "caught" for _, _, s in res), "of", len(res), "caught")
