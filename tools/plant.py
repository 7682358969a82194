#!/usr/bin/env python3
"""Plants bugs: takes spec files (python; each calls bug(...)), confirms each in a scratch copy of /repo
(applies, '-' lines are original lines, builds, stable tests pass, demo 0 before / nonzero after)
and writes /verif/seeded/<id>/.  Usage: plant.py SPEC.py [ID...]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
BASE = "3b539c6"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
BUGS = []
DEMO_SH = """#!/bin/bash
# Builds demo.cpp against the sources in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d/demo.cpp" "$t/demo.cpp"
g++ -std=c++17 -O1 -w -Icommon/include -Igeometry/include -Ipcl/include -I/usr/include/eigen3%s "$t/demo.cpp"%s -o "$t/demo"%s || exit 3
cd "$t" && timeout %d ./demo > /dev/null
"""
HEAD = """#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while (0)
"""
def bug(id, prop, file, subs, demo, needs, breaks, srcs=(), inc="", libs="", timeout=60):
    BUGS.append(dict(id=id, prop=prop, file=file, subs=subs, demo=demo, needs=needs, breaks=breaks, srcs=srcs, inc=inc, libs=libs, timeout=timeout))
def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def one(b):
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        r = os.path.join(w, "repo")
        sh(f"git clone -q /repo {r}")
        out = os.path.join(w, "out"); os.mkdir(out)
        open(out + "/demo.cpp", "w").write(HEAD + b["demo"].lstrip("\n"))
        srcs = "".join(" " + s for s in b["srcs"])
        open(out + "/demo.sh", "w").write(DEMO_SH % (" " + b["inc"] if b["inc"] else "", srcs, " " + b["libs"] if b["libs"] else "", b["timeout"]))
        os.chmod(out + "/demo.sh", 0o755)
        p = sh(f"bash {out}/demo.sh", cwd=r)
        if p.returncode != 0: return b["id"], "demo fails on the unchanged tree:\n" + p.stdout[-1500:]
        for i, (old, new) in enumerate(b["subs"]):
            f = b["file"]
            if isinstance(old, tuple): f, old = old
            path = os.path.join(r, f); s = open(path).read()
            nth = None
            if isinstance(new, tuple): nth, new = new
            if nth is None:
                if s.count(old) != 1: return b["id"], f"sub {i}: {s.count(old)} matches"
                s = s.replace(old, new)
            else:
                pos = -1
                for _ in range(nth + 1): pos = s.index(old, pos + 1)
                s = s[:pos] + new + s[pos + len(old):]
            open(path, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        if not diff: return b["id"], "empty diff"
        # every removed line must come from the original repository; pure additions must be near such lines
        cur = None; nminus = 0; bad = []
        for line in diff.splitlines():
            m = re.match(r"--- a/(.*)", line)
            if m: cur = m.group(1); blame = sh(f"git blame -s HEAD -- {cur}", cwd=r).stdout.splitlines(); continue
            m = re.match(r"@@ -(\d+)", line)
            if m: ln = int(m.group(1)); continue
            if line.startswith("+++") or cur is None: continue
            if line.startswith("-"):
                nminus += 1
                if not blame[ln - 1].startswith("^" + BASE[:6]) and sh(f"git merge-base --is-ancestor {blame[ln-1].split()[0].lstrip('^')} {BASE}", cwd=r).returncode != 0: bad.append(blame[ln - 1])
                ln += 1
            elif line.startswith("+"): pass
            else: ln += 1
        if bad: return b["id"], "changes lines that are not original:\n" + "\n".join(bad)
        if nminus == 0: return b["id"], "no original line changed"
        open(out + "/patch.diff", "w").write(diff)
        p = sh(f"bash {out}/demo.sh", cwd=r)
        if p.returncode == 0: return b["id"], "demo passes with the change"
        if p.returncode == 3: return b["id"], "demo does not compile with the change\n" + p.stdout[-2000:]
        why = p.stdout.strip()[-200:]
        p = sh("cmake -S . -B _build -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _build", cwd=r)
        if p.returncode != 0: return b["id"], "build fails\n" + p.stdout[-2000:]
        for t in STABLE:
            args = {"common/test_morton_functions": "-test split", "common/test_io": f"-dir {r}/common/app"}.get(t, "")
            os.makedirs(f"{w}/run", exist_ok=True)
            p = sh(f"timeout -k 5 30 {r}/_build/{t} {args} > /dev/null 2>&1 < /dev/null", cwd=f"{w}/run")
            if p.returncode != 0: return b["id"], f"stable test {t} fails ({p.returncode})"
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        dst = os.path.join(SEEDED, b["id"])
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return b["id"], "OK: " + why
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    todo = [b for b in BUGS if len(sys.argv) == 2 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, todo): print(i, m, flush=True)
