#!/usr/bin/env python3
"""Mutation trial of the checks: small textual changes of one source file of /repo, each run (in private copies, never
in /repo) against the checks of the properties that file carries.  Prints the survivors, which are then reviewed by hand:
equivalent, outside every property, or a gap to close.
  mutate.py FILE-SUBSTRING [--max N] [--seed S] [--scale X] [--workers W] [--list] [--only i,j]"""
import argparse, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"min_max_heap": "C01", "disjoint_set": "C02", "label_set": "C03", "bit_manip": "C04 C06 C05", "numeric_traits": "C04 C05 C07 C06",
       "morton_sort": "C06 C07 C08", "morton_tree": "C08", "interval_indices": "C09 C10 C11 C12", "grid.h": "C11 C12", "peak_finder": "C12 C26",
       "param_map": "C13 C14", "profiler": "C15", "common/functions": "C16 C17 C18", "src/functions": "C16 C17 C18", "tls_scalar": "C19", "io.": "C20",
       "vector_array": "C28", "base_geometry2": "C21", "geometry/types": "C21", "box_registration": "C23", "gis": "C22", "correspondence": "C24",
       "hough_plane": "C25", "hough_line": "C26", "plane_aligner": "C27", "macros": "C28"}
def checks(f):
    for k, v in MAP.items():
        if k in f: return v.split()
    return []
def code_lines(text):
    """yields (index, line) of lines that hold code only"""
    blk = False
    for i, l in enumerate(text):
        s = l.strip()
        if blk:
            if "*/" in s: blk = False
            continue
        if s.startswith("/*"):
            blk = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "template", "using", "typedef", "namespace", "public", "private", "protected", "friend", "static_assert", "class", "struct")): continue
        if "cout" in s or "cerr" in s or "ROFL_" in s or s.startswith("<<") : continue
        yield i, l
RULES = [(r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\+\+", "--"), (r"(?<!-)--(?!>)", "++"),
         (r" & ", " | "), (r" \| ", " & "), (r"<< (?=[\w(])", ">> "), (r">> (?=[\w(])", "<< "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bif \((?!constexpr)", "if (!("), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])2(?![\w.])", "3"),
         (r"(?<![\w.])1(?![\w.])", "0"), (r"(\d+\.\d+)(?![\d.])", "(1.01*\\1)"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\babs\b|\bfabs\b", ""), (r"!(?=[\w(])", ""), (r" %", " +")]
def mutants(path):
    text = open(path).read().split("\n")
    out = []
    for i, l in code_lines(text):
        c = l.split("//")[0]
        for pat, rep in RULES:
            for m in re.finditer(pat, c):
                new = c[:m.start()] + m.expand(rep) + c[m.end():]
                if rep.startswith("if (!("):
                    # close the negation at the end of the condition, when it is on one line
                    d, k = 0, m.end() - 1
                    while k < len(c):
                        d += {"(": 1, ")": -1}.get(c[k], 0)
                        if d == 0: break
                        k += 1
                    if k >= len(c): continue
                    new = c[:m.start()] + "if (!" + c[m.end() - 1:k + 1] + ")" + c[k + 1:]
                out.append((i, l, new))
        s = c.strip()
        if s.endswith(";") and not re.match(r"(return|break|continue|const |int |double |float |size_t |auto |bool |virtual|for|while|Scalar |Index |[\w:<>, ]+ \w+;|[\w:<>, ]+ \w+\(.*\)( const)?;)", s) and c.count("(") == c.count(")"):
            out.append((i, l, re.match(r"\s*", c).group() + "; /* deleted */"))
        if s in ("break;", "continue;"): out.append((i, l, ";"))
    seen, uniq = set(), []
    for m in out:
        if (m[0], m[2]) not in seen and m[1] != m[2]:
            seen.add((m[0], m[2])); uniq.append(m)
    return text, uniq
ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("--max", type=int, default=60); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--scale", default="1"); ap.add_argument("--workers", type=int, default=4); ap.add_argument("--list", action="store_true"); ap.add_argument("--lines", default="")
a = ap.parse_args()
files = [f for f in subprocess.run("cd /repo && git ls-files common geometry pcl | grep -E '/(include|src)/'", shell=True, stdout=subprocess.PIPE, text=True).stdout.split() if a.file in f]
jobs = []
for f in files:
    text, ms = mutants("/repo/" + f)
    if a.lines:
        lo, hi = map(int, a.lines.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    total = len(ms)
    random.Random(a.seed).shuffle(ms); ms = sorted(ms[:a.max], key=lambda m: m[0])
    print("#", f, checks(f), total, "mutants,", len(ms), "tried", flush=True)
    jobs += [(f, text) + m for m in ms]
if a.list:
    for f, t, i, l, n in jobs: print(i + 1, l.strip(), "=>", n.strip())
    sys.exit()
root = "/tmp/mut.%d" % os.getpid(); slots = queue.Queue()
for w in range(a.workers):
    d = f"{root}/w{w}"; os.makedirs(d + "/verif")
    subprocess.run(f"git clone -q /repo {d}/repo && cd {VERIF} && cp -a check.py engine props tools known_findings.json properties.jsonl MANIFEST.json {d}/verif/", shell=True, check=True)
    slots.put(d)
env = dict(os.environ, PATH="/usr/lib/ccache:" + os.environ["PATH"], CCACHE_DIR="/tmp/ccache", CCACHE_MAXSIZE="4G", VERIF_SEED="1")
def run(j):
    f, text, i, l, new = j
    d = slots.get()
    try:
        t = list(text); t[i] = new
        open(f"{d}/repo/{f}", "w").write("\n".join(t))
        res = "SURVIVED"
        for p in checks(f):
            r = subprocess.run(["python3", "check.py", p, "--scale", a.scale], cwd=d + "/verif", env=dict(env, VERIF_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 2: res = "nocompile" if "compile error" in r.stdout or "link error" in r.stdout else "BROKEN " + r.stdout[-300:]; break
            if r.returncode == 1: res = "killed " + p; break
        return j, res
    finally:
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."]); slots.put(d)
cnt = {}
with ThreadPoolExecutor(a.workers) as ex:
    for (f, text, i, l, new), res in ex.map(run, jobs):
        cnt[res.split()[0]] = cnt.get(res.split()[0], 0) + 1
        if res[0] in "SB": print(f"{res} {f}:{i+1}: {l.strip()}  =>  {new.strip()}", flush=True)
print("##", a.file, cnt, flush=True)
shutil.rmtree(root, ignore_errors=True)
