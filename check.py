#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--scale X] [--facet NAME]

Builds the property's harness with /repo's current sources, runs the generated-input search, writes
evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not run.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = ("-std=c++17 -O1 -g1 -fwrapv -fno-strict-aliasing -ffp-contract=off -fno-omit-frame-pointer "
         "-fsanitize=address -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -w").split()
FUZZ_FLAGS = ("-std=c++17 -O1 -g1 -fwrapv -fno-strict-aliasing -ffp-contract=off -fno-omit-frame-pointer "
              "-fsanitize=address,fuzzer-no-link -D_GLIBCXX_ASSERTIONS -DPBT_FUZZ -w").split()
INC = ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "props")] + \
      ["-I%s/%s/include" % (REPO, m) for m in ("common", "geometry", "pcl")] + ["-isystem", "/usr/include/eigen3"]
INC += sum([["-isystem", d] for d in sorted(glob.glob("/usr/include/pcl-*"))[-1:]], [])
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=0:max_malloc_fill_size=1048576"


def harness(pid):
    fs = glob.glob(os.path.join(VERIF, "props", pid + "_*.cpp"))
    if len(fs) != 1:
        sys.exit("no harness for %s" % pid)
    return fs[0]


def directives(path):
    d = {"sources": ["common/src/*.cpp"], "libs": ["boost_filesystem", "boost_date_time", "boost_system"], "fuzz": [],
         "exclude": ["box_registration.cpp"]}  # explicit instantiations of a header, slow to compile: linked only when needed
    for line in open(path):
        m = re.match(r"//@ (\w+): *(.*)", line)
        if m:
            d.setdefault(m.group(1), [])
            d[m.group(1)] += m.group(2).split()
    return d


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def repo_files():
    out = []
    for m in ("common", "geometry", "pcl"):
        for sub in ("include", "src"):
            for root, _, fs in os.walk(os.path.join(REPO, m, sub)):
                out += [os.path.join(root, f) for f in fs]
    return sorted(out)


def build(pid, fuzz=False):
    src = harness(pid)
    d = directives(src)
    cxx = "clang++" if fuzz else "g++"
    flags = FUZZ_FLAGS if fuzz else FLAGS
    main = os.path.join(VERIF, "engine", "pbt_fuzz.cpp" if fuzz else "pbt_main.cpp")
    units = [src, main]
    late = []
    for g in d["sources"]:
        fs = sorted(glob.glob(os.path.join(REPO, g)))
        units += [f for f in fs if f not in units and os.path.basename(f) not in d["exclude"]]
        late += [f for f in fs if os.path.basename(f) in d["exclude"]]
    engine = sorted(glob.glob(os.path.join(VERIF, "engine", "*")) + glob.glob(os.path.join(VERIF, "props", "*.h")))
    key = hashlib.sha256((tree_hash(repo_files() + engine + [src]) + " ".join([cxx] + flags + INC + units + d["libs"])).encode()).hexdigest()[:20]
    bdir = os.path.join(VERIF, "build", pid + ("-fuzz" if fuzz else ""))
    exe = os.path.join(bdir, key)
    if os.path.exists(exe):
        return exe
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)

    def comp(iu):
        i, u = iu
        o = os.path.join(bdir, "%d.o" % i)
        # the engine itself is not instrumented for coverage
        fl = [f for f in flags if not (fuzz and u == main and f.startswith("-fsanitize"))] + (["-fsanitize=address"] if fuzz and u == main else [])
        r = subprocess.run([cxx] + fl + INC + ["-c", u, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return u, o, r

    objs = []

    def compile_all(us, base):
        with cf.ThreadPoolExecutor(8) as ex:
            for u, o, r in ex.map(comp, [(base + i, u) for i, u in enumerate(us)]):
                if r.returncode != 0:
                    sys.stderr.write("compile error in %s\n%s\n" % (u, r.stdout[-4000:]))
                    sys.exit(2)
                objs.append(o)

    def link():
        cmd = [cxx] + (["-fsanitize=address,fuzzer"] if fuzz else ["-fsanitize=address"]) + objs + ["-o", exe + ".tmp", "-Wl,--as-needed"] + ["-l" + l for l in d["libs"]]
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    compile_all(units, 0)
    r = link()
    if r.returncode != 0 and late:
        compile_all(late, len(units))
        r = link()
    if r.returncode != 0:
        sys.stderr.write("link error\n%s\n" % r.stdout[-4000:])
        sys.exit(2)
    os.rename(exe + ".tmp", exe)
    for o in objs:
        os.unlink(o)
    return exe


def fuzz_stage(pid, exe, seed, rdir, runs, jobs=8):
    """Coverage-guided exploration of the same property functions (thorough tier)."""
    fexe = build(pid, fuzz=True)
    base = os.path.join(VERIF, "build", pid + "-corpus")
    shutil.rmtree(base, ignore_errors=True)
    procs = []
    env = dict(os.environ, ASAN_OPTIONS=ASAN)
    for j in range(jobs):
        w = os.path.join(base, str(j))
        os.makedirs(os.path.join(w, "c"))
        cmd = [fexe, "-seed=%d" % (seed * 100 + j + 1), "-runs=%d" % runs, "-max_len=%d" % (256 if j % 2 else 1500), "-timeout=60",
               "-rss_limit_mb=3500", "-max_total_time=420", "-print_final_stats=1", "-artifact_prefix=" + w + "/", "-use_value_profile=%d" % (j % 2), os.path.join(w, "c")]
        procs.append((w, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(w, "log"), "w"), env=env, cwd=w)))
    stats = {"executions": 0, "corpus_units": 0, "artifacts": 0, "jobs": jobs}
    viol = None
    for w, p in procs:
        p.wait()
        log = open(os.path.join(w, "log"), errors="replace").read()
        m = re.search(r"number_of_executed_units: *(\d+)", log)
        if m:
            stats["executions"] += int(m.group(1))
        stats["corpus_units"] += len(os.listdir(os.path.join(w, "c")))
        for a in sorted(glob.glob(w + "/crash-*") + glob.glob(w + "/timeout-*") + glob.glob(w + "/oom-*")):
            stats["artifacts"] += 1
            if viol is None:
                r = subprocess.run([exe, "--tier", "thorough", "--out", rdir, "--bytes", a], stdout=subprocess.PIPE, text=True, env=env)
                m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
                if m:
                    viol = m.group(1)
    shutil.rmtree(base, ignore_errors=True)
    return stats, viol


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    opt = {}
    while args:
        k = args.pop(0)
        opt[k.lstrip("-")] = args.pop(0)
    tier = opt.get("tier") or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS=ASAN, TZ=os.environ.get("TZ", "UTC"))
    work = os.path.join(VERIF, "build", "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    env["PBT_SCRATCH"] = os.environ["PBT_SCRATCH"] = work
    if "replay" in opt:
        rc = subprocess.run([exe, "--out", rdir, "--replay", opt["replay"]], env=env).returncode
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(rc)
    rep = os.path.join(work, "report.json")
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", work, "--report", rep]
    quickscale = directives(harness(pid)).get("quickscale", ["6"])[0]
    if tier == "quick" and "scale" not in opt:
        opt["scale"] = quickscale
    if tier == "thorough" and "scale" not in opt:
        cmd += ["--floor", str(3 * float(quickscale))]
    for k in ("scale", "facet", "workers"):
        if k in opt:
            cmd += ["--" + k, opt[k]]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True)
    viol = None
    fz = None
    try:
        cov = json.load(open(rep))
    except Exception:
        sys.stderr.write("no report (exit %d)\n" % r.returncode)
        sys.exit(2)
    if r.returncode == 1:
        m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
        viol = m.group(1)
    elif r.returncode != 0:
        sys.stderr.write("harness ended with %d\n" % r.returncode)
        sys.exit(2)
    if tier == "thorough" and viol is None and directives(harness(pid)).get("fuzz") and "nofuzz" not in opt:
        runs = int(directives(harness(pid))["fuzz"][0])
        fz, viol = fuzz_stage(pid, exe, seed, work, runs)
        cov["libfuzzer"] = fz
        cov["evaluations"] += fz["executions"]
    final = None
    if viol:
        final = os.path.join(rdir, os.path.basename(viol))
        shutil.copy(viol, final)
    shutil.rmtree(work, ignore_errors=True)
    cov.pop("violation", None)
    cov["build_s"] = round(tb, 2)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["g++ -O1 with AddressSanitizer and libstdc++ assertions; any crash, exit(), sanitizer report or CPU-time hang inside a case counts as a violation"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e.get("property") == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    print("%s %s: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], tb, time.time() - t0))
    if final:
        print("VIOLATION property=%s replay=%s" % (pid, final))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
