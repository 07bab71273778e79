#!/usr/bin/env python3
"""Runs the check of one property:  python3 check.py P01 [--replay FILE] [--keep DIR]

Builds openscop's sources from /repo's working tree together with the engine (lib/) and the
property's harness (props/<id>.cpp) in a scratch directory, runs the generated-input search,
and writes evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1 + a VIOLATION
line: broken.  Anything else: the check could not be run.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC, CXX = ("clang", "clang++") if shutil.which("clang++") else ("gcc", "g++")
# The threads of P30 are watched for unsynchronised accesses, where that is possible.
THREADS = ["P30"]
# P31 links a second build of the sources.
WITHOUT_GMP = ["P31"]
SAN = ["-fsanitize=address"]
CFLAGS = ["-O1", "-g1", "-fexceptions", "-fno-omit-frame-pointer", "-w", "-DOSL_GMP_IS_HERE",
          # a call: the built-in one has no defined result for the most negative value
          "-fno-builtin-abs", "-fno-builtin-labs", "-fno-builtin-llabs"]
COV = ["-fsanitize-coverage=inline-8bit-counters"] if CC == "clang" else []
WRAP = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "exit"]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout, cmd


def sanitizers(pid, d):
    if pid in THREADS:
        s, x = os.path.join(d, "probe.c"), os.path.join(d, "probe")
        with open(s, "w") as f:
            f.write("int main(void) { return 0; }\n")
        if sh([CC, "-fsanitize=thread", s, "-o", x])[0] == 0 and sh([x])[0] == 0:
            return ["-fsanitize=thread"]
    return SAN


def build(pid, d):
    SAN = sanitizers(pid, d)
    inc = os.path.join(d, "include")
    os.makedirs(os.path.join(inc, "osl"))
    src = open(os.path.join(REPO, "include/osl/scop.h.in"), encoding="utf-8", errors="replace").read()
    ver = "0.9.7"
    try:
        m = re.search(r"AC_INIT\(\s*\[?[^,\]]*\]?\s*,\s*\[?([0-9.]+)",
                      open(os.path.join(REPO, "configure.ac")).read())
        if m:
            ver = m.group(1)
    except OSError:
        pass
    src = src.replace("@PACKAGE_VERSION@", ver).replace("@OSL_INT_T_IS@", "dp")
    src = re.sub(r"@[A-Z_]+@", "0", src)
    with open(os.path.join(inc, "osl/scop.h"), "w") as f:
        f.write(src)
    I = ["-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "lib")]
    jobs, objs = [], []
    csan = SAN + (["-fsanitize=bounds", "-fno-sanitize-recover=bounds"] if CC == "clang" else [])
    for i, s in enumerate(sorted(glob.glob(REPO + "/source/*.c") + glob.glob(REPO + "/source/extensions/*.c"))):
        o = os.path.join(d, "c%d.o" % i)
        objs.append(o)
        jobs.append([CC, "-std=gnu11"] + CFLAGS + csan + COV + I + ["-c", s, "-o", o])
    second = []
    if pid in WITHOUT_GMP:
        # the same sources without GMP, and the calls of the harness for each of the two builds
        calls = os.path.join(VERIF, "props", pid + "_calls.c")
        for i, s in enumerate(sorted(glob.glob(REPO + "/source/*.c") + glob.glob(REPO + "/source/extensions/*.c"))):
            o = os.path.join(d, "n%d.o" % i)
            second.append(o)
            jobs.append([CC, "-std=gnu11"] + [x for x in CFLAGS if x != "-DOSL_GMP_IS_HERE"] + csan + I + ["-c", s, "-o", o])
        for o, x in (("calls1.o", ["-DCALLS=with_gmp", "-DOSL_GMP_IS_HERE"]), ("calls2.o", ["-DCALLS=without_gmp"])):
            o = os.path.join(d, o)
            jobs.append([CC, "-std=gnu11"] + [y for y in CFLAGS if y != "-DOSL_GMP_IS_HERE"] + x + csan + I + ["-c", calls, "-o", o])
        objs.append(os.path.join(d, "calls1.o"))
    cpp = sorted(glob.glob(VERIF + "/lib/*.cpp")) + [VERIF + "/props/%s.cpp" % pid]
    cj = []
    for i, s in enumerate(cpp):
        o = os.path.join(d, "x%d.o" % i)
        objs.append(o)
        cj.append([CXX, "-std=c++17", "-O1", "-g1", "-w", "-DOSL_GMP_IS_HERE"] + SAN + I + ["-c", s, "-o", o])
    jobs = cj + jobs
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for rc, out, cmd in ex.map(sh, jobs):
            if rc:
                print("build failed:", " ".join(cmd))
                print(out[-4000:])
                return None
    if second:
        rc, out, cmd = sh(["nm", "-g", "--defined-only"] + second)
        names = sorted({l.split()[2] for l in out.splitlines() if len(l.split()) == 3})
        table = os.path.join(d, "rename")
        with open(table, "w") as f:
            f.writelines("%s plain_%s\n" % (n, n) for n in names)
        for o in second + [os.path.join(d, "calls2.o")]:
            rc2, out, cmd = sh(["objcopy", "--redefine-syms=" + table, o])
            objs.append(o)
            if rc or rc2:
                print("rename failed:", out[-4000:])
                return None
    exe = os.path.join(d, pid)
    rc, out, cmd = sh([CXX] + SAN + (["-fsanitize=bounds"] if CC == "clang" else []) + objs +
                      ["-Wl,--wrap=" + w for w in WRAP] + ["-rdynamic", "-lgmpxx", "-lgmp", "-ldl", "-o", exe])
    if rc:
        print("link failed:", out[-4000:])
        return None
    return exe


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    keep = sys.argv[sys.argv.index("--keep") + 1] if "--keep" in sys.argv else None
    if keep:
        os.makedirs(keep, exist_ok=True)
    d = tempfile.mkdtemp(prefix="oslcheck-", dir=keep)
    try:
        exe = build(pid, d)
        if not exe:
            return 2
        tb = time.time() - t0
        if keep:
            shutil.copy(exe, keep)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:"
                               "max_malloc_fill_size=8192:malloc_fill_byte=190:free_fill_byte=221:"
                               "max_free_fill_size=256:detect_stack_use_after_return=0:"
                               "quarantine_size_mb=32:malloc_context_size=12")
        env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:io_sync=0:die_after_fork=0:handle_abort=0:report_bugs=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        env.pop("OSL_PRECISION", None)
        env["LC_ALL"] = "C.UTF-8"
        out = os.path.join(d, "report.json")
        cmd = [exe, "--seed", str(seed), "--scratch", d, "--out", out,
               "--replaydir", os.path.join(VERIF, "replays"), "--known",
               os.path.join(VERIF, "known_findings.txt")]
        if tier == "thorough":
            cmd += ["--thorough", "--maxsecs", "1800"]
        else:
            cmd += ["--maxsecs", "240"]
        if "--replay" in sys.argv:
            return subprocess.run([exe, "--replay", sys.argv[sys.argv.index("--replay") + 1]], env=env).returncode
        if "--opts" in sys.argv:
            cmd += sys.argv[sys.argv.index("--opts") + 1].split()
        r = subprocess.run(cmd, env=env, cwd=d)
        rep = {}
        if os.path.exists(out):
            rep = json.load(open(out, encoding="utf-8", errors="replace"))
        if r.returncode in (0, 1) and rep:
            cov = {k: v for k, v in rep.items() if k != "violation"}
            if not cov["samples"]:
                cov["samples"] = ["(the run stopped at a violation: %s)" % rep.get("violation")]
            ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                  "assumptions": ["/repo's C sources compiled with %s -O1, %s and coverage counters; exit() and the "
                                  "allocator are interposed" % (CC, "ThreadSanitizer" if pid in THREADS
                                                                else "AddressSanitizer")],
                  "wall_s": round(time.time() - t0, 2), "violations": 1 if r.returncode == 1 else 0}
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
            print("%s: %s cases, %s distinct non-trivial, edges %s/%s, build %.1fs, total %.1fs" % (
                pid, cov["evaluations"], cov["distinct_nontrivial"], cov["edges_hit"], cov["edges_total"],
                tb, time.time() - t0))
        return r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
