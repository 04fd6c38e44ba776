#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the driver from /repo's working tree and searches for a case that
breaks the property.  Exit 0: held on everything explored; 1: a VIOLATION line
was printed; 2: no answer (the tree does not build, ...)."""
import json
import os
import re
import signal
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as builder  # noqa: E402

VERIF = builder.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")
# thorough: how many times the quick number of cases, then coverage-guided
FACTOR = 16
FUZZ_SECONDS = 120
# under the thread sanitizer, and not coverage-guided
THREADED = {"C26"}
# in a Java virtual machine, and not coverage-guided
JAVA = {"C27"}
# with allocations that can be made to fail, and not coverage-guided
FAULTS = {"C30"}


def known_findings(prop):
    """property=<id> key=<words of the failing case> <what fails>"""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def run(exe, args, limit):
    """The driver in a process group of its own, ended as a whole."""
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True,
                         env=dict(os.environ, ASAN_OPTIONS=asan(), UBSAN_OPTIONS="print_stacktrace=1",
                                  TSAN_OPTIONS=tsan()))
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        out, p.returncode = "", 2
        print("no answer within %d s" % limit)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return p.returncode, out


def asan():
    return ("detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:"
            "detect_stack_use_after_return=1:handle_abort=1:max_allocation_size_mb=3000")


def tsan():
    # ICU is not instrumented: what it does to its own objects is not judged
    return "halt_on_error=1:exitcode=86:report_signal_unsafe=0:ignore_noninstrumented_modules=1"


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        exe = builder.build("tsan" if prop in THREADED else "android" if prop in JAVA else "faults" if prop in FAULTS else "pbt")
    except RuntimeError as e:
        print("no answer: " + str(e))
        return 2
    built = time.time() - t0
    out = os.path.join(VERIF, "evidence", prop + ".json")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replays, f))
    for _, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    base = ["run", prop, "--tier", tier, "--replaydir", replays, "--out", out]
    if tier == "quick":
        rc, text = run(exe, base + ["--seed", str(seed)], 800)
        sys.stdout.write(text)
        finish(out, {"build_s": round(built, 1)})
        return verdict(rc, text)
    quick = int(subprocess.run([exe, "cases", prop], capture_output=True, text=True).stdout or 1000)
    rc, text = run(exe, base + ["--seed", str(seed), "--cases", str(quick * FACTOR), "--wall", "420"], 800)
    sys.stdout.write(text)
    if verdict(rc, text) != 0:
        return verdict(rc, text)
    fuzz = {}
    left = 880 - (time.time() - t0)
    if left > 90 and prop not in THREADED | JAVA | FAULTS:
        rc, text, fuzz = fuzz_stage(prop, seed, min(FUZZ_SECONDS, left - 75), replays, exe)
        sys.stdout.write(text)
    finish(out, {"build_s": round(built, 1), "coverage_guided": fuzz}, violations=rc,
           wall_s=round(time.time() - t0, 1))
    return rc


def verdict(rc, text):
    if rc == 1 and "VIOLATION property=" in text:
        return 1
    return 0 if rc == 0 else 2


def fuzz_stage(prop, seed, seconds, replays, exe):
    """Coverage-guided search over the same cases: the choices of a case are
    read from the fuzzer's bytes."""
    import glob
    import shutil
    import tempfile
    try:
        fz = builder.build("fuzz")
    except RuntimeError as e:
        return 0, "no coverage-guided stage: %s\n" % e, {"note": "did not build"}
    tmp = tempfile.mkdtemp(prefix="fuzz.")
    info, text, rc = {"seconds": int(seconds), "processes": 8}, "", 0
    try:
        procs = []
        for w in range(8):
            d = os.path.join(tmp, "c%d" % w)
            os.makedirs(d)
            log = open(os.path.join(tmp, "log%d" % w), "w")
            procs.append(subprocess.Popen(
                [fz, d, "-max_total_time=%d" % seconds, "-max_len=4096", "-timeout=25", "-rss_limit_mb=3000",
                 "-seed=%d" % (seed * 8 + w + 1), "-artifact_prefix=%s/crash%d-" % (tmp, w), "-print_final_stats=1",
                 "-len_control=20", "-detect_leaks=0"],
                stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                env=dict(os.environ, PBT_PROPERTY=prop, ASAN_OPTIONS=asan(), TMPDIR=tmp)))
        end = time.time() + seconds + 45
        for p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        runs = cov = 0
        for w in range(8):
            log = open(os.path.join(tmp, "log%d" % w), errors="replace").read()
            m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", log)
            if m:
                runs += int(m[-1])
            m = re.findall(r"cov: (\d+)", log)
            if m:
                cov = max(cov, int(m[-1]))
        info.update(executions=runs, edges=cov)
        for art in sorted(glob.glob(os.path.join(tmp, "crash*"))):
            # judged by the driver itself, in fresh processes
            r, o = run(exe, ["convert", prop, art, replays], 120)
            if r == 1 and "VIOLATION" in o:
                rc, text = 1, o
                break
        text += "%s: coverage-guided: %d cases, %d edges, %d s\n" % (prop, runs, cov, seconds)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc, text, info


def finish(path, extra, **top):
    if not os.path.exists(path):
        return
    e = json.load(open(path))
    e["coverage"].update(extra)
    e.update(top)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
    os.rename(tmp, path)


if __name__ == "__main__":
    sys.exit(main())
