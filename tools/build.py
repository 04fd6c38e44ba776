#!/usr/bin/env python3
"""Builds the test driver from /repo's working tree and the harness.

Objects are kept in /verif/build under the hash of everything that went into
them (source, all headers of both trees, flags), so an object is reused only
when nothing it depends on changed.  Prints the path of the driver."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"
SAN = ["-fsanitize=address,signed-integer-overflow,bounds,shift,integer-divide-by-zero,"
       "float-cast-overflow,bool,enum,return,unreachable,pointer-overflow",
       "-fno-sanitize-recover=all"]
COMMON = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
          "-D_GLIBCXX_ASSERTIONS", "-w",
          # what is read before it is written is not zero by chance
          "-ftrivial-auto-var-init=pattern"]
# with library templates instantiated (and so instrumented) here
TSAN = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
LIBS = ["-lsimdjson", "-licuuc", "-licui18n", "-licudata", "-lpthread"]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def shim():
    """simdjson.h with always_inline relaxed: as the library forces inlining of
    everything, sanitized objects would take minutes to compile otherwise."""
    for d in ("/usr/include", "/usr/local/include"):
        p = os.path.join(d, "simdjson.h")
        if os.path.exists(p):
            break
    else:
        return None, ""
    src = read(p)
    out = src.replace(b"inline __attribute__((always_inline))", b"inline")
    out = out.replace(b"__attribute__((always_inline)) inline", b"inline")
    key = sha(out)
    d = os.path.join(BUILD, "shim-" + key)
    f = os.path.join(d, "simdjson.h")
    if not os.path.exists(f):
        os.makedirs(d, exist_ok=True)
        atomic(f, out)
        atomic(os.path.join(d, "ignore.txt"), b"src:*simdjson*\n")
    return d, key


def atomic(path, data):
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os.rename(tmp, path)


def files(root, exts):
    r = []
    for e in exts:
        r += glob.glob(os.path.join(root, "**", "*" + e), recursive=True)
    return sorted(r)


def build(variant="pbt"):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if variant == "android":
            exe = build_locked("pbt")
            atomic(exe + ".jvm", build_android().encode())
            return exe
        return build_locked(variant)


def run_all(cmds):
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), cmds):
            if r.returncode != 0:
                raise RuntimeError("build failed\n" + r.stderr[-6000:])


def build_android():
    """The Android binding for the Java virtual machine here: a folder with its
    class, its library and the program that answers the driver."""
    android = os.path.join(REPO, "android", "tokenizers_android", "src", "main")
    java = files(os.path.join(android, "java"), [".java"])
    own = files(os.path.join(VERIF, "harness", "java"), [".java"])
    native = files(os.path.join(android, "cpp"), [".cpp", ".cc"]) + files(os.path.join(REPO, "src"), [".cpp"])
    hdrs = files(os.path.join(android, "cpp"), [".h"]) + files(os.path.join(REPO, "include"), [".h"]) + files(
        os.path.join(REPO, "src"), [".h", ".inc"])
    javac = os.path.realpath(subprocess.run(["which", "javac"], capture_output=True, text=True).stdout.strip())
    home = os.path.dirname(os.path.dirname(javac))
    shim_dir, shim_key = shim()
    flags = ["-std=c++17", "-O1", "-w", "-fPIC", "-I" + home + "/include", "-I" + home + "/include/linux",
             "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    if shim_dir:
        flags = ["-I" + shim_dir] + flags
    head = sha(*[os.path.relpath(p, REPO) for p in hdrs], *[read(p) for p in hdrs])
    objs = [(p, os.path.join(BUILD, "android-obj-" + sha(p, read(p), head, shim_key, *flags) + ".o")) for p in native]
    d = os.path.join(BUILD, "jvm-" + sha(*[o for _, o in objs], *[read(p) for p in java + own]))
    if os.path.isdir(d):
        return d
    run_all([[CXX] + flags + ["-c", p, "-o", o] for p, o in objs if not os.path.exists(o)])
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    run_all([[CXX, "-shared"] + [o for _, o in objs] + LIBS + ["-o", os.path.join(tmp, "libtokenizers_android.so")],
             ["javac", "-encoding", "UTF-8", "-d", tmp] + java + own])
    os.rename(tmp, d)
    return d


def build_locked(variant):
    flags = list(COMMON)
    san = TSAN if variant == "tsan" else SAN
    lib_flags = list(san)
    if variant == "fuzz":
        lib_flags += ["-fsanitize=fuzzer-no-link"]
    if variant == "cov":
        lib_flags += ["-fprofile-instr-generate", "-fcoverage-mapping"]
    shim_dir, shim_key = shim()
    inc = ["-I" + os.path.join(REPO, "include")]
    if shim_dir:
        inc = ["-I" + shim_dir] + inc
        if variant != "tsan":
            lib_flags += ["-fsanitize-ignorelist=" + os.path.join(shim_dir, "ignore.txt")]
    repo_hdrs = files(os.path.join(REPO, "include"), [".h", ".hpp"]) + files(
        os.path.join(REPO, "src"), [".h", ".hpp", ".inc"])
    own_hdrs = files(os.path.join(VERIF, "harness"), [".h"])
    repo_key = sha(*[os.path.relpath(p, REPO) for p in repo_hdrs],
                   *[read(p) for p in repo_hdrs])
    own_key = sha(*[os.path.basename(p) for p in own_hdrs], *[read(p) for p in own_hdrs])
    jobs = []
    for p in files(os.path.join(REPO, "src"), [".cpp", ".cc", ".cxx"]):
        fl = flags + lib_flags + inc + ["-I" + os.path.join(REPO, "src")]
        key = sha("repo", p, read(p), repo_key, shim_key, REPO, *fl)
        jobs.append((p, key, fl))
    for p in files(os.path.join(VERIF, "harness"), [".cpp"]):
        if os.path.basename(p).startswith("fuzz_") and variant != "fuzz":
            continue
        if os.path.basename(p) == "main.cpp" and variant == "fuzz":
            continue
        sut = os.path.basename(p) in ("sut.cpp", "sut_direct.cpp")
        fl = flags + lib_flags + ["-I" + os.path.join(VERIF, "harness")] + (inc if sut else [])
        if not sut:
            fl = [f for f in fl if f != "-fsanitize=fuzzer-no-link"]
            # generators and oracle need no checking of their own beyond ASan's
            # view of what they hand to the library
            fl = [f for f in fl if not f.startswith("-fprofile") and f != "-fcoverage-mapping"]
        if os.path.basename(p) == "faults.cpp" and variant == "faults":
            fl = fl + ["-DFAULTS"]
        key = sha("own", os.path.basename(p), read(p), own_key,
                  repo_key if sut else "", shim_key, *fl)
        jobs.append((p, key, fl))

    def compile_one(job):
        p, key, fl = job
        obj = os.path.join(BUILD, os.path.splitext(os.path.basename(p))[0] + "-" + key + ".o")
        if os.path.exists(obj):
            return obj, None
        tmp = obj + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + fl + ["-c", p, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0 and os.path.basename(p) == "sut_direct.cpp":
            r = subprocess.run([CXX] + fl + ["-DNO_DIRECT", "-c", p, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return obj, "%s:\n%s" % (p, r.stderr[-6000:])
        os.rename(tmp, obj)
        return obj, None

    # the big translation units first
    jobs.sort(key=lambda j: -(os.path.getsize(j[0]) + (10 ** 6 if "/src/" in j[0] or "sut" in j[0] else 0)))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        results = list(ex.map(compile_one, jobs))
    errs = [e for _, e in results if e]
    if errs:
        raise RuntimeError("build failed\n" + "\n".join(errs))
    objs = [o for o, _ in results]
    exe = os.path.join(BUILD, variant + "-" + sha(variant, *sorted(objs)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        link = [CXX] + san + (["-fsanitize=fuzzer"] if variant == "fuzz" else [])
        if variant == "cov":
            link += ["-fprofile-instr-generate"]
        r = subprocess.run(link + objs + LIBS + ["-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("link failed\n" + r.stderr[-6000:])
        os.rename(tmp, exe)
    prune(set(objs) | {exe})
    return exe


def prune(keep):
    """Bounds the cache: the newest objects stay."""
    fs = [p for p in glob.glob(os.path.join(BUILD, "*-*")) if os.path.isfile(p) and p not in keep]
    fs.sort(key=os.path.getmtime, reverse=True)
    for p in fs[120:]:
        try:
            os.unlink(p)
        except OSError:
            pass
    ds = [p for p in glob.glob(os.path.join(BUILD, "jvm-*")) if os.path.isdir(p)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for p in ds[6:]:
        shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else "pbt"))
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
