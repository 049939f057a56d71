#!/usr/bin/env python3
"""Builds the tiro library from /repo's current working tree together with one check's harness.

Nothing of /repo/_build is used.  Objects are cached by content under /verif/.build (git-ignored);
the cache key covers every header, the compiler flags and the translation unit itself.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
CXX = "clang++"
GXX = "g++-12"

BASE = ["-std=gnu++17", "-fno-rtti", "-DFMT_SHARED", "-DTIRO_BUILDING_LIBRARY", "-DTIRO_VERIF=1",
        "-fno-omit-frame-pointer", "-w"]
UBSAN = ("signed-integer-overflow,float-cast-overflow,shift,bounds,alignment,null,return,"
         "unreachable,integer-divide-by-zero,vla-bound")
CONFIGS = {
    "fast": ["-O1", "-gline-tables-only"],
    "san": ["-O1", "-gline-tables-only", "-fsanitize=address," + UBSAN, "-fno-sanitize-recover=all",
            "-DMC_SAN=1"],
}
# The sanitizers without the assertions of debug builds (which would turn memory errors into internal errors).
CONFIGS["rel"] = CONFIGS["san"] + ["-DNDEBUG"]
LINK = {
    "fast": [],
    "san": ["-fsanitize=address,undefined"],
    "rel": ["-fsanitize=address,undefined"],
}
PCH_HEADERS = [
    "vm/objects/all.hpp", "vm/context.hpp", "vm/handles/scope.hpp", "vm/math.hpp",
    "vm/error_utils.hpp", "vm/object_support/factory.hpp", "compiler/ast/ast.hpp",
    "compiler/ir/function.hpp", "compiler/ir/module.hpp", "compiler/semantics/analysis.hpp",
    "compiler/syntax/parser.hpp", "compiler/diagnostics.hpp", "bytecode/module.hpp",
]
STD_HEADERS = ["algorithm", "array", "chrono", "cmath", "cstdint", "cstring", "functional", "map",
               "memory", "optional", "string", "string_view", "tuple", "unordered_map", "utility",
               "variant", "vector", "new", "exception", "limits", "type_traits",
               "fmt/format.h", "absl/container/flat_hash_map.h", "absl/container/flat_hash_set.h",
               "absl/container/inlined_vector.h", "absl/container/node_hash_map.h",
               "absl/container/node_hash_set.h"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def gen_version(dst):
    src = os.path.join(REPO, "include/tiro/version.h.in")
    if not os.path.exists(src):
        return
    text = read(src).decode()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", read(os.path.join(REPO, "CMakeLists.txt")).decode())
    v = m.groups() if m else ("0", "0", "1")
    for k, x in zip(("MAJOR", "MINOR", "PATCH"), v):
        text = text.replace("@PROJECT_VERSION_%s@" % k, x)
    text = text.replace("@PROJECT_VERSION@", ".".join(v)).replace("@SOURCE_ID@", "verif")
    os.makedirs(os.path.join(dst, "tiro"), exist_ok=True)
    p = os.path.join(dst, "tiro/version.h")
    if not os.path.exists(p) or read(p).decode() != text:
        with open(p, "w") as f:
            f.write(text)


def build(check, config, verbose=False):
    """Returns the path of the binary for mc/checks/<check>.cpp"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(check, config, verbose)


def _build(check, config, verbose):
    t0 = time.time()
    cache = os.path.join(OUT, "obj")
    os.makedirs(cache, exist_ok=True)
    gen = os.path.join(OUT, "gen")
    gen_version(gen)
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include"), "-I" + gen,
           "-I" + os.path.join(VERIF, "mc"), "-isystem", "/usr/include/utf8cpp"]
    flags = BASE + CONFIGS[config] + inc

    hdrs = []
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), gen):
        for d, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith((".cpp", ".txt", ".in")):
                    hdrs.append(os.path.join(d, f))
    hdrs.sort()
    hkey = sha(*[x for p in hdrs for x in (p, read(p))], " ".join(flags), CXX)
    mhdrs = sorted(glob.glob(os.path.join(VERIF, "mc/common/*.hpp")))
    mkey = sha(hkey, *[x for p in mhdrs for x in (p, read(p))])

    srcs = sorted(p for p in glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True)
                  if "/src/run/" not in p)
    if not srcs:
        raise BuildError("no sources under %s/src" % REPO)
    mine = sorted(glob.glob(os.path.join(VERIF, "mc/common/*.cpp")))
    mine.append(os.path.join(VERIF, "mc/checks", check + ".cpp"))
    jobs = []
    objs = []
    for p in srcs + mine:
        key = sha(mkey if p in mine else hkey, p, read(p))
        o = os.path.join(cache, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((p, o))
        else:
            os.utime(o)
    exe = os.path.join(OUT, "bin-%s-%s" % (check, config))
    ekey = sha(*[os.path.basename(o) for o in objs], " ".join(LINK[config]))
    try:
        if not jobs and os.path.exists(exe) and read(exe + ".key").decode() == ekey:
            return exe
    except OSError:
        pass

    pch = None
    if len(jobs) > 2:
        pch = os.path.join(OUT, "pch-" + sha(hkey) + ".pch")
        if not os.path.exists(pch):
            hp = os.path.join(OUT, "pch-%s.hpp" % config)
            with open(hp, "w") as f:
                for h in STD_HEADERS:
                    f.write("#include <%s>\n" % h)
                for h in PCH_HEADERS:
                    if os.path.exists(os.path.join(REPO, "src", h)):
                        f.write('#include "%s"\n' % h)
            for old in glob.glob(os.path.join(OUT, "pch-*.pch")):
                if time.time() - os.path.getmtime(old) > 600:
                    os.unlink(old)
            tmp = pch + ".tmp"
            r = run([CXX] + flags + ["-fpch-instantiate-templates", "-x", "c++-header", hp, "-o", tmp])
            if r.returncode == 0:
                os.rename(tmp, pch)
            else:
                pch = None

    def compile_one(job):
        p, o = job
        tmp = o + ".tmp.o"
        attempts = []
        if pch:
            attempts.append([CXX] + flags + ["-include-pch", pch])
        attempts.append([CXX] + flags)
        gflags = [f for f in flags if not f.startswith("-gline")]
        gflags = [f.replace("," + UBSAN, ",undefined") if f.startswith("-fsanitize") else f for f in gflags]
        attempts.append([GXX, "-fpermissive"] + [f for f in gflags if not f.startswith(("-fsanitize", "-fno-sanitize"))])
        out = b""
        for a in attempts:
            r = run(a + ["-c", p, "-o", tmp])
            if r.returncode == 0:
                os.rename(tmp, o)
                return None
            out = out + b"\n$ " + " ".join(a).encode() + b"\n" + r.stdout[-6000:]
        return p, out

    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    first = [j for j in jobs if j[0] in mine]
    jobs = first + [j for j in jobs if j[0] not in mine]
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("MC_JOBS", os.cpu_count() or 8))) as ex:
        for res in ex.map(compile_one, jobs):
            if res:
                raise BuildError("cannot compile %s\n%s" % (res[0], res[1].decode(errors="replace")))
    tmp = exe + ".tmp"
    rsp = exe + ".rsp"
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    r = run([CXX] + LINK[config] + ["-fuse-ld=lld", "@" + rsp, "-o", tmp] + libs())
    if r.returncode != 0:
        r = run([CXX] + LINK[config] + ["@" + rsp, "-o", tmp] + libs())
    if r.returncode != 0:
        raise BuildError("link failed\n" + r.stdout.decode(errors="replace")[-8000:])
    os.rename(tmp, exe)
    with open(exe + ".key", "w") as f:
        f.write(ekey)
    # keep the cache bounded
    alls = sorted(glob.glob(os.path.join(cache, "*.o")), key=os.path.getmtime)
    total = sum(os.path.getsize(p) for p in alls)
    keep = set(objs)
    for p in alls:
        if total < (3 << 30):
            break
        if p not in keep:
            total -= os.path.getsize(p)
            os.unlink(p)
    if verbose:
        print("built %s/%s: %d objects in %.1fs" % (check, config, len(jobs), time.time() - t0))
    return exe


_libs = None


def libs():
    global _libs
    if _libs is None:
        r = subprocess.run(["pkg-config", "--libs", "absl_raw_hash_set", "absl_hash", "absl_inlined_vector"],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        ls = r.stdout.decode().split() if r.returncode == 0 else []
        if not ls:
            ls = [x for pat in ("raw_hash_set", "hash", "city", "low_level_hash", "strings", "base")
                  for x in ["-labsl_" + pat]]
        _libs = ls + ["-lfmt", "-lpthread", "-ldl"]
    return _libs


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "fast", True))
    except BuildError as e:
        print(e)
        sys.exit(2)
