"""Content-addressed build driver.

Builds one check binary straight from the sources in /repo's working tree.
The set of repository translation units is found by following the
'#include "cartographer/..."' closure of the harness, so that files added,
split or merged by a change are picked up without any list to maintain.
Objects are reused only if the command line and the *contents* of every
non-system dependency are the same (no timestamps are trusted).
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
GEN = os.path.join(OUT, "gen")
OBJ = os.path.join(OUT, "obj")
BIN = os.path.join(OUT, "bin")
CXX = "g++"

BASE_DEFS = ["-DBOOST_IOSTREAMS_DYN_LINK", "-DBOOST_IOSTREAMS_NO_LIB",
             "-DGFLAGS_IS_A_DLL=0", "-DGLOG_CUSTOM_PREFIX_SUPPORT"]
TSAN_FLAGS = ["-fsanitize=thread", "-U__SANITIZE_THREAD__", "-g1",
              "--param", "tsan-instrument-func-entry-exit=0"]
BASE_FLAGS = ["-std=c++17", "-w", "-pthread", "-fno-strict-aliasing",
              "-fdiagnostics-color=never"]
INCLUDES = ["-I" + GEN, "-isystem", "/usr/include/eigen3", "-I" + REPO,
            "-I" + os.path.join(VERIF, "mc"),
            "-I" + os.path.join(VERIF, "checks"),
            "-isystem", "/usr/include/lua5.2"]
LIBS = ("-lceres -lglog -lgflags -llua5.2 -lboost_iostreams -lcairo -lprotobuf "
        "-labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set "
        "-labsl_bad_variant_access -labsl_bad_optional_access "
        "-labsl_hashtablez_sampler -labsl_str_format_internal "
        "-labsl_synchronization -labsl_time -labsl_strings "
        "-labsl_strings_internal -labsl_base -labsl_throw_delegate "
        "-labsl_raw_logging_internal -labsl_int128 -labsl_cord "
        "-lz -lpthread -lm").split()
# Compiled with a shim for interfaces that the installed Ceres dropped (the
# repository's own build leaves these five files out for the same reason).
CERES_SHIM = {
    "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc",
    "cartographer/mapping/internal/imu_based_pose_extrapolator.cc",
    "cartographer/mapping/internal/optimization/ceres_pose.cc",
    "cartographer/mapping/internal/optimization/optimization_problem_2d.cc",
    "cartographer/mapping/internal/optimization/optimization_problem_3d.cc",
}

INC_RE = re.compile(r'^\s*#\s*include\s*"([^"]+)"', re.M)
IMPORT_RE = re.compile(r'^\s*import\s+(?:public\s+|weak\s+)?"([^"]+)"', re.M)


class BuildError(Exception):
    pass


class LinkError(BuildError):
    pass


def read(path):
    with open(path, "rb") as f:
        return f.read()


_hash_cache = {}
_hash_lock = threading.Lock()


def file_hash(path):
    with _hash_lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        h = hashlib.sha256(read(path)).hexdigest()
    except OSError:
        h = "missing"
    with _hash_lock:
        _hash_cache[path] = h
    return h


def write_if_changed(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode()
    if os.path.exists(path) and read(path) == data:
        return
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def closure(roots, stop=()):
    """Returns (repo .cc files, proto files) reachable from the root sources."""
    seen, todo = set(), list(roots)
    ccs, protos = [], set()

    def add_proto(p):
        if p in protos:
            return
        full = os.path.join(REPO, p)
        if not os.path.exists(full):
            return
        protos.add(p)
        for imp in IMPORT_RE.findall(read(full).decode("utf-8", "replace")):
            if imp.startswith("cartographer/"):
                add_proto(imp)

    while todo:
        path = todo.pop()
        if path in seen:
            continue
        seen.add(path)
        text = read(path).decode("utf-8", "replace")
        for inc in INC_RE.findall(text):
            if not inc.startswith("cartographer/"):
                for d in (os.path.join(VERIF, "mc"),
                          os.path.join(VERIF, "checks")):
                    p = os.path.join(d, inc)
                    if os.path.exists(p):
                        todo.append(p)
                continue
            if inc.endswith(".pb.h"):
                add_proto(inc[:-5] + ".proto")
                continue
            full = os.path.join(REPO, inc)
            if not os.path.exists(full):
                continue
            todo.append(full)
            if inc.endswith(".h"):
                cc = inc[:-2] + ".cc"
                if (os.path.exists(os.path.join(REPO, cc)) and cc not in ccs and
                        cc not in stop and not cc.endswith("_test.cc")):
                    ccs.append(cc)
                    todo.append(os.path.join(REPO, cc))
    return sorted(ccs), sorted(protos)


def gen_config():
    tmpl = os.path.join(REPO, "cartographer/common/config.h.cmake")
    text = read(tmpl).decode()
    text = text.replace("@CARTOGRAPHER_CONFIGURATION_FILES_DIRECTORY@",
                        os.path.join(REPO, "configuration_files"))
    text = text.replace("@PROJECT_SOURCE_DIR@", REPO)
    write_if_changed(os.path.join(GEN, "cartographer/common/config.h"), text)


def gen_protos(protos):
    """Runs protoc for the .proto files whose content changed."""
    stale = []
    for p in protos:
        key = hashlib.sha256()
        deps, todo = set(), [p]
        while todo:
            q = todo.pop()
            if q in deps:
                continue
            deps.add(q)
            full = os.path.join(REPO, q)
            if os.path.exists(full):
                todo += [i for i in IMPORT_RE.findall(
                    read(full).decode("utf-8", "replace"))
                    if i.startswith("cartographer/")]
        for q in sorted(deps):
            key.update((q + file_hash(os.path.join(REPO, q))).encode())
        stamp = os.path.join(GEN, p + ".stamp")
        out = os.path.join(GEN, p[:-6] + ".pb.cc")
        if (os.path.exists(stamp) and os.path.exists(out) and
                read(stamp).decode() == key.hexdigest()):
            continue
        stale.append((p, stamp, key.hexdigest()))
    if stale:
        os.makedirs(GEN, exist_ok=True)
        r = subprocess.run(["protoc", "-I", REPO, "--cpp_out", GEN] +
                           [os.path.join(REPO, s[0]) for s in stale],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("protoc failed:\n" + r.stderr)
        for p, stamp, k in stale:
            write_if_changed(stamp, k)
            _hash_cache.pop(os.path.join(GEN, p[:-6] + ".pb.cc"), None)
            _hash_cache.pop(os.path.join(GEN, p[:-6] + ".pb.h"), None)


def parse_deps(dfile):
    text = read(dfile).decode().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    return [d for d in deps if not d.startswith("/usr/")]


def compile_one(src, flags):
    cmd = [CXX] + flags + ["-c", src]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
    base = os.path.join(OBJ, key)
    obj, man = base + ".o", base + ".json"
    if os.path.exists(obj) and os.path.exists(man):
        try:
            with open(man) as f:
                deps = json.load(f)
            if all(file_hash(d) == h for d, h in deps.items()):
                return obj, False
        except ValueError:
            pass
    os.makedirs(OBJ, exist_ok=True)
    tmp = base + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp + ".o", "-MD", "-MF", tmp + ".d"],
                       capture_output=True, text=True)
    if r.returncode:
        for suf in (".o", ".d"):
            if os.path.exists(tmp + suf):
                os.unlink(tmp + suf)
        raise BuildError("compilation failed: %s\n%s" %
                         (" ".join(map(shlex.quote, cmd)), r.stderr[-6000:]))
    deps = {os.path.normpath(d): file_hash(os.path.normpath(d))
            for d in parse_deps(tmp + ".d")}
    os.unlink(tmp + ".d")
    os.replace(tmp + ".o", obj)
    write_if_changed(man, json.dumps(deps))
    return obj, True


def build(name, spec, verbose=False):
    """spec: dict(src=[...], sched=bool, instrument=[globs], defs=[], opt='-O2',
    stop=[...], asan=bool). plain_src: linked first, uninstrumented, left out
    when they do not compile. With only=[globs], other repository sources are left
    out; should the program not link then, everything reachable is built."""
    if "only" in spec:
        try:
            return build_impl(name, spec, verbose)
        except LinkError as e:
            if os.environ.get("MC_LINK_ERRORS"): sys.stderr.write(str(e))
            sys.stderr.write("build %s: not all needed sources were listed, "
                             "building everything reachable\n" % name)
            spec = {k: v for k, v in spec.items() if k != "only"}
    return build_impl(name, spec, verbose)


def build_impl(name, spec, verbose):
    import fnmatch
    gen_config()
    srcs = [os.path.join(VERIF, "checks", s) for s in spec["src"]]
    srcs.append(os.path.join(VERIF, "mc", "mc.cc"))
    if spec.get("sched"):
        srcs.append(os.path.join(VERIF, "mc", "mc_sched.cc"))
        srcs.append(os.path.join(VERIF, "mc", "interpose.cc"))
    roots = list(srcs)
    ccs, protos = closure(roots, set(spec.get("stop", ())))
    if "only" in spec:
        ccs = [c for c in ccs if any(fnmatch.fnmatch(c, g) for g in spec["only"])]
    gen_protos(protos)
    opt = spec.get("opt", "-O2")
    common = BASE_FLAGS + BASE_DEFS + INCLUDES
    if not spec.get("ndebug", False):
        common = common + ["-D_GLIBCXX_ASSERTIONS"]
    else:
        common = common + ["-DNDEBUG"]
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if spec.get("asan") else []
    jobs = []
    for s in srcs:
        f = common + [opt] + san
        if s.startswith(os.path.join(VERIF, "checks")):
            f = f + spec.get("defs", [])
        if spec.get("sched"):
            f = f + ["-DMC_SCHED=1"]
        harness = spec.get("instrument_harness", ())
        if spec.get("sched") and s.startswith(os.path.join(VERIF, "checks")) and \
                (harness is True or os.path.basename(s) in harness):
            f = f + TSAN_FLAGS
        jobs.append((s, f))
    for c in ccs:
        f = common + [opt] + san
        if c in CERES_SHIM:
            f = f + ["-include", os.path.join(VERIF, "mc", "ceres_shim.h")]
        if spec.get("sched") and any(
                fnmatch.fnmatch(c, g) for g in spec.get("instrument", ())):
            f = f + TSAN_FLAGS
        jobs.append((os.path.join(REPO, c), f))
    for p in protos:
        jobs.append((os.path.join(GEN, p[:-6] + ".pb.cc"),
                     BASE_FLAGS + BASE_DEFS + ["-I" + GEN, "-O1", "-DNDEBUG"] + san))
    # Longest first, roughly: hand-written sources before generated ones.
    optional = {os.path.join(VERIF, "checks", s) for s in spec.get("plain_src", ())}
    for s in sorted(optional):
        jobs.append((s, common + [opt] + spec.get("defs", [])))
    objs, built = [None] * len(jobs), 0
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = {ex.submit(compile_one, s, f): i for i, (s, f) in enumerate(jobs)}
        try:
            for fut in concurrent.futures.as_completed(futs):
                try:
                    o, fresh = fut.result()
                except BuildError:
                    if jobs[futs[fut]][0] not in optional:
                        raise
                    continue
                objs[futs[fut]] = o
                built += fresh
        except BuildError:
            for fu in futs:
                fu.cancel()
            raise
    # Of inline functions emitted several times the linker keeps the first copy:
    # the instrumented one, except for what only does number crunching.
    def rank(job):
        s, f = job
        if s in optional:
            return -1
        if any(fnmatch.fnmatch(s, os.path.join(REPO, g)) for g in spec.get("plain_first", ())):
            return 0
        return 1 if "-fsanitize=thread" in f else 2
    link_order = [o for _, o in sorted(zip(map(rank, jobs), objs), key=lambda p: p[0]) if o]
    os.makedirs(BIN, exist_ok=True)
    out = os.path.join(BIN, name)
    link_key = hashlib.sha256(json.dumps(
        [link_order, [file_hash(o) for o in link_order], san]).encode()).hexdigest()
    stamp = out + ".stamp"
    if not (os.path.exists(out) and os.path.exists(stamp) and
            read(stamp).decode() == link_key):
        libs = [l for l in LIBS if l not in spec.get("nolibs", ())]
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX, "-o", tmp, "-rdynamic"] + link_order + san +
                           ["-Wl,--as-needed"] + libs + ["-ldl"],
                           capture_output=True, text=True)
        if r.returncode:
            raise LinkError("link failed:\n" + r.stderr[-6000:])
        os.replace(tmp, out)
        write_if_changed(stamp, link_key)
    if verbose:
        sys.stderr.write("build %s: %d repo files, %d protos, %d compiled\n" %
                         (name, len(ccs), len(protos), built))
    return out, dict(repo_files=len(ccs), protos=len(protos), compiled=built)
