"""Builds podio's core library, generated models and the property programs from /repo's working tree.

Everything is keyed by the content of what goes in (repository sources, generator, model text, harness sources, flags),
so a cached build is only used when nothing it depends on changed. The cache lives in /verif/.build (ignored by git).
"""
import concurrent.futures
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CPP = os.path.join(VERIF, "cpp")
CXX = "clang++"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
PY_INCLUDE = sysconfig.get_paths()["include"]
if "/opt/veriftools" in PY_INCLUDE or not os.path.exists(os.path.join(PY_INCLUDE, "Python.h")):
    try:
        PY_INCLUDE = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"],
                                    capture_output=True, text=True, check=True).stdout.strip()
    except Exception:  # pylint: disable=broad-except
        pass

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-O1"],
    "none": [],
}


class BuildError(Exception):
    """what: core | generator | generated | harness"""

    def __init__(self, what, log):
        super().__init__(f"{what}: {log[:4000]}")
        self.what = what
        self.log = log


def read(p, mode="rb"):
    with open(p, mode) as f:
        return f.read()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            for d, dirs, files in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", ".git"))
                for f in sorted(files):
                    if f.endswith(".pyc"):
                        continue
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, p).encode() + b"\0" + read(q) + b"\0")
        elif os.path.exists(p):
            h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


_CACHE = {}


def repo_core_hash():
    if "core" not in _CACHE:
        _CACHE["core"] = tree_hash([f"{REPO}/include", f"{REPO}/src", f"{REPO}/podioVersion.in.h", f"{REPO}/CMakeLists.txt"])
    return _CACHE["core"]


def repo_gen_hash():
    if "gen" not in _CACHE:
        _CACHE["gen"] = tree_hash([f"{REPO}/python"])
    return _CACHE["gen"]


def core_sources():
    """the sources podio's own build lists for its core library"""
    txt = read(f"{REPO}/src/CMakeLists.txt", "r")
    m = re.search(r"set\s*\(\s*core_sources([^)]*)\)", txt, re.I)
    if not m:
        raise BuildError("core", "core_sources not found in src/CMakeLists.txt")
    return [os.path.join(REPO, "src", s) for s in re.sub(r"#.*", "", m.group(1)).split()]


def version_tuple():
    txt = read(f"{REPO}/CMakeLists.txt", "r")
    return {k: int(v) for k, v in re.findall(r"_VERSION_(MAJOR|MINOR|PATCH) +([0-9]+)", txt)}


def write_version_header(outdir):
    v = version_tuple()
    t = read(f"{REPO}/podioVersion.in.h", "r")
    for k, n in v.items():
        t = t.replace(f"@podio_VERSION_{k}@", str(n))
    os.makedirs(f"{outdir}/podio", exist_ok=True)
    with open(f"{outdir}/podio/podioVersion.h", "w") as f:
        f.write(t)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


SLOTS = threading.Semaphore(JOBS)


def toolchain_works():
    d = os.path.join(BUILD, f"probe.{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    try:
        with open(f"{d}/a.cc", "w") as f:
            f.write("#include <vector>\n#include <string>\nint main(){std::vector<std::string> v; return int(v.size());}\n")
        return run([CXX, "-std=c++20", f"{d}/a.cc", "-o", f"{d}/a"]).returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compile_all(jobs):
    """jobs: [(cmd, what)], run in parallel; raises BuildError for the first failure"""
    def one(j):
        cmd, what = j
        with SLOTS:
            r = run(cmd)
            if r.returncode != 0:
                r = run(cmd)  # a compiler that was killed is not an answer
        return (r.returncode, r.stdout, what, cmd)
    with concurrent.futures.ThreadPoolExecutor(max(1, len(jobs))) as ex:
        res = list(ex.map(one, jobs))
    # report problems in the repository's own code first
    order = {"core": 0, "generated": 1, "harness": 2}
    bad = sorted((r for r in res if r[0] != 0), key=lambda r: order.get(r[2], 3))
    if bad:
        rc, out, what, cmd = bad[0]
        raise BuildError(what, f"$ {' '.join(cmd)}\n{out}")


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def prune(keep=14):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def base_flags(json=False):
    f = ["-std=c++20", "-g1", "-O0", "-fPIC", "-pthread", "-I" + CPP, "-I" + f"{REPO}/include", "-I" + PY_INCLUDE,
         "-Wno-deprecated-declarations"]
    if json:
        f.append("-DPODIO_JSON_OUTPUT")
    return f


def core_plan(san="asan", cxx=CXX, extra=()):
    """(dir, [objects], flags) of the core library, which need not be there yet (except for the headers made from templates)"""
    key = hashlib.sha256(("core" + repo_core_hash() + san + cxx + " ".join(extra) + " ".join(base_flags())).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, f"core-{san}-{key}")
    flags = base_flags() + SAN[san] + list(extra) + ["-I" + f"{d}/inc"]
    objs = [f"{d}/{os.path.basename(s)}.o" for s in core_sources()]
    with Lock(d + ".lock"):
        if not os.path.exists(f"{d}/inc/podio/podioVersion.h"):
            write_version_header(f"{d}/inc")
    return d, objs, flags


def build_core(san="asan", cxx=CXX, extra=()):
    """returns (dir, [objects], flags)"""
    d, objs, flags = core_plan(san, cxx, extra)
    with Lock(d + ".lock"):
        if not os.path.exists(f"{d}/ok"):
            compile_all([([cxx] + flags + ["-c", s, "-o", o], "core") for s, o in zip(core_sources(), objs)])
            open(f"{d}/ok", "w").close()
        os.utime(d)
    return d, objs, flags


def generate(yaml_file, out, package, extra=(), handlers=("ROOT",), repo=None, timeout=300):
    """run podio's class generator as a user does; returns CompletedProcess"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TMPDIR=os.path.join(out, "tmp"))
    env.pop("PYTHONPATH", None)
    os.makedirs(env["TMPDIR"], exist_ok=True)
    return run(["/usr/bin/python3", f"{repo or REPO}/python/podio_class_generator.py", "-q", *extra, yaml_file, out, package, *handlers],
               env=env, timeout=timeout)


PCH_JSON = '#include "erased_impl.h"\n#include <nlohmann/json.hpp>\n'
PCH = """#include "erased_impl.h"
#include <iomanip>
#include <numeric>
#include <unordered_map>
#include "podio/CollectionBufferFactory.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include "podio/LinkCollection.h"
#include "podio/detail/Link.h"
"""


def build_model(model, san="asan", json=False, pch=True, extra_gen=(), extra_flags=(), also=None):
    """generate, compile and adapt a model. Returns (dir, [objects], flags). also(dir, flags) gives further compilations that can
    run at the same time"""
    yaml_text = model.yaml()
    up = None
    if model.upstream:
        up = build_model(model.upstream, san, json, pch)
    cdir, cobjs, cflags = core_plan(san)
    adapters = dict(model.adapters())
    hh = hashlib.sha256()
    for x in (repo_core_hash(), repo_gen_hash(), yaml_text, model.upstream.yaml() if model.upstream else "", str(sorted(adapters.items())),
              model.adapter_registry(), read(f"{CPP}/erased.h", "r"), read(f"{CPP}/erased_impl.h", "r"), san, str(json), str(pch),
              " ".join(extra_gen), " ".join(extra_flags), " ".join(base_flags(json))):
        hh.update(x.encode() + b"\0")
    d = os.path.join(BUILD, f"model-{model.package}-{san}{'-json' if json else ''}-{hh.hexdigest()[:20]}")
    incs = ["-I" + f"{d}/gen"] + (["-I" + f"{up[0]}/gen"] if up else [])
    if up and not model.upstream.opts["includeSubfolder"]:
        incs.append("-I" + f"{up[0]}/gen/{model.upstream.package}")
    if not model.opts["includeSubfolder"]:
        incs.append("-I" + f"{d}/gen/{model.package}")
    flags = base_flags(json) + SAN[san] + ["-I" + f"{cdir}/inc"] + incs + list(extra_flags)
    with concurrent.futures.ThreadPoolExecutor(2) as ex, Lock(d + ".lock"):
        futures = [ex.submit(build_core, san)]
        if not os.path.exists(f"{d}/ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(f"{d}/gen")
            yf = f"{d}/{model.package}.yaml"
            with open(yf, "w") as f:
                f.write(yaml_text)
            xg = list(extra_gen)
            if model.upstream:
                uf = f"{d}/{model.upstream.package}.yaml"
                with open(uf, "w") as f:
                    f.write(model.upstream.yaml())
                xg += ["--upstream-edm", f"{model.upstream.package}:{uf}"]
            r = generate(yf, f"{d}/gen", model.package, xg)
            if r.returncode != 0:
                raise BuildError("generator", r.stdout)
            for n, t in adapters.items():
                with open(f"{d}/{n}", "w") as f:
                    f.write(t)
        if also:
            futures.append(ex.submit(compile_all, also(d, flags)))
        err = None
        if not os.path.exists(f"{d}/ok"):
            pf = []
            if pch:
                with open(f"{d}/pch.h", "w") as f:
                    f.write((PCH_JSON if json else "") + PCH)
                r = run([CXX] + flags + ["-x", "c++-header", f"{d}/pch.h", "-o", f"{d}/pch.h.pch"])
                if r.returncode == 0:
                    pf = ["-include-pch", f"{d}/pch.h.pch"]
            jobs, objs = [], []
            gsrc = [f"{d}/gen/src/{f}" for f in sorted(os.listdir(f"{d}/gen/src")) if f.endswith(".cc")]
            # the big ones first
            for s in [f"{d}/{n}" for n in adapters] + sorted(gsrc, key=os.path.getsize, reverse=True):
                o = s + ".o" if s.startswith(f"{d}/ops") else f"{d}/g_{os.path.basename(s)}.o"
                objs.append(o)
                jobs.append(([CXX] + flags + pf + ["-c", s, "-o", o], "harness" if "/ops_" in s else "generated"))
            try:
                compile_all(jobs)
                with open(f"{d}/objs", "w") as f:
                    f.write("\n".join(objs))
                open(f"{d}/ok", "w").close()
            except BuildError as e:
                err = e
        for f in futures:
            try:
                f.result()
            except BuildError as e:
                # the root cause: core, then generated code, then programs using it
                if err is None or e.what == "core" or (e.what == "generated" and err.what == "harness"):
                    err = e
        if err:
            raise err
        os.utime(d)
    objs = read(f"{d}/objs", "r").split("\n")
    if up:
        objs = objs + [o for o in up[1] if o not in objs and o not in cobjs]
    return d, objs + cobjs, flags


STANDIN_SOURCES = ["SIOBlockUserData.cc", "SIOBlock.cc", "SIOWriter.cc", "SIOReader.cc", "SIOFrameData.cc", "SIOLegacyReader.cc", "Reader.cc", "Writer.cc"]


def build_props(source, model=None, san="asan", json=False, extra_flags=(), defines=(), sio=False):
    """compile a property program; returns the executable"""
    local = [os.path.join(CPP, f) for f in sorted(os.listdir(CPP)) if f.endswith((".h", ".inc"))] + \
        [os.path.join(CPP, source), os.path.join(CPP, "pbt.cc")]
    texts = [read(p) for p in local]
    sio_flags = []
    if sio:  # with podio's SIO backend and generic reader and writer on top of stand-ins for SIO and ROOT
        sio_flags = [f"-I{CPP}/standin", f"-I{CPP}/standin/root", f"-I{REPO}/src", "-DPODIO_ENABLE_SIO=1", "-DPODIO_ENABLE_RNTUPLE=1"]
        texts.append(tree_hash([f"{CPP}/standin", f"{REPO}/tools/src"]).encode())
    jf = ["-DPODIO_JSON_OUTPUT"] if json and model is None else []
    place = {"extra": []}

    def plan(d, flags):
        hh = hashlib.sha256()
        for t in texts:
            hh.update(t)
        hh.update((d + " ".join(flags) + " ".join(extra_flags) + " ".join(defines)).encode())
        out = os.path.join(BUILD, f"prop-{os.path.splitext(source)[0]}-{hh.hexdigest()[:20]}")
        place["out"] = out
        if os.path.exists(f"{out}/ok"):
            return []
        place["lock"] = Lock(out + ".lock")
        place["lock"].__enter__()
        if os.path.exists(f"{out}/ok"):
            return []
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        allf = sio_flags + list(flags) + jf + list(extra_flags) + [f"-D{x}" for x in defines]
        jobs = [([CXX] + allf + ["-c", os.path.join(CPP, source), "-o", f"{out}/prop.o"], "harness"),
                ([CXX] + base_flags() + SAN[san] + ["-c", os.path.join(CPP, "pbt.cc"), "-o", f"{out}/pbt.o"], "harness")]
        if model is not None:
            with open(f"{out}/reg.cc", "w") as f:
                f.write(model.adapter_registry())
            jobs.append(([CXX] + allf + ["-c", f"{out}/reg.cc", "-o", f"{out}/reg.o"], "harness"))
        if sio:
            r = generate(f"{d}/{model.package}.yaml", f"{out}/sio", model.package, handlers=("ROOT", "SIO"))
            if r.returncode != 0:
                raise BuildError("generator", r.stdout)
            srcs = [(f"{REPO}/src/{s}", "core") for s in STANDIN_SOURCES]
            srcs += [(f"{out}/sio/src/{s}", "generated") for s in sorted(os.listdir(f"{out}/sio/src")) if s.endswith("SIOBlock.cc")]
            for s, what in srcs:
                o = f"{out}/{os.path.basename(s)}.o"
                place["extra"].append(o)
                jobs.append(([CXX] + sio_flags + [f"-I{out}/sio"] + list(flags) + ["-c", s, "-o", o], what))
        return jobs

    try:
        if model is not None:
            d, objs, flags = build_model(model, san, json, also=plan)
        else:
            d, objs, flags = core_plan(san)
            jobs = plan(d, flags)
            build_core(san)
            compile_all(jobs)
        out = place["out"]
        exe = f"{out}/run"
        if not os.path.exists(f"{out}/ok"):
            regs = [f"{out}/reg.o"] if model is not None else []
            r = run([CXX] + SAN[san] + ["-pthread", f"{out}/prop.o", f"{out}/pbt.o"] + place["extra"] + regs + objs + ["-o", exe, "-lfmt"] + py_link())
            if r.returncode != 0:
                raise BuildError("harness", r.stdout)
            open(f"{out}/ok", "w").close()
        os.utime(out)
    finally:
        if "lock" in place:
            place["lock"].__exit__()
    prune()
    return exe


def py_link():
    # Pythonizations.cc uses the Python C API; symbols are never called by the checks
    v = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig as s; print(s.get_config_var('LIBDIR'), s.get_config_var('LDVERSION'))"],
                       capture_output=True, text=True).stdout.split()
    return [f"-L{v[0]}", f"-lpython{v[1]}"]


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(__file__))
    import mgen
    t = time.time()
    print(build_model(mgen.vm_model())[0], time.time() - t)
