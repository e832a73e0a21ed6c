"""Compiling generated code."""
import hashlib
import os
import subprocess

import pp  # noqa: F401
import build

FLAGS = ["-std=c++20", "-O0", "-pthread", "-w", "-I" + f"{build.REPO}/include", "-I" + build.PY_INCLUDE]
PCH = """#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <map>
#include <numeric>
#include <sstream>
#include <type_traits>
#include <vector>
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionBase.h"
#include "podio/DatamodelRegistry.h"
#include "podio/Frame.h"
#include "podio/LinkCollection.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include "podio/detail/Link.h"
#include "podio/utilities/TypeHelpers.h"
"""
PLAIN = """#include <array>
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <type_traits>
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def library():
    """(include flags, objects) of podio's core library; raises build.BuildError"""
    d, objs, _ = build.build_core("none")
    return ["-I" + f"{d}/inc"], objs


def prepare(text=PCH, name="pch", extra=()):
    """makes a precompiled header before the workers start; returns the flags that use it"""
    d, _, _ = build.core_plan("none")
    own = "".join(build.read(os.path.join(build.CPP, f), "r") for f in sorted(os.listdir(build.CPP)) if f.endswith(".h")) if extra else ""
    key = hashlib.sha256((build.repo_core_hash() + text + " ".join([*FLAGS, *extra]) + own).encode()).hexdigest()[:16]
    h = os.path.join(build.BUILD, f"{name}-{key}.h")
    with build.Lock(h + ".lock"):
        if not os.path.exists(h + ".pch"):
            for f in os.listdir(build.BUILD):
                if f.startswith(name + "-") and key not in f and not f.endswith(".lock"):
                    os.unlink(os.path.join(build.BUILD, f))
            with open(h, "w") as f:
                f.write(text)
            r = run([build.CXX, *FLAGS, *extra, "-I" + f"{d}/inc", "-x", "c++-header", h, "-o", h + ".tmp"])
            if r.returncode != 0:
                raise build.BuildError("core", r.stdout)
            os.rename(h + ".tmp", h + ".pch")
    return ["-I" + f"{d}/inc", "-include-pch", h + ".pch"]


def tidy(out, w):
    """the interesting part of a compiler's output"""
    ls = [x.replace(w + "/", "") for x in out.split("\n")]
    i = next((i for i, x in enumerate(ls) if " error: " in x or "undefined reference" in x), 0)
    return "\n".join(ls[max(0, i - 3):i + 12])[:2000]


def check_syntax(source, flags, w, what):
    r = run([build.CXX, *FLAGS, *flags, "-fsyntax-only", source])
    if r.returncode < 0 or r.returncode > 100:
        r = run([build.CXX, *FLAGS, *flags, "-fsyntax-only", source])
    assert r.returncode == 0, f"{what} does not compile:\n{tidy(r.stdout, w)}"


def build_and_run(source, flags, objs, w, what, timeout=60):
    exe = os.path.join(w, "program")
    cmd = [build.CXX, *FLAGS, *flags, source, *objs, "-o", exe, "-lfmt", *build.py_link()]
    r = run(cmd)
    if r.returncode < 0 or r.returncode > 100:
        r = run(cmd)
    assert r.returncode == 0, f"{what} does not compile:\n{tidy(r.stdout, w)}"
    r = run([exe], timeout=timeout, cwd=w)
    assert r.returncode == 0, f"{what}: the program ends with {r.returncode}:\n{r.stdout[-2500:]}"
    return r.stdout
