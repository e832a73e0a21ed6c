"""Code that is generated for random models compiles and follows the model (G04, with upstream models G11)."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil

import pp
import gen
import build
import cxx
import models as M
from hypothesis import strategies as st
from evolve import element
from models import bare, models

MAINS = ["histories.cc", "io.cc", "clones.cc", "frame.cc", "handles.cc", "output.cc", "pbt.cc"]
HARNESS = cxx.PCH + "".join(x for x in build.PCH.splitlines(True) if x not in cxx.PCH.splitlines(True))
# property of the program -> cases for one model
RUNS = {"collections_are_faithful_sequences": 60, "handles_and_collections_manage_lifetime": 60, "subset_collections_only_refer": 40,
        "links_follow_the_rules_of_objects": 40, "frames_survive_storage": 25, "links_survive_storage": 25, "preparing_is_repeatable_and_harmless": 15,
        "clones_are_complete_and_independent": 30, "equality_follows_identity": 40, "frame_is_a_write_once_store": 30,
        "printing_shows_the_content_and_keeps_the_stream": 30}


def harness():
    """objects of the programs that drive any model; built once"""
    inc, core = cxx.library()
    h = hashlib.sha256(build.repo_core_hash().encode())
    for f in sorted(x for x in os.listdir(build.CPP) if x.endswith((".h", ".cc", ".inc"))):
        h.update(build.read(os.path.join(build.CPP, f)))
    flags = [*cxx.FLAGS, *inc, "-I" + build.CPP]
    h.update(" ".join(flags).encode())
    d = os.path.join(build.BUILD, "drive-" + h.hexdigest()[:16])
    objs = [os.path.join(d, m + ".o") for m in MAINS]
    with build.Lock(d + ".lock"):
        if not os.path.exists(d + "/ok"):
            os.makedirs(d, exist_ok=True)
            build.compile_all([([build.CXX, *flags, "-c", os.path.join(build.CPP, m), "-o", o], "harness") for m, o in zip(MAINS, objs)])
            open(d + "/ok", "w").close()
        os.utime(d)
    return objs + core


@st.composite
def cases(draw):
    S = draw(models(max_type=3, max_comp=3, max_if=1, max_link=1, extras=True))
    return {"model": S, "up": None, "seed": draw(st.integers(0, 10**6))}


@st.composite
def up_cases(draw):
    up = draw(models(package="upm", max_type=2, max_comp=2, max_if=1, max_link=1))
    S = draw(models(upstream=up, max_type=2, max_comp=2, max_if=1, max_link=1, extras=True, min_type=0, same_get=True))
    # links between the same types are the same C++ type under two names
    pairs = [(x["from"], x["to"]) for x in up["links"].values()]
    S["links"] = {n: x for n, x in S["links"].items() if (x["from"], x["to"]) not in pairs}
    return {"model": S, "up": up, "seed": draw(st.integers(0, 10**6))}


def generate(c, w):
    """generates the code; returns the sources, the include flags, and the models as the adapters know them"""
    out = os.path.join(w, "o")
    args, srcs, inc, um = [], [], [], None
    if c["up"]:
        uo = os.path.join(w, "u")
        uf = gen.write_model(c["up"], w)
        gen.must_run(uf, uo, "upm")
        args = ["--upstream-edm", f"upm:{uf}"]
        srcs += [os.path.join(uo, "src", f) for f in sorted(os.listdir(os.path.join(uo, "src"))) if f.endswith(".cc")]
        inc += ["-I" + uo] + ([] if c["up"]["options"]["includeSubfolder"] else ["-I" + os.path.join(uo, "upm")])
        um = M.to_mgen(c["up"])
    gen.must_run(gen.write_model(c["model"], w), out, "pkg", *args)
    srcs += [os.path.join(out, "src", f) for f in sorted(os.listdir(os.path.join(out, "src"))) if f.endswith(".cc")]
    inc = ["-I" + out] + ([] if c["model"]["options"]["includeSubfolder"] else ["-I" + os.path.join(out, "pkg")]) + inc
    return srcs, inc, M.to_mgen(c["model"], um)


def extra_checks(m):
    """a program part that uses what the adapters do not: extra code, names and the embedded definition"""
    o = ['#include "erased.h"', "#include <stdexcept>"]
    b = []
    S = m.d["source"]
    for n, x in S["components"].items():
        o.append(m.include(n))
        if "extra" in x:
            b.append(f"  if (::{n}{{}}.extra1() != 42) bad = \"extra code of {n}\";")
    for n, x in S["datatypes"].items():
        o.append(m.include(n))
        mut = "::" + "::".join(n.split("::")[:-1] + ["Mutable" + bare(n)])
        if "extra" in x:
            b.append(f"  if (::{n}{{}}.exf() != 1.5 || ::{n}::exg() != 7 || {mut}{{}}.exf() != 1.5 || {mut}::exg() != 7) bad = \"extra code of {n}\";")
        if "mutextra" in x:
            b.append(f"  {{ {mut} o{{}}; o.exm(); }}")
    p, sub = S["package"], f"{S['package']}/" if S["options"]["includeSubfolder"] else ""
    o.append(f'#include "{sub}{p}.h"')
    o.append("""namespace {
template <typename L, typename... T> struct Lists : std::false_type {};
template <typename T, typename... U> constexpr bool among = (std::is_same_v<T, U> || ...);
template <typename... X, typename... T> struct Lists<podio::utils::TypeList<X...>, T...>
    : std::bool_constant<sizeof...(X) == sizeof...(T) && (among<X, T...> && ...) && (among<T, X...> && ...)> {};
}""")
    for what, names, end in (("DataTypes", S["datatypes"], ""), ("DataCollectionTypes", S["datatypes"], "Collection"), ("LinkTypes", S["links"], ""),
                             ("LinkCollectionTypes", S["links"], "Collection"), ("InterfaceTypes", S["interfaces"], "")):
        o.append(f'static_assert(Lists<{p}::{p}{what}' + "".join(f", ::{n}{end}" for n in names) + f'>::value, "{what} are not those of the model");')
    o.append("const char* extraChecks() { const char* bad = nullptr;")
    return "\n".join(o + b + ["  return bad; }", "static const bool extraOk = [] { if (auto* b = extraChecks()) throw std::runtime_error(b); return true; }();"]) + "\n"


def compile_model(c, w, jobs):
    srcs, inc, m = generate(c, w)
    m.d["source"] = c["model"]
    a = os.path.join(w, "a")
    os.makedirs(a)
    parts = []
    for k, x in enumerate([m.upstream, m] if c["up"] else [m]):
        for n, t in x.adapters().items():
            parts.append(os.path.join(a, f"{k}_{n}"))
            with open(parts[-1], "w", encoding="utf-8") as f:
                f.write(t)
    for n, t in (("reg.cc", m.adapter_registry()), ("extra.cc", extra_checks(m))):
        parts.append(os.path.join(a, n))
        with open(parts[-1], "w", encoding="utf-8") as f:
            f.write(t)
    objs = []
    todo = []
    ups = [x for x in srcs if x.startswith(os.path.join(w, "u"))]
    for name, fs, what in (("gen", srcs[len(ups):], "the generated code"), ("ups", ups, "the upstream model's code"), ("use", parts, "a program that uses the generated code")):
        if not fs:
            continue
        u = os.path.join(w, name + ".cc")
        with open(u, "w", encoding="utf-8") as f:
            f.write("".join(f'#include "{x}"\n' for x in fs))
        objs.append(u + ".o")
        todo.append(([build.CXX, *cxx.FLAGS, *HPCH, "-I" + build.CPP, *(reversed(inc) if name == "ups" else inc), "-c", u, "-o", u + ".o"], what))

    def one(j):
        r = cxx.run(j[0])
        if r.returncode < 0 or r.returncode > 100:
            r = cxx.run(j[0])
        return r
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r, (_, what) in zip(ex.map(one, todo), todo):
            assert r.returncode == 0, f"{what} does not compile:\n{cxx.tidy(r.stdout, w)}"
    exe = os.path.join(w, "program")
    r = cxx.run([build.CXX, *objs, *DRIVE, "-o", exe, "-pthread", "-lfmt", *build.py_link()])
    assert r.returncode == 0, f"the program does not link:\n{cxx.tidy(r.stdout, w)}"
    return exe, m


def drive(exe, c, w, scale=1):
    links = c["model"]["links"] or (c["up"] and c["up"]["links"])
    total = {}
    for p, n in RUNS.items():
        if p.startswith("links") and not links:
            continue
        t = os.path.join(w, "t")
        os.makedirs(t, exist_ok=True)
        out = os.path.join(w, "out.json")
        if os.path.exists(out):
            os.unlink(out)
        r = cxx.run([exe, "--prop", p, "--seed", str(c["seed"]), "--cases", str(n * scale), "--workers", "1", "--time", "60", "--shrink-time", "4",
                     "--out", out, "--tmp", t], cwd=w)
        if r.returncode != 0:
            d = json.load(open(out)) if os.path.exists(out) else {}
            f = d.get("failure") or {}
            raise AssertionError(f"{p}: {f.get('why') or f.get('message') or ''}\n{(f.get('log') or r.stdout)[-2500:]}")
        d = json.load(open(out))
        total[p] = d.get("evaluations", 0)
        shutil.rmtree(t, ignore_errors=True)
    return total


def check(c, rec):
    with gen.scratch() as w:
        exe, m = compile_model(c, w, 2)
        drive(exe, c, w)
    S = c["model"]
    if len(S["datatypes"]) + len(S["links"]) > 1 and any(x["one"] or x["many"] or x["vec"] for x in S["datatypes"].values()):
        rec.nontrivial()
    for k in ("components", "interfaces", "links"):
        if S[k]:
            rec.label(k)
    for k, v in S["options"].items():
        if v:
            rec.label(k)


def check_up(c, rec):
    """a model and the one it extends work together"""
    U, S = c["up"], c["model"]
    with gen.scratch() as w:
        exe, _ = compile_model(c, w, 2)
        own = gen.tree(os.path.join(w, "o"))
        names = {bare(n) for k in ("components", "datatypes", "interfaces", "links") for n in U[k]}
        for f, text in own.items():
            if not f.endswith((".h", ".cc")):
                continue
            text = text.decode()
            b = os.path.basename(f)[:-3] if f.endswith(".cc") else os.path.basename(f)[:-2]
            assert b not in names and not any(b in (n + "Collection", n + "Obj", n + "Data", "Mutable" + n, n + "CollectionData") for n in names), f"{f} is generated for a type of the upstream model"
            d = re.search(r"^(?:class|struct) (?:Mutable)?(" + "|".join(sorted(names) or ["_"]) + r")(?:Obj|Data|Collection|CollectionData)?\b[^;]*{", text, re.M)
            assert not d, f"{f} defines {d.group(1)}, which is a type of the upstream model"
            for i in re.findall(r'#include "([^"]+)"', text):
                m = re.match(r"(?:(\w+)/)?(?:Mutable)?(" + "|".join(sorted(names) or ["_"]) + r")(?:Obj|Data|Collection|CollectionData)?\.h$", i)
                if m and m.group(2) in names:
                    want = "upm" if U["options"]["includeSubfolder"] else None
                    assert m.group(1) == want, f"{f} includes {i}"
        drive(exe, c, w)
    used = [m["t"] for x in S["datatypes"].values() for k in ("members", "vec", "one", "many") for m in x[k]] + [m["t"] for x in S["components"].values() for m in x["members"]] \
        + [t for x in S["interfaces"].values() for t in x["types"]] + [x[k] for x in S["links"].values() for k in ("from", "to")]
    hit = [t for t in used if element(t) in {n for k in ("components", "datatypes", "interfaces") for n in U[k]}]
    if hit:
        rec.nontrivial()
    for k in ("components", "interfaces", "links"):
        if S[k]:
            rec.label(k)
    for x in S["interfaces"].values():
        if any(t in U["datatypes"] for t in x["types"]):
            rec.label("interface over upstream types")


@st.composite
def alone_cases(draw, some=cases):
    c = draw(some())
    c["json"] = draw(st.booleans())
    c["files"] = draw(st.lists(st.integers(0, 500), min_size=2, max_size=2))
    return c


def check_alone(c, rec):
    """every file compiles without the help of others"""
    with gen.scratch() as w:
        _, inc, _ = generate(c, w)
        out = os.path.join(w, "o")
        fs = sorted(f for f in gen.tree(out) if f.endswith((".h", ".cc")))
        for f in sorted({fs[i % len(fs)] for i in c["files"]}):
            cxx.check_syntax(os.path.join(out, f), ["-x", "c++", *cxx.library()[0], *inc, *(["-DPODIO_JSON_OUTPUT"] if c["json"] else [])], w, f"{f} alone")
            rec.label("header" if f.endswith(".h") else "source")
    if len(c["model"]["datatypes"]) > 1:
        rec.nontrivial()


TANGLED = """schema_version: 1
datatypes:
  A:
    Description: a
    Author: a
    OneToManyRelations: [ "B bs // b" ]
  B:
    Description: b
    Author: b
    OneToManyRelations: [ "I is // i" ]
interfaces:
  I:
    Description: i
    Author: i
    Members: []
    Types: [ A ]
"""


def tangled(_, rec):
    """a type in an interface has relations to a type that has relations to the interface"""
    with gen.scratch() as w:
        gen.must_run(gen.write_model({"package": "pkg"}, w, text=TANGLED.replace("datatypes:", "options: { includeSubfolder: True }\ndatatypes:")), os.path.join(w, "o"), "pkg")
        d = os.path.join(w, "o", "src")
        for f in sorted(os.listdir(d)):
            if f.endswith(".cc"):
                cxx.check_syntax(os.path.join(d, f), [*cxx.library()[0], "-I" + os.path.join(w, "o")], w, "a model with an interface whose type leads back to it")


SAME = """schema_version: 1
options: { includeSubfolder: True }
datatypes:
  na::A: { Description: a, Author: a, Members: [ "int i // i" ] }
  nb::A: { Description: a, Author: a, Members: [ "float f // f" ] }
"""


def same_name(_, rec):
    """a type name in two namespaces is refused, or there are two types"""
    with gen.scratch() as w:
        out = os.path.join(w, "o")
        rc, _ = gen.run(gen.write_model({"package": "pkg"}, w, text=SAME), out, "pkg")
        if rc:
            return
        src = os.path.join(w, "x.cc")
        with open(src, "w", encoding="utf-8") as f:
            f.write('#include "pkg/ACollection.h"\nint main() { na::MutableA a; a.i(1); nb::MutableA b; b.f(2); }\n')
        cxx.check_syntax(src, [*cxx.library()[0], "-I" + out], w, "a program for a model with na::A and nb::A")


def broken_if(e):
    def broken(*_):
        raise AssertionError("podio does not build: " + e)
    return broken


HPCH = DRIVE = None


def setup():
    global HPCH, DRIVE
    DRIVE = harness()
    HPCH = cxx.prepare(HARNESS, "epch", ("-I" + build.CPP,))


if __name__ == "__main__":
    CHECK, ALONE, UP = check, check_alone, check_up
    try:
        setup()
    except build.BuildError as e:
        CHECK = ALONE = UP = broken_if(str(e))
    raise SystemExit(pp.main([pp.Prop("generated_code_follows_the_model", cases(), CHECK, (20, 500), costly=True),
                              pp.Prop("generated_files_compile_alone", alone_cases(), ALONE, (16, 600), costly=True),
                              pp.Prop("a_model_and_its_upstream_model_work_together", up_cases(), UP, (16, 500), costly=True),
                              pp.Prop("files_of_both_models_compile_alone", alone_cases(up_cases), ALONE, (16, 600), costly=True),
                              pp.Prop("probe_interface_that_leads_back_to_itself", st.just(0), tangled, (1, 1), probe=True),
                              pp.Prop("probe_same_name_in_two_namespaces", st.just(0), same_name, (1, 1), probe=True)]))
