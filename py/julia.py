"""G10: generated Julia code mirrors the data model."""
import os
import re

import gen
import pp
from hypothesis import strategies as st
from models import ALL_BUILTIN, bare, models, norm_type

JL = {"int": "Int32", "long": "Int64", "float": "Float32", "double": "Float64", "unsigned int": "UInt32", "unsigned": "UInt32", "unsigned long": "UInt64",
      "char": "Char", "short": "Int16", "bool": "Bool", "long long": "Int64", "unsigned long long": "UInt64", "int16_t": "Int16", "int32_t": "Int32",
      "int64_t": "Int64", "uint16_t": "UInt16", "uint32_t": "UInt32", "uint64_t": "UInt64"}
CLASS = {"Float32": "Real", "Float64": "Real", "Char": "Char", "Bool": "Bool"}


def jl(t):
    return JL[t[5:] if t.startswith("std::") else t]


@st.composite
def cases(draw):
    up = draw(st.one_of(st.none(), models("upm", subfolder=True, max_type=2, max_if=1, max_link=0)))
    return {"up": up, "S": draw(models("pkg", upstream=up, extras=True))}


def squeeze(s):
    s = re.sub(r"\s+", " ", s)
    return re.sub(r" ?([{}(),=:<;]) ?", r"\1", s).strip()


def supported(S, up):
    """datatypes without interfaces behind their relations, at any distance"""
    types = dict(up["datatypes"]) if up else {}
    types.update(S["datatypes"])
    bad = set(S["interfaces"]) | (set(up["interfaces"]) if up else set())
    while True:
        more = {n for n, d in types.items() if n not in bad and any(r["t"] in bad for r in d["one"] + d["many"])}
        if not more:
            return [n for n in S["datatypes"] if n not in bad]
        bad |= more


def check(c, rec):
    S, up = c["S"], c["up"]
    upt = (set(up["components"]) | set(up["datatypes"])) if up else set()

    def struct(t, suffix="Struct"):
        return ("Upm." if t in upt else "") + bare(t) + suffix

    def mtype(t):
        m = re.match(r"std::array<(.+), (\d+)>$", norm_type(t))
        if m:
            e = m.group(1)
            return f"MVector{{{m.group(2)},{jl(e) if e in ALL_BUILTIN else struct(e)}}}"
        return jl(t) if t in ALL_BUILTIN else struct(t)

    with gen.scratch() as w:
        args = ["--lang", "julia"]
        if up:
            args += ["--upstream-edm", "upm:" + gen.write_model(up, w)]
        rc, out = gen.run(gen.write_model(S, w), os.path.join(w, "o"), "pkg", *args)
        assert rc == 0, f"the Julia generator fails for a valid model: {out[-2000:]}"
        files = {k: v.decode() for k, v in gen.tree(os.path.join(w, "o")).items()}
    dts = supported(S, up)
    want = {f"pkg/{bare(n)}Struct.jl" for n in [*S["components"], *dts]} | {"pkg/Pkg.jl"}
    assert set(files) == want, f"files {sorted(files)} instead of {sorted(want)}"
    fields, deps = {}, {}
    for n in [*S["components"], *dts]:
        d = S["components"].get(n) or S["datatypes"][n]
        f = [(m["n"], mtype(m["t"])) for m in d["members"]]
        f += [(r["n"], f"Vector{{{bare(r['t'])}T}}") for r in d.get("many", [])]
        f += [(r["n"], f"Union{{Nothing,{bare(r['t'])}T}}") for r in d.get("one", [])]
        f += [(m["n"], f"Vector{{{mtype(m['t'])}}}") for m in d.get("vec", [])]
        params = sorted({(bare(r["t"]), r["t"]) for r in d.get("many", []) + d.get("one", [])})
        text = files[f"pkg/{bare(n)}Struct.jl"]
        m = re.search(r"^mutable struct (\w+)(\{[^\n]*\})?\s*\n(.*)^end\s*$", text, re.M | re.S)
        assert m and len(re.findall(r"\bstruct\b", text)) == 1, f"{n}: no single struct in\n{text}"
        assert m.group(1) == bare(n) + "Struct", f"{n}: struct is called {m.group(1)}"
        wp = "{" + ",".join(p[0] + "T" for p in params) + "}" if params else ""
        assert squeeze(m.group(2) or "") == wp, f"{n}: parameters {m.group(2)} instead of {wp}"
        got = [tuple(squeeze(x).split("::", 1)) for x in m.group(3).split("\n") if x.strip()]
        assert got == f, f"{n}: fields {got} instead of {f}"
        fields[n] = (f, params)
        own = []
        for x in d["members"] + d.get("vec", []):
            e = norm_type(x["t"])
            e = re.sub(r"std::array<(.+), \d+>$", r"\1", e)
            if e in S["components"]:
                own.append(bare(e))
        deps[bare(n)] = own
    t = files["pkg/Pkg.jl"]
    head = re.search(r"^module (\w+)\s*$", t, re.M)
    assert head and head.group(1) == "Pkg" and t.rstrip().endswith("end"), "not the module Pkg"
    if up:
        assert re.search(r'^include\("upm/Upm.jl"\)', t[:head.start()], re.M), "the upstream module is not included"
        assert re.search(r"^import \.\.Upm\s*$", t, re.M), "the upstream module is not imported"
    ex = re.findall(r"^export (\w+)\s*$", t, re.M)
    we = [bare(n) for n in S["components"]] + [x for n in dts for x in (bare(n), bare(n) + "Collection")]
    assert sorted(ex) == sorted(we), f"exports {ex} instead of {we}"
    inc = [x[:-len("Struct.jl")] for x in re.findall(r'^include\("(\w+)"?', t[head.end():].replace(".jl", "_jl"), re.M)]
    inc = re.findall(r'^include\("(\w+)Struct\.jl"\)', t[head.end():], re.M)
    assert sorted(inc) == sorted(deps), f"includes {inc} instead of {sorted(deps)}"
    for i, n in enumerate(inc):
        for x in deps[n]:
            assert x in inc[:i], f"{n} is included before {x}, which it uses: {inc}"
    arrays = any(m["t"].startswith("std::array") for d in [S["components"][n] for n in S["components"]] + [S["datatypes"][n] for n in dts] for m in d["members"])
    assert ("using StaticArrays" in t) == arrays, f"StaticArrays is {'not ' if arrays else ''}used"
    for n in [*S["components"], *dts]:
        f, params = fields[n]
        d = S["components"].get(n) or S["datatypes"][n]
        full = bare(n) + "Struct" + ("{" + ",".join(struct(p[1]) for p in params) + "}" if params else "")
        m = re.findall(rf"^function {bare(n)}\((.*?)^end\s*$", t, re.M | re.S)
        assert len(m) == 1, f"{n}: {len(m)} constructors"
        sig, ret = re.split(r"^\s*return\b", m[0], maxsplit=1, flags=re.M)
        builtin_vec = {x["n"] for x in d.get("vec", []) if x["t"] in ALL_BUILTIN}
        kinds = {x["n"]: x["t"] for x in d["members"] + d.get("vec", []) + d.get("many", []) + d.get("one", [])}
        rels = {x["n"] for x in d.get("many", [])}, {x["n"] for x in d.get("one", [])}
        wsig, wret = [], []
        for name, ty in f:
            k = kinds[name]
            if name in rels[0]:
                ty = f"Vector{{{struct(k)}}}"
                wsig.append(f"{name}::{ty}={ty}()")
                wret.append(name)
            elif name in rels[1]:
                wsig.append(f"{name}::Union{{Nothing,{struct(k)}}}=nothing")
                wret.append(name)
            elif name in builtin_vec:
                wsig.append(f"{name}::Vector{{{name}T}}={ty}([])")
                wret.append(f"convert({ty},{name})")
            elif ty.startswith("Vector"):
                wsig.append(f"{name}::{ty}={ty}([])")
                wret.append(name)
            elif ty.startswith("MVector"):
                wsig.append(f"{name}::{ty}={ty}(undef)")
                wret.append(name)
            elif k in ALL_BUILTIN:
                wsig.append(f"{name}::{CLASS.get(ty, 'Integer')}={ty}(0)")
                wret.append(f"{ty}({name})")
            else:
                wsig.append(f"{name}::{ty}={struct(k, '')}()")
                wret.append(name)
        args_, _, where = squeeze(sig).rpartition(")")
        got = squeeze(args_).rstrip(",")
        assert got == squeeze(",".join(wsig)), f"{n}: constructor takes\n{got}\ninstead of\n{squeeze(','.join(wsig))}"
        wq = sorted(f"{x['n']}T<:{CLASS.get(jl(x['t']), 'Integer')}" for x in d.get("vec", []) if x["t"] in ALL_BUILTIN)
        gq = sorted(x for x in re.sub(r"^where ?\{?|\}$", "", where.strip()).split(",") if x)
        assert gq == wq, f"{n}: where clause {gq} instead of {wq}"
        r = squeeze(ret)
        wr = f"{full}({','.join(wret)})"
        assert r.replace(",)", ")") == wr, f"{n}: constructor returns\n{r}\ninstead of\n{wr}"
        if n in dts:
            coll = [squeeze(x) for x in re.findall(rf"^{bare(n)}Collection\s*=\s*(.*)$", t, re.M)]
            assert coll == [f"Vector{{{full}}}"], f"{n}: collection {coll} instead of Vector{{{full}}}"
    if len(deps) > 1 and (any(deps.values()) or any(p for _, p in fields.values())):
        rec.nontrivial()
    rec.label("upstream" if up else "alone")
    if len(dts) < len(S["datatypes"]):
        rec.label("types without Julia code")


UPSTREAM = """schema_version: 1
datatypes:
  U: { Description: u, Author: a, Members: [ "int i // i" ] }
"""
USING = """schema_version: 1
datatypes:
  D: { Description: d, Author: a, OneToOneRelations: [ "U u // u" ] }
"""


def plain_upstream(_, rec):
    """an upstream model the headers of which are not in a folder of their own"""
    with gen.scratch() as w:
        up = gen.write_model({"package": "upm"}, w, text=UPSTREAM)
        gen.must_run(gen.write_model({"package": "pkg"}, w, text=USING), os.path.join(w, "o"), "pkg", "--lang", "julia", "--upstream-edm", "upm:" + up)
        with open(os.path.join(w, "o", "pkg", "Pkg.jl"), encoding="utf-8") as f:
            assert re.search(r"^import \.\.Upm\s*$", f.read(), re.M), "the upstream module is not imported"


if __name__ == "__main__":
    raise SystemExit(pp.main([pp.Prop("julia_code_mirrors_the_model", cases(), check, (700, 20000)),
                              pp.Prop("probe_upstream_model_without_a_folder", st.just(0), plain_upstream, (1, 1), probe=True)]))
