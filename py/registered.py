"""C22: generated data models in the registry of the program they are compiled into."""
import json
import os
import re

import build
import cxx
import gen
import pp
from hypothesis import strategies as st
from models import line, models

safe_line = line.filter(lambda s: not s.rstrip().endswith("\\"))
number = st.one_of(st.integers(0, 12), st.integers(0, 65535)).map(str)


@st.composite
def versions(draw):
    sep = st.sampled_from([".", "-"])
    v = draw(st.sampled_from(["", "v"])) + draw(number) + draw(sep) + draw(number)
    if draw(st.booleans()):
        v += draw(sep) + draw(st.sampled_from(["", "0", "00"])) + draw(number)
    return v


@st.composite
def cases(draw):
    ms = []
    for k in range(draw(st.integers(1, 3))):
        up = ms[0]["S"] if k and draw(st.booleans()) else None
        S = draw(models(["alpha", "Beta2", "gam_ma"][k], upstream=up, max_comp=1, max_type=3, max_if=1, max_link=1, min_type=0, desc=safe_line))
        ms.append({"S": S, "up": up is not None, "version": draw(st.one_of(st.none(), versions()))})
    return {"models": ms, "order": draw(st.permutations(range(len(ms)))), "twice": draw(st.booleans())}


USE = """
namespace {
std::string hex(std::string_view s) {
  std::string r;
  const char* d = "0123456789abcdef";
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
void names(const char* what, const std::vector<std::string_view>& v) {
  std::cout << what;
  for (auto& s : v) std::cout << ' ' << s;
  std::cout << '\\n';
}
void type(const char* n) {
  std::cout << "type " << n << '\\n';
  const auto x = podio::DatamodelRegistry::instance().getRelationNames(n);
  names("relations", x.relations);
  names("vectors", x.vectorMembers);
}
void model(const char* n, size_t index) {
  const auto& r = podio::DatamodelRegistry::instance();
  std::cout << "model " << n << '\\n' << "index " << index << '\\n' << "definition " << hex(r.getDatamodelDefinition(n)) << '\\n';
  std::cout << "same " << (r.getDatamodelDefinition(index) == r.getDatamodelDefinition(n)) << '\\n';
  const auto v = r.getDatamodelVersion(n);
  std::cout << "version ";
  if (v) std::cout << v->major << ' ' << v->minor << ' ' << v->patch;
  std::cout << '\\n';
}
} // namespace
"""


def program(c):
    o = ["#include <iostream>", "#include <string>", "#include <vector>"]
    for k in c["order"]:
        o.append(f'#include "{c["models"][k]["S"]["package"]}/DatamodelDefinition.h"')
    o.append(USE)
    o.append("size_t elsewhere();\nint main() {\n  const auto& r = podio::DatamodelRegistry::instance();")
    for m in c["models"]:
        p = m["S"]["package"]
        o.append(f'  model("{p}", {p}::meta::DatamodelRegistryIndex::value());')
        o.append(f'  std::cout << "schema " << {p}::meta::schemaVersion << \'\\n\';')
        for n in m["S"]["datatypes"]:
            o.append(f'  type("{n}");\n  type("{n}Collection");')
    o.append("  std::string every;\n  for (size_t i = 0; !r.getDatamodelName(i).empty(); ++i) every += \" \" + r.getDatamodelName(i);\n  std::cout << \"\\nall\" << every << '\\n';")
    if c["twice"]:
        o.append(f'  std::cout << "elsewhere " << (elsewhere() == {c["models"][0]["S"]["package"]}::meta::DatamodelRegistryIndex::value()) << \'\\n\';')
    o.append("}")
    return "\n".join(o) + "\n"


def check(c, rec):
    with gen.scratch() as w:
        inc, defs = [], []
        for m in c["models"]:
            S = m["S"]
            args = []
            if m["up"]:
                args += ["--upstream-edm", f"{c['models'][0]['S']['package']}:" + os.path.join(w, c["models"][0]["S"]["package"] + ".yaml")]
            if m["version"] is not None:
                args += ["--datamodel-version", m["version"]]
            out = os.path.join(w, S["package"] + "_out")
            gen.must_run(gen.write_model(S, w), out, S["package"], *args)
            inc.append("-I" + out)
            defs.append(gen.embedded_definition(out, S["package"]))
        src = os.path.join(w, "main.cc")
        with open(src, "w", encoding="utf-8") as f:
            f.write(program(c))
        extra = []
        if c["twice"]:
            extra = [os.path.join(w, "other.cc")]
            p = c["models"][0]["S"]["package"]
            with open(extra[0], "w", encoding="utf-8") as f:
                f.write(f'#include "{p}/DatamodelDefinition.h"\nsize_t elsewhere() {{ return {p}::meta::DatamodelRegistryIndex::value(); }}\n')
        text = cxx.build_and_run(src, [*FLAGS, *inc, *extra], OBJS, w, "the program")
    # what it says
    found, cur = {}, None
    every = elsewhere = None
    for x in text.split("\n"):
        k, _, v = x.partition(" ")
        if k == "model":
            cur = found[v] = {"types": {}}
        elif k == "type":
            t = cur["types"][v] = {}
        elif k in ("relations", "vectors"):
            t[k] = v.split()
        elif k in ("index", "definition", "same", "version", "schema"):
            cur[k] = v
        elif k == "all":
            every = v.split()
        elif k == "elsewhere":
            elsewhere = v
    assert sorted(every) == sorted(found), f"registered are {every} instead of {sorted(found)}"
    assert len({f["index"] for f in found.values()}) == len(found), "two models have the same index"
    assert elsewhere in (None, "1"), "another part of the program gets another index"
    for m, d in zip(c["models"], defs):
        S, f = m["S"], found[m["S"]["package"]]
        assert every[int(f["index"])] == S["package"], f"index {f['index']} is not that of {S['package']}"
        got = bytes.fromhex(f["definition"]).decode("utf-8")
        assert got == d and f["same"] == "1", f"the registered definition of {S['package']} is not the embedded one"
        js = json.loads(got)
        for k in ("components", "datatypes", "interfaces", "links"):
            assert list(js.get(k, {})) == list(S[k]), f"{k} of the definition of {S['package']} are {list(js.get(k, {}))}"
        assert int(f["schema"]) == S["schema_version"], f"schema version is {f['schema']}"
        want = [int(x) for x in re.findall(r"\d+", m["version"])] if m["version"] is not None else []
        if want:
            want = (want + [0])[:3]
        assert f["version"].split() == [str(x) for x in want], f"version of {S['package']} is {f['version']!r} instead of {m['version']}"
        for n, x in S["datatypes"].items():
            for t in (n, n + "Collection"):
                g = f["types"][t]
                rel = [y["n"] for y in x["many"]] + [y["n"] for y in x["one"]]
                assert g["relations"] == rel, f"relations of {t} are {g['relations']} instead of {rel}"
                vec = [y["n"] for y in x["vec"]]
                assert g["vectors"] == vec, f"vector members of {t} are {g['vectors']} instead of {vec}"
    if len(c["models"]) >= 2:
        rec.nontrivial()
    for m in c["models"]:
        if m["version"] is not None:
            rec.label("with version")
        if m["up"]:
            rec.label("extends another one")


def bad_version():
    ok = re.compile(r"v?\d+[.|-]\d+([.|-]\d+)?\Z")
    return st.one_of(st.sampled_from(["1", "v1", "1.2.3.4", "1..2", ".1.2", "1.2.", "a.b", "1.2-rc", "V1.2", "", " 1.2", "v", "1_2", "vv1.2", "-1.2", "1,2"]),
                     st.text("0123v.-ab", max_size=6)).filter(lambda s: not ok.match(s) and not s.startswith("-"))


def check_bad(c, rec):
    with gen.scratch() as w:
        y = gen.write_model(c["S"], w)
        out = os.path.join(w, "o")
        rc, text = gen.run(y, out, "pkg", "--datamodel-version=" + c["version"])
        assert rc != 0, f"version {c['version']!r} is accepted"
        assert "Traceback" not in text, f"version {c['version']!r}: {text[-800:]}"
        assert not os.path.exists(os.path.join(out, "pkg")) or not os.listdir(os.path.join(out, "pkg")), "code is written all the same"
    if re.search(r"\d", c["version"]):
        rec.nontrivial()


if __name__ == "__main__":
    FLAGS = OBJS = None
    try:
        FLAGS = cxx.prepare()
        OBJS = cxx.library()[1]
    except build.BuildError as e:
        MSG = f"{e.what}\n{e.log[-3000:]}"

        def check(c, rec):  # noqa: F811
            raise AssertionError("podio does not build: " + MSG)
    raise SystemExit(pp.main([pp.Prop("data_models_are_registered", cases(), check, (64, 3000), costly=True),
                              pp.Prop("malformed_versions_are_refused", st.fixed_dictionaries({"S": models("pkg", max_comp=0, max_type=1, max_if=0, max_link=0), "version": bad_version()}),
                                      check_bad, (80, 1500))]))
