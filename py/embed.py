"""G03: the definition embedded into generated code reproduces the data model."""
import json
import os
import re

import gen
import pp
import yaml
from hypothesis import strategies as st
from models import ALL_BUILTIN, line, models, norm_type, plain_line, yaml_dict
from podio_gen.podio_config_reader import PodioConfigReader

RAW = {"getSyntax", "exposePODMembers"}
safe_line = line.filter(lambda s: not s.rstrip().endswith("\\"))

JTY = os.path.join(pp.REPO, "tools", "json-to-yaml")


@st.composite
def cases(draw):
    desc = draw(st.sampled_from([plain_line, safe_line, st.sampled_from(["", " ", "a // b", '"', "\\n", "%", "{x}", ")\"", "é\U0001f600", "<&>"])]))
    up = draw(st.one_of(st.none(), st.none(), models("upm", max_type=2, max_if=1, max_link=0)))
    S = draw(models("pkg", upstream=up, extras=True, desc=desc, schema=st.sampled_from([1, 2, 9, 12, 1000])))
    drop = draw(st.lists(st.sampled_from(sorted(k for k, v in S["options"].items() if v or k != "exposePODMembers")), unique=True, max_size=3)) if draw(st.integers(0, 3)) == 0 else []
    # extra code given by files
    files = {}
    for sect in ("components", "datatypes"):
        for n, d in S[sect].items():
            for which in ("extra", "mutextra"):
                for k in ("declaration", "implementation"):
                    if k in d.get(which, {}) and draw(st.integers(0, 3)) == 0:
                        f = f"{which}_{k}_{len(files)}.ipp"
                        files[f] = d[which].pop(k)
                        d[which][k + "File"] = f
                        if draw(st.booleans()):
                            d[which][k] = "  // given directly"
    return {"up": up, "S": S, "drop": drop, "files": files}


def expected(S, drop, files):
    """what a reader has to find, in plain terms"""
    def mem(m, desc=True):
        t = norm_type(m["t"])
        return {"t": t, "n": m["n"], "d": m.get("d") or None, "u": m.get("u"), "c": (m.get("c") or "").strip()}

    def code(e):
        e = dict(e)
        for k in ("declaration", "implementation"):
            if k + "File" in e:
                e[k] = e.get(k, "") + "\n" + files[e.pop(k + "File")]
        return e
    r = {"version": S["schema_version"], "options": {k: bool(v) for k, v in S["options"].items() if k not in drop}, "components": {}, "datatypes": {}, "interfaces": {}, "links": {}}
    for k in drop:
        r["options"][k] = k == "exposePODMembers"
    for n, c in S["components"].items():
        x = {"Members": [mem(m) for m in c["members"]]}
        if "desc" in c:
            x["Description"] = c["desc"]
        if "extra" in c:
            x["ExtraCode"] = code(c["extra"])
        r["components"][n] = x
    for n, d in S["datatypes"].items():
        x = {"Description": d["desc"], "Author": d["author"], "ExtraCode": code(d.get("extra", {})), "MutableExtraCode": code(d.get("mutextra", {}))}
        for k, s in (("members", "Members"), ("vec", "VectorMembers"), ("one", "OneToOneRelations"), ("many", "OneToManyRelations")):
            x[s] = [mem(m) for m in d.get(k, [])]
        r["datatypes"][n] = x
    for n, d in S["interfaces"].items():
        r["interfaces"][n] = {"Description": d["desc"], "Author": d["author"], "Types": list(d["types"]), "Members": [mem(m) for m in d["members"]]}
    for n, d in S["links"].items():
        r["links"][n] = {"Description": d["desc"], "Author": d["author"], "From": d["from"], "To": d["to"]}
    return r


def found(model):
    """a model that was read, in the same terms"""
    def mem(m):
        return {"t": m.full_type, "n": m.name, "d": m.default_val, "u": m.unit, "c": m.description}

    def conv(d):
        x = {}
        for k, v in d.items():
            if k in ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"):
                x[k] = [mem(m) for m in v]
            elif k == "Types":
                x[k] = [t.full_type for t in v]
            elif k in ("From", "To"):
                x[k] = v.full_type
            else:
                x[k] = v
        return x
    return {"version": model.schema_version, "options": {k: bool(v) for k, v in model.options.items()},
            **{s: {n: conv(d) for n, d in getattr(model, s).items()} for s in ("components", "datatypes", "interfaces", "links")}}


def same(a, b, what):
    if a == b:
        return
    if isinstance(a, dict) and isinstance(b, dict):
        assert list(a) == list(b) or set(a) == set(b), f"{what}: {sorted(a)} expected, found {sorted(b)}"
        for k in a:
            same(a[k], b[k], f"{what} / {k}")
        return
    raise AssertionError(f"{what}: {a!r} expected, found {b!r}")


def check(c, rec):
    S, up = c["S"], c["up"]
    d = yaml_dict(S)
    for k in c["drop"]:
        d["options"].pop(k, None)
    if not d["options"]:
        d.pop("options")
    want = expected(S, c["drop"], c["files"])
    with gen.scratch() as w:
        for f, t in c["files"].items():
            with open(os.path.join(w, f), "w", encoding="utf-8") as fh:
                fh.write(t)
        args, upm = [], None
        if up:
            uy = gen.write_model(up, w)
            args += ["--upstream-edm", "upm:" + uy]
            upm = PodioConfigReader.read(uy, "upm")
        a, b = os.path.join(w, "a"), os.path.join(w, "b")
        gen.must_run(gen.write_model(S, w, text=yaml.safe_dump(d, sort_keys=False, allow_unicode=True, width=10000)), a, "pkg", *args)
        same(want, found(PodioConfigReader.read(os.path.join(w, "pkg.yaml"), "pkg", upm)), "the definition read from YAML")
        text = gen.embedded_definition(a, "pkg")
        js = json.loads(text)
        same(want, found(PodioConfigReader.parse_model(js, "pkg", upm)), "the embedded definition")
        # as podio-dump writes it
        y2 = os.path.join(w, "again.yaml")
        rc, dumped = pp.run_tool(JTY, [], inp=text)
        assert rc == 0, f"json-to-yaml fails:\n{dumped[-2000:]}"
        assert yaml.safe_load(dumped) == js, f"json-to-yaml gives {yaml.safe_load(dumped)} for {js}"
        with open(y2, "w", encoding="utf-8") as f:
            f.write(dumped)
        same(want, found(PodioConfigReader.read(y2, "pkg", upm)), "the dumped definition")
        gen.must_run(y2, b, "pkg", *args)
        ta, tb = gen.tree(a), gen.tree(b)
        gen.diff_trees(ta, tb, "generating from the embedded definition")
        assert gen.embedded_definition(b, "pkg") == text
    nm = sum(len(x["members"]) for x in S["datatypes"].values())
    if nm >= 2 and (S["components"] or S["interfaces"] or S["links"]):
        rec.nontrivial()
    for k in ("components", "interfaces", "links"):
        if S[k]:
            rec.label(k)
    if up:
        rec.label("upstream model")
    if c["files"]:
        rec.label("code from files")


if __name__ == "__main__":
    raise SystemExit(pp.main([pp.Prop("embedded_definition_reproduces_the_model", cases(), check, (300, 8000))]))
