"""G02: which data model definitions are accepted."""
import copy
import os

import embed
import gen
import pp
import yaml
from hypothesis import strategies as st
from models import models, plain_line, yaml_dict
from podio_gen.generator_utils import DefinitionError
from podio_gen.podio_config_reader import PodioConfigReader


def parse(d, up=None, path=None):
    upm = PodioConfigReader.parse_model(yaml_dict(up), "upm") if up else None
    return PodioConfigReader.parse_model(d, "pkg", upm, path)


@st.composite
def valid(draw):
    up = draw(st.one_of(st.none(), models("upm", max_type=2, max_if=1, max_link=0)))
    S = draw(models("pkg", upstream=up, extras=True, desc=plain_line))
    return {"up": up, "S": S, "style": draw(st.sampled_from(["block", "flow"]))}


def check_valid(c, rec):
    S = c["S"]
    d = yaml_dict(S)
    text = yaml.safe_dump(d, sort_keys=False, default_flow_style=c["style"] == "flow", allow_unicode=True, width=10000)
    with gen.scratch() as w:
        upm = PodioConfigReader.read(gen.write_model(c["up"], w), "upm") if c["up"] else None
        m = PodioConfigReader.read(gen.write_model(S, w, text=text), "pkg", upm)
        embed.same(embed.expected(S, [], {}), embed.found(m), "the definition")
        # without the extra code
        b = PodioConfigReader.read(os.path.join(w, "pkg.yaml"), "pkg", upm, ignore_extracode=True)
        embed.same({k: list(v) for k, v in embed.expected(S, [], {}).items() if isinstance(v, dict)},
                   {k: list(v) for k, v in embed.found(b).items() if isinstance(v, dict)}, "the definition without extra code")
    if len(S["datatypes"]) >= 2 and sum(len(x["members"]) for x in S["datatypes"].values()) >= 2:
        rec.nontrivial()
    if c["up"]:
        rec.label("upstream model")


# every way to break a definition in one place: (d, S, choose, up) -> False if there is no such place
def pick(ch, xs):
    return xs[ch.pop() % len(xs)] if xs else None


def dt(d, ch):
    n = pick(ch, list(d.get("datatypes", {})))
    return n, d["datatypes"][n]


BREAKS = {}


def breaks(f):
    BREAKS[f.__name__] = f
    return f


@breaks
def no_schema_version(d, S, ch, up):
    del d["schema_version"]


@breaks
def bad_schema_version(d, S, ch, up):
    d["schema_version"] = pick(ch, [0, -1, -17, "x", "", "v1", None, "1.2.3"])


@breaks
def datatype_without_required_key(d, S, ch, up):
    _, x = dt(d, ch)
    del x[pick(ch, ["Description", "Author"])]


@breaks
def datatype_with_unknown_key(d, S, ch, up):
    _, x = dt(d, ch)
    x[pick(ch, ["TransientMembers", "Typedefs", "members", "Member", "OneToOneRelation", "Types", "From", "Foo", "ExtraCodes"])] = pick(ch, [[], "", ["int x // y"]])


@breaks
def unknown_extra_code(d, S, ch, up):
    _, x = dt(d, ch)
    x.setdefault(pick(ch, ["ExtraCode", "MutableExtraCode"]), {})[pick(ch, ["const_declaration", "include", "Declaration", "constImplementation", "includesFile", "declarationFiles", "implementation2", "file", ""])] = "int f();"


@breaks
def component_without_members(d, S, ch, up):
    n = pick(ch, list(d.get("components", {})))
    if n is None:
        return False
    del d["components"][n]["Members"]
    return any(True for _ in [0])


@breaks
def component_with_unknown_key(d, S, ch, up):
    n = pick(ch, list(d.get("components", {})))
    if n is None:
        return False
    d["components"][n][pick(ch, ["VectorMembers", "OneToOneRelations", "OneToManyRelations", "MutableExtraCode", "Types", "Foo", "members"])] = pick(ch, [[], {}, ""])


@breaks
def component_with_other_extra_code(d, S, ch, up):
    n = pick(ch, list(d.get("components", {})))
    if n is None:
        return False
    d["components"][n].setdefault("ExtraCode", {})[pick(ch, ["implementation", "implementationFile", "const_declaration", "x", "includesFile", "declarationFiles", "include", ""])] = "int x;"


def used_by(d, comp):
    return [m for s in ("components", "datatypes", "interfaces") for x in d.get(s, {}).values() for k in ("Members", "VectorMembers") for m in x.get(k, []) if comp in m]


def bad_types(d, S, ch, up, kinds):
    """types that cannot be members (kinds: which ones are allowed to be there)"""
    r = ["Nonexistent", "ns::Nonexistent", "string", "std::string", "integer", "Int", "int8_t", "std::uint8_t", "int_fast16_t", "uint_least32_t"]
    for k in kinds:
        r += list(d.get(k, {})) + (list(up[k]) if up else [])
    return [t for t in r if not ("components" not in kinds and (t in d.get("components", {}) or up and t in up["components"]))]


@breaks
def undeclared_member_type(d, S, ch, up):
    sect = pick(ch, [s for s in ("components", "datatypes") if d.get(s)])
    n = pick(ch, list(d[sect]))
    t = pick(ch, bad_types(d, S, ch, up, ["datatypes", "interfaces", "links"]))
    arr = pick(ch, [False, False, True])
    ms = d[sect][n].setdefault("Members", [])
    ms.insert(ch.pop() % (len(ms) + 1), (f"std::array<{t}, 3>" if arr else t) + " zzbad // bad")


@breaks
def undeclared_vector_member_type(d, S, ch, up):
    _, x = dt(d, ch)
    t = pick(ch, bad_types(d, S, ch, up, ["datatypes", "interfaces", "links"]) + ["std::array<int, 2>"])
    x.setdefault("VectorMembers", []).append(f"{t} zzbad // bad")


@breaks
def invalid_relation(d, S, ch, up):
    _, x = dt(d, ch)
    t = pick(ch, ["Nonexistent", "ns::Nonexistent", "int", "double", "std::int32_t", "std::array<int, 3>"] + list(d.get("components", {})) + list(d.get("links", {}))
             + (list(up["components"]) + list(up["links"]) if up else []))
    x.setdefault(pick(ch, ["OneToOneRelations", "OneToManyRelations"]), []).append(f"{t} zzbad // bad")


@breaks
def relation_to_link(d, S, ch, up):
    _, x = dt(d, ch)
    t = pick(ch, list(d.get("links", {})) + (list(up["links"]) if up else []))
    if t is None:
        return False
    x.setdefault(pick(ch, ["OneToOneRelations", "OneToManyRelations"]), []).append(f"{t} zzbad // bad")


@breaks
def member_without_description(d, S, ch, up):
    _, x = dt(d, ch)
    x.setdefault(pick(ch, ["Members", "VectorMembers"]), []).append("int zzbad")


@breaks
def no_member_at_all(d, S, ch, up):
    sect = pick(ch, [s for s in ("components", "datatypes", "interfaces") if d.get(s)])
    n = pick(ch, list(d[sect]))
    d[sect][n].setdefault("Members", []).append(pick(ch, ["", "int", "int // x", "int 3x // y", "// x", "x", "int int // x", "int{3} // x", "int x y // z", "std::array<int> x // y",
                                                          "std::array<int, n> x // y", "int* x // y", "-", "int a-b // c", "unsigned int // x"]))


def names_of(d, S, x, sect, up):
    """the names in a datatype or component: (own ones, the ones of exposed components)"""
    comps = {n: [m["n"] for m in c["members"]] for n, c in S["components"].items()}
    if up:
        comps.update({n: [m["n"] for m in c["members"]] for n, c in up["components"].items()})
    own = [m["n"] for k in ("members", "vec", "one", "many") for m in x.get(k, [])]
    sub = [s for m in x.get("members", []) for s in comps.get(m["t"], [])] if sect == "datatypes" else []
    return own, sub


@breaks
def duplicate_name_in_datatype(d, S, ch, up):
    n, x = dt(d, ch)
    own, sub = names_of(d, S, S["datatypes"][n], "datatypes", up)
    m = pick(ch, own + (sub if S["options"]["exposePODMembers"] else []))
    if m is None:
        return False
    k = pick(ch, ["Members", "Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"])
    t = "int" if "Members" in k else next(iter(d["datatypes"]))
    xs = x.setdefault(k, [])
    xs.insert(ch.pop() % (len(xs) + 1), f"{t} {m} // again")


@breaks
def duplicate_name_by_exposed_component(d, S, ch, up):
    if not S["options"]["exposePODMembers"]:
        return False
    n, x = dt(d, ch)
    own, sub = names_of(d, S, S["datatypes"][n], "datatypes", up)
    comps = [(c, v) for c, v in list(S["components"].items()) + (list(up["components"].items()) if up else []) if {m["n"] for m in v["members"]} & set(own + sub)]
    c = pick(ch, comps)
    if c is None:
        return False
    xs = x.setdefault("Members", [])
    xs.insert(ch.pop() % (len(xs) + 1), f"{c[0]} zznew // again")


@breaks
def duplicate_name_in_component(d, S, ch, up):
    n = pick(ch, list(d.get("components", {})))
    if n is None:
        return False
    m = pick(ch, S["components"][n]["members"])["n"]
    xs = d["components"][n]["Members"]
    xs.insert(ch.pop() % (len(xs) + 1), f"{pick(ch, ['int', 'double', 'std::array<float, 3>'])} {m}")


@breaks
def duplicate_name_in_interface(d, S, ch, up):
    n = pick(ch, [i for i in d.get("interfaces", {}) if S["interfaces"][i]["members"]])
    if n is None:
        return False
    xs = d["interfaces"][n]["Members"]
    xs.append(xs[0])


@breaks
def one_name_for_two_types(d, S, ch, up):
    have = [s for s in ("components", "datatypes", "interfaces", "links") if d.get(s)]
    a = pick(ch, have)
    n = pick(ch, list(d[a]))
    b = pick(ch, [s for s in ("components", "datatypes", "interfaces", "links") if s != a])
    t = next(iter(d["datatypes"]))
    if t == n:
        ts = [x for x in d["datatypes"] if x != n]
        if not ts and b in ("interfaces", "links"):
            t = n
        elif ts:
            t = ts[0]
    d.setdefault(b, {})[n] = {"components": {"Members": ["int zz"]}, "datatypes": {"Description": "d", "Author": "a"},
                              "interfaces": {"Description": "d", "Author": "a", "Members": [], "Types": [t]},
                              "links": {"Description": "d", "Author": "a", "From": t, "To": t}}[b]


def other(d, S, ch, sect, keys, more):
    n = pick(ch, list(d.get(sect, {})))
    if n is None:
        return False
    x = d[sect][n]
    if ch.pop() % 2:
        del x[pick(ch, keys)]
    else:
        x[pick(ch, more)] = pick(ch, ["", [], "int x // y"])
    return True


@breaks
def interface_keys(d, S, ch, up):
    return other(d, S, ch, "interfaces", ["Description", "Author", "Members", "Types"], ["ExtraCode", "OneToOneRelations", "VectorMembers", "Foo", "types", "MutableExtraCode"])


@breaks
def link_keys(d, S, ch, up):
    return other(d, S, ch, "links", ["Description", "Author", "From", "To"], ["Members", "ExtraCode", "Types", "Foo", "from", "Weight"])


@breaks
def interface_of_undeclared_type(d, S, ch, up):
    n = pick(ch, list(d.get("interfaces", {})))
    if n is None:
        return False
    ts = d["interfaces"][n]["Types"]
    ts.insert(ch.pop() % (len(ts) + 1), pick(ch, ["Nonexistent", "int", "ns::Nonexistent"] + list(d.get("components", {})) + list(d["interfaces"]) + list(d.get("links", {}))))


@breaks
def link_to_undeclared_type(d, S, ch, up):
    n = pick(ch, list(d.get("links", {})))
    if n is None:
        return False
    d["links"][n][pick(ch, ["From", "To"])] = pick(ch, ["Nonexistent", "int", "ns::Nonexistent"] + list(d.get("components", {})) + list(d["links"]) + (list(up["components"]) if up else []))


@breaks
def name_of_upstream_type(d, S, ch, up):
    if not up:
        return False
    k = pick(ch, ["interfaces", "links"])
    n = pick(ch, list(up["datatypes"]) + (list(up["interfaces"]) if k == "links" else []))
    t = next(iter(d["datatypes"]))
    d.setdefault(k, {})[n] = {"Description": "d", "Author": "a", "Members": [], "Types": [t]} if k == "interfaces" else {"Description": "d", "Author": "a", "From": t, "To": t}


@breaks
def upstream_type_without_upstream_model(d, S, ch, up):
    """everything that names a type of the upstream model is undeclared without it"""
    if not up:
        return False
    mine = [t for s in ("components", "datatypes", "interfaces") for t in up[s]]
    uses = any(t in mine for x in S["components"].values() for t in base(x["members"])) or \
        any(t in mine for x in S["datatypes"].values() for k in ("members", "vec", "one", "many") for t in base(x[k])) or \
        any(t in mine for x in S["links"].values() for t in (x["from"], x["to"]))
    return "drop upstream" if uses else False


def base(ms):
    return [m["t"][len("std::array<"):].split(",")[0] if m["t"].startswith("std::array<") else m["t"] for m in ms]


@st.composite
def invalid(draw):
    up = draw(st.one_of(st.none(), models("upm", max_type=2, max_if=1, max_link=1, desc=st.just("d"))))
    S = draw(models("pkg", upstream=up, extras=False, desc=st.just("d")))
    return {"up": up, "S": S, "how": draw(st.sampled_from(sorted(BREAKS))), "ch": draw(st.lists(st.integers(0, 50), min_size=10, max_size=10))}


def check_invalid(c, rec):
    S, up = c["S"], c["up"]
    good = yaml_dict(S)
    parse(copy.deepcopy(good), up)
    d = copy.deepcopy(good)
    ch = list(c["ch"])
    r = BREAKS[c["how"]](d, S, ch, up)
    if r is False or d == good and r != "drop upstream":
        rec.label("nothing to break")
        return
    what = "the upstream model is missing" if r == "drop upstream" else next((f"{s}: {n}: {x}" for s in d for n, x in (d[s].items() if isinstance(d[s], dict) else [("", d[s])])
                                                                               if good.get(s) is None or good[s] != d[s] and (not isinstance(good[s], dict) or good[s].get(n) != x)), "something missing")
    try:
        parse(copy.deepcopy(d), None if r == "drop upstream" else up)
    except DefinitionError as e:
        assert str(e).strip(), "a definition error without any explanation"
    except Exception as e:  # pylint: disable=broad-except
        raise AssertionError(f"{c['how']}: rejected with {type(e).__name__}({e}) instead of a definition error: {what}") from e
    else:
        raise AssertionError(f"{c['how']}: an invalid definition is accepted: {what}")
    rec.nontrivial()
    rec.label(c["how"])
    # the program reports it and generates nothing
    if ch and ch[-1] % 10 == 0:
        with gen.scratch() as w:
            args = ["--upstream-edm", "upm:" + gen.write_model(up, w)] if up and r != "drop upstream" else []
            rc, out = gen.run(gen.write_model(S, w, text=yaml.safe_dump(d, sort_keys=False)), os.path.join(w, "o"), "pkg", *args)
            assert rc != 0, f"{c['how']}: the class generator succeeds for an invalid definition ({what})"
            assert "Traceback" not in out, f"{c['how']}: the class generator crashes for an invalid definition ({what}):\n{out[-1500:]}"
            left = gen.tree(os.path.join(w, "o")) if os.path.isdir(os.path.join(w, "o")) else {}
            assert not left, f"{c['how']}: files are generated for an invalid definition: {sorted(left)[:5]}"
            rec.label("as a program")


if __name__ == "__main__":
    raise SystemExit(pp.main([pp.Prop("valid_definitions_are_read_completely", valid, check_valid, (1500, 40000)),
                              pp.Prop("invalid_definitions_are_rejected", invalid, check_invalid, (7000, 150000))]))
