"""Pairs of versions of a data model, and what differs between them."""
import copy
import os

import yaml
from hypothesis import assume
from hypothesis import strategies as st
from models import ALL_BUILTIN, bare, norm_type, yaml_dict
from podio_gen.generator_utils import DefinitionError
from podio_gen.podio_config_reader import PodioConfigReader

CATS = (("members", "Member"), ("vec", "VectorMember"), ("one", "SingleRelation"), ("many", "MultiRelation"))


def parse(S, upm=None):
    return PodioConfigReader.parse_model(yaml_dict(S), "pkg", upm)


def element(t):
    return t[len("std::array<"):].split(",")[0] if t.startswith("std::array<") else t


def users(S, name):
    """who needs a type of this name"""
    r = []
    for sect in ("components", "datatypes"):
        for n, x in S[sect].items():
            for k in ("members", "vec", "one", "many"):
                r += [n for m in x.get(k, []) if element(m["t"]) == name]
    for n, x in S["interfaces"].items():
        r += [n for t in x["types"] if t == name]
    for n, x in S["links"].items():
        r += [n for t in (x["from"], x["to"]) if t == name]
    return r


def retype(S, old, new):
    """a type gets another name everywhere"""
    def sub(t):
        return t.replace(old, new) if element(t) == old else t
    for sect in ("components", "datatypes"):
        for x in S[sect].values():
            for k in ("members", "vec", "one", "many"):
                for m in x.get(k, []):
                    m["t"] = sub(m["t"])
    for x in S["interfaces"].values():
        x["types"] = [new if t == old else t for t in x["types"]]
    for x in S["links"].values():
        for k in ("from", "to"):
            x[k] = new if x[k] == old else x[k]


def replace_key(d, old, new):
    items = [(new if k == old else k, v) for k, v in d.items()]
    d.clear()
    d.update(items)


HARMLESS = ["desc", "unit", "default", "reorder types", "reorder members"]
ALLOWED = ["add member", "drop member", "builtin", "array size", "add type", "drop type", "add component", "drop component", "component of a member", *HARMLESS]
RESOLVABLE = ["rename member", "rename member", "rename type"]
OTHER = ["to array", "component member", "from component", "to component", "add rel", "drop rel", "rename rel", "retype rel", "rename component", "twin type"]


@st.composite
def versions(draw, S, ops, n=st.integers(1, 4), upm=None):
    """a later version of S by some of the ops; returns (T, names of the ops, renamings)"""
    T = copy.deepcopy(S)
    done, renames = [], []
    k = [0]

    def fresh(prefix):
        # generated files are named by the last part of a name only
        text = repr(T).lower()
        while True:
            k[0] += 1
            n = f"{prefix}{k[0]}"
            if n.lower() not in text:
                return n

    for _ in range(draw(n)):
        op = draw(st.sampled_from(ops))
        before = copy.deepcopy(T)
        nren = len(renames)
        sect = draw(st.sampled_from(["components", "datatypes", "datatypes"]))
        if not T[sect]:
            sect = "datatypes"
        name = draw(st.sampled_from(sorted(T[sect])))
        x = T[sect][name]
        ms = x["members"]
        i = draw(st.integers(0, max(0, len(ms) - 1)))
        j = draw(st.integers(0, len(ms)))
        forced = {m["n"] for f in T["interfaces"].values() if name in f["types"] for m in f["members"]}
        free = bool(ms) and ms[i]["n"] not in forced
        comps = sorted(T["components"])
        arr = ms and ms[i]["t"].startswith("std::array<")
        builtin = ms and element(ms[i]["t"]) in ALL_BUILTIN
        if op == "add member":
            t = draw(st.sampled_from(["int", "double", "float", "std::array<int, 2>", *comps]))
            ms.insert(j, {"t": t, "n": fresh("zzadd"), "d": None, "u": None, "c": "new"})
        elif op == "drop member" and free and (sect == "datatypes" or len(ms) > 1):
            ms.pop(i)
        elif op == "rename member" and free:
            new = fresh("zzren")
            renames.append(["rename_member", name, ms[i]["n"], new])
            ms[i]["n"] = new
        elif op == "builtin" and free and builtin and not arr:
            ms[i]["t"] = draw(st.sampled_from(ALL_BUILTIN))
            ms[i]["d"] = None
        elif op == "array size" and free and arr:
            ms[i]["t"] = f"std::array<{element(ms[i]['t'])}, {draw(st.integers(1, 6))}>"
            ms[i]["d"] = None
        elif op == "to array" and free and builtin and not arr:
            ms[i]["t"] = f"std::array<{ms[i]['t']}, 2>"
            ms[i]["d"] = None
        elif op == "component member" and free and comps and not builtin:
            c = draw(st.sampled_from(comps))
            ms[i]["t"] = f"std::array<{c}, 2>" if arr else c
        elif op == "from component" and free and not builtin:
            ms[i]["t"] = "std::array<int, 2>" if arr else "int"
        elif op == "to component" and free and comps and builtin:
            c = draw(st.sampled_from(comps))
            ms[i]["t"] = f"std::array<{c}, 2>" if arr else c
            ms[i]["d"] = None
        elif op in ("add rel", "drop rel", "rename rel", "retype rel") and sect == "datatypes":
            cat = draw(st.sampled_from(["vec", "one", "many"]))
            rs = x[cat]
            pool = sorted(ALL_BUILTIN) if cat == "vec" else sorted(T["datatypes"])
            if op == "add rel":
                rs.append({"t": draw(st.sampled_from(pool)), "n": fresh("zzrel"), "d": None, "u": None, "c": "new"})
            elif rs:
                if op == "drop rel":
                    rs.pop()
                elif op == "rename rel":
                    rs[0]["n"] = fresh("zzrr")
                else:
                    rs[0]["t"] = draw(st.sampled_from(pool))
        elif op == "add type":
            T["datatypes"][fresh("Zztype")] = {"desc": "d", "author": "a", "members": [{"t": "int", "n": fresh("zzm"), "d": None, "u": None, "c": "c"}], "vec": [], "one": [], "many": []}
        elif op == "twin type":
            T["datatypes"][fresh("Zztwin")] = copy.deepcopy(draw(st.sampled_from(list(T["datatypes"].values()))))
        elif op == "drop type" and sect == "datatypes" and not [u for u in users(T, name) if u != name] and len(T["datatypes"]) > 1:
            del T["datatypes"][name]
        elif op == "rename type" and sect == "datatypes":
            new = fresh("Zzrenamed")
            if draw(st.booleans()) and "::" in name:
                new = name.split("::")[0] + "::" + new
            renames.append(["rename_datatype", name, name, new])
            replace_key(T["datatypes"], name, new)
            retype(T, name, new)
        elif op == "add component":
            T["components"][fresh("Zzcomp")] = {"members": [{"t": "int", "n": fresh("zzc"), "d": None, "u": None, "c": None}]}
        elif op == "drop component" and comps:
            # together with the members of that type
            name = draw(st.sampled_from(comps))
            if any(element(m["t"]) == name for y in T["datatypes"].values() for m in y["vec"]) or \
               any(element(m["t"]) == name for y in T["interfaces"].values() for m in y["members"]):
                continue
            for s2 in ("components", "datatypes"):
                for y in T[s2].values():
                    y["members"] = [m for m in y["members"] if element(m["t"]) != name]
            del T["components"][name]
            if any(not y["members"] for y in T["components"].values()):
                T = before
        elif op == "rename component" and sect == "components":
            new = fresh("Zzrencomp")
            replace_key(T["components"], name, new)
            retype(T, name, new)
        elif op == "component of a member" and sect == "components" and users(T, name):
            # nothing but what is inside of a component that others contain
            ms.append({"t": "long", "n": fresh("zzin"), "d": None, "u": None, "c": None})
        elif op == "desc" and ms:
            ms[i]["c"] = "another text"
        elif op == "unit" and ms:
            ms[i]["u"] = "MeV"
        elif op == "default" and ms and ms[i]["t"] == "int":
            ms[i]["d"] = "17"
        elif op == "reorder types":
            T[sect] = {q: T[sect][q] for q in sorted(T[sect], reverse=True)}
        elif op == "reorder members" and ms:
            ms.reverse()
        else:
            continue
        try:
            parse(T, upm)
        except DefinitionError:
            T = before
            del renames[nren:]
            continue
        if T != before:
            done.append(op)
    T["schema_version"] = S["schema_version"] + draw(st.integers(1, 2))
    return T, done, renames


def diff(S, T):
    """the changes from S to T, by plain comparison"""
    r = []
    for sect, kind in (("components", "Component"), ("datatypes", "Datatype")):
        r += [("Added" + kind, n) for n in T[sect] if n not in S[sect]]
        r += [("Dropped" + kind, n) for n in S[sect] if n not in T[sect]]
        for n in S[sect]:
            if n not in T[sect]:
                continue
            for cat, mk in CATS:
                a = {m["n"]: norm_type(m["t"]) for m in S[sect][n].get(cat, [])}
                b = {m["n"]: norm_type(m["t"]) for m in T[sect][n].get(cat, [])}
                r += [("Added" + mk, n, m, b[m]) for m in b if m not in a]
                r += [("Dropped" + mk, n, m, a[m]) for m in a if m not in b]
                r += [("ChangedMemberType", n, m, a[m], b[m]) for m in a if m in b and a[m] != b[m]]
    return r


def signature(x):
    return {(cat, m["n"], norm_type(m["t"])) for cat, _ in CATS for m in x.get(cat, [])}


def judged(S, T, changes, evo):
    """(changes after renames, has warnings, has errors); evo: (kind, class, from, to)"""
    cs = list(changes)
    warn = False
    # members
    for n in {c[1] for c in cs if c[0] in ("AddedMember", "DroppedMember")}:
        added = [c for c in cs if c[0] == "AddedMember" and c[1] == n]
        dropped = [c for c in cs if c[0] == "DroppedMember" and c[1] == n]
        for k, cl, a, b in evo:
            d = next((c for c in dropped if c[2] == a), None)
            e = next((c for c in added if c[2] == b), None)
            if k == "rename_member" and cl == n and d and e and d[3] == e[3]:
                for lst, c in ((cs, d), (cs, e), (dropped, d), (added, e)):
                    lst.remove(c)
                cs.append(("RenamedMember", n, a, b))
        warn |= any(d[3] == e[3] for d in dropped for e in added)
    # datatypes
    dropped = [c for c in cs if c[0] == "DroppedDatatype"]
    added = [c for c in cs if c[0] == "AddedDatatype"]

    def ren(d, e):
        for lst, c in ((cs, d), (cs, e), (dropped, d), (added, e)):
            lst.remove(c)
        cs.append(("RenamedDataType", d[1], e[1]))
    for k, _, a, b in evo:
        if k == "rename_datatype" and ("DroppedDatatype", a) in dropped and ("AddedDatatype", b) in added and signature(S["datatypes"][a]) == signature(T["datatypes"][b]):
            ren(("DroppedDatatype", a), ("AddedDatatype", b))
    groups = {}
    for d in dropped:
        groups.setdefault(frozenset(signature(S["datatypes"][d[1]])), ([], []))[0].append(d)
    for e in added:
        g = groups.get(frozenset(signature(T["datatypes"][e[1]])))
        if g:
            g[1].append(e)
    for ds, es in groups.values():
        if len(ds) == len(es) == 1:
            ren(ds[0], es[0])
        elif ds and es:
            warn = True
    # components
    for d in [c for c in cs if c[0] == "DroppedComponent"]:
        for e in [c for c in cs if c[0] == "AddedComponent"]:
            warn |= {m["n"] for m in S["components"][d[1]]["members"]} == {m["n"] for m in T["components"][e[1]]["members"]}
    err = any(c[0][:5] in ("Added", "Dropp") and c[0].endswith(("VectorMember", "SingleRelation", "MultiRelation")) for c in cs)
    for c in cs:
        if c[0] == "ChangedMemberType":
            a, b = c[3], c[4]
            if a.startswith("std::array<") != b.startswith("std::array<"):
                err = True
            elif element(a) != element(b) and (element(a) in S["components"] or element(b) in T["components"]):
                err = True
    return cs, warn, err


def evolution_file(renames, v0, v1):
    """the content of an evolution file for (kind, class, from, to)"""
    r = {}
    for k, cl, a, b in renames:
        r.setdefault(cl, []).append({"from_version": v0, "to_version": v1, k: {"from": a, "to": b}})
    return {"migrations": r}


def compose(r1, r2):
    """renames over two steps"""
    return r1 + r2 + [[k, cl, a, d] for k, cl, a, b in r1 for k2, cl2, c, d in r2 if k == k2 and b == c and (cl == cl2 or k == "rename_datatype")]


@st.composite
def histories(draw, up, S, ops=None):
    """one or two earlier versions S, ... of a new one, with the renames from each to the new one"""
    upm = parse_up(up)
    ops = ops or ALLOWED + RESOLVABLE * 3
    T, _, r1 = draw(versions(S, ops, upm=upm))
    c = {"olds": [S], "new": T, "evo": [r1]}
    if draw(st.booleans()):
        U, _, r2 = draw(versions(T, ops, upm=upm))
        c = {"olds": [S, T], "new": U, "evo": [compose(r1, r2), r2]}
    c["up"] = up
    bad = [w or e for _, w, e in judgements(c)]
    if any(bad):
        keep = [i for i, b in enumerate(bad) if not b]
        assume(keep)
        c["olds"], c["evo"] = [c["olds"][i] for i in keep], [c["evo"][i] for i in keep]
    if len(c["olds"]) == 2 and draw(st.booleans()):
        c["olds"].reverse()
        c["evo"].reverse()
    return c


def parse_up(up):
    return PodioConfigReader.parse_model(yaml_dict(up), "upm") if up else None


def judgements(c):
    return [judged(S, c["new"], diff(S, c["new"]), [tuple(r) for r in e]) for S, e in zip(c["olds"], c["evo"])]


def write_case(c, w):
    """writes what a generator run needs into a directory; returns the arguments"""
    import gen
    args = []
    if c.get("up"):
        args += ["--upstream-edm", "upm:" + gen.write_model(c["up"], w)]
    if c["olds"]:
        args += ["--old-descriptions"] + [gen.write_model(S, w, name=f"old{S['schema_version']}") for S in c["olds"]]
        m = {}
        for S, e in zip(c["olds"], c["evo"]):
            for k, v in evolution_file(e, S["schema_version"], c["new"]["schema_version"])["migrations"].items():
                m.setdefault(k, []).extend(v)
        if m:
            f = os.path.join(w, "evolution.yaml")
            with open(f, "w", encoding="utf-8") as fh:
                yaml.safe_dump({"migrations": m}, fh)
            args += ["-e", f]
    return args
