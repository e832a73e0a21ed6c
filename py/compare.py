"""G06: comparison of two versions of a data model."""
import copy
import os


import gen
import pp
import evolve
import yaml
from hypothesis import strategies as st
from models import models
from podio_gen.schema_evolution import ChangeType, SchemaMigrationReader
from podio_schema_evolution import DataModelComparator, SchemaEvolutionJudge

SCRIPT = os.path.join(pp.REPO, "python", "podio_schema_evolution.py")
ALL = evolve.ALLOWED + evolve.RESOLVABLE + evolve.OTHER


@st.composite
def cases(draw):
    S = draw(models("pkg", desc=st.just("d"), max_link=1, expose=draw(st.sampled_from([False, False, True]))))
    ops = draw(st.sampled_from([evolve.HARMLESS, evolve.ALLOWED, evolve.ALLOWED + evolve.RESOLVABLE, evolve.RESOLVABLE, ALL, ALL, evolve.OTHER]))
    T, done, renames = draw(evolve.versions(S, ops))
    # what the evolution file says: some of the renamings and things that do not apply
    evo = [r for r in renames if draw(st.integers(0, 3))]
    noise = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        d = draw(st.sampled_from(sorted(S["datatypes"]) + ["Nonexistent"]))
        m = [x["n"] for x in S["datatypes"].get(d, {"members": []})["members"]]
        noise.append(draw(st.sampled_from([["rename_member", d, draw(st.sampled_from(m + ["zznone"])), "zznowhere"], ["rename_member", d, "zznone", draw(st.sampled_from(m + ["zzother"]))],
                                           ["rename_datatype", d, d, "Zznowhere"], ["rename_datatype", d, "Zznone", d]])))
    # renamings of members as other types have them
    changes = evolve.diff(S, T)
    cross = [["rename_member", x, a[2], b[2]] for a in changes if a[0] == "DroppedMember" for b in changes if b[0] == "AddedMember" and b[1] == a[1]
             for x in sorted(S["datatypes"]) if x != a[1]]
    if cross and draw(st.booleans()):
        evo = [r for r in evo if draw(st.booleans())]
        noise += draw(st.lists(st.sampled_from(cross), min_size=1, max_size=3))
    return {"S": S, "T": T, "ops": done, "evo": evo + noise if draw(st.booleans()) else noise + evo, "file": bool(evo or noise) or draw(st.booleans()),
            "program": draw(st.integers(0, 15)) == 0}


def named(c):
    """a change the way the reference spells it"""
    k = type(c).__name__
    if k == "ChangedMemberType":
        assert c.old_member.name == c.new_member.name
        return (k, c.klassname, c.old_member.name, c.old_member.full_type, c.new_member.full_type)
    if k == "RenamedMember":
        return (k, c.klassname, c.member_name_old, c.member_name_new)
    if k == "RenamedDataType":
        return (k, c.name_old, c.name_new)
    if hasattr(c, "member"):
        return (k, c.klassname, c.member.name, c.member.full_type)
    return (k, c.klassname)


def same(want, got, what):
    got = [named(c) for c in got]
    missing = [c for c in want if c not in got]
    more = [c for c in got if c not in want]
    assert not missing and not more and len(want) == len(got), f"{what}: not reported: {missing}, wrongly reported: {more}, {len(got)} changes instead of {len(want)}"


def check(c, rec):
    S, T = c["S"], c["T"]
    new, old = evolve.parse(T), evolve.parse(S)
    want = evolve.diff(S, T)
    got = DataModelComparator(new).compare(old)
    same(want, got, "the comparison")
    # backwards, and with itself
    swap = {"Added": "Dropped", "Dropped": "Added"}

    def back(x):
        if x[0] == "ChangedMemberType":
            return (*x[:3], x[4], x[3])
        p = "Added" if x[0].startswith("Added") else "Dropped"
        return (swap[p] + x[0][len(p):], *x[1:])
    same([back(x) for x in want], DataModelComparator(old).compare(new), "the comparison the other way round")
    same([], DataModelComparator(new).compare(new), "the comparison of a model with itself")
    with gen.scratch() as w:
        evo = None
        if c["file"]:
            evo = os.path.join(w, "evo.yaml")
            with open(evo, "w", encoding="utf-8") as f:
                f.write(yaml.safe_dump(evolve.evolution_file(c["evo"], S["schema_version"], T["schema_version"])))
        cs, warn, err = evolve.judged(S, T, want, c["evo"] if evo else [])
        before = list(got)
        res = SchemaEvolutionJudge(new, evolution_file=evo).judge(old, got)
        assert got == before, "judging changes the detected changes"
        same(cs, res.schema_changes, "the judgement")
        assert bool(res.errors) == err, f"errors {res.errors} for {cs} (should {'' if err else 'not '}be rejected)"
        assert bool(res.warnings) == warn, f"warnings {res.warnings} for {cs} (there should be {'some' if warn else 'none'})"
        assert res.old_datamodel is old
        for k in {x[1] for x in cs}:
            ch = DataModelComparator(new).get_changed_schemata(res).get(k, [])
            same([x for x in cs if x[1] == k], ch, f"the changes of {k}")
        if c["program"]:
            ny, oy = gen.write_model(T, w, "new"), gen.write_model(S, w, "old")
            rc, out = pp.run_tool(SCRIPT, [ny, oy] + (["-e", evo] if evo else []))
            assert "Traceback" not in out, out[-2000:]
            assert (rc != 0) == err, f"the program ends with {rc}:\n{out}"
            assert f"Detected {len(cs)} schema changes" in out, out
            assert ("Warnings:" in out) == warn and ("ERRORS:" in out) == err, out
            rc, out = gen.run(ny, os.path.join(w, "o"), "pkg", "--old-description", oy, *(["--evolution_file", evo] if evo else []))
            assert "Traceback" not in out, out[-2000:]
            assert (rc != 0) == (err or warn), f"the class generator ends with {rc} for {cs}:\n{out[-1500:]}"
            if rc != 0:
                left = gen.tree(os.path.join(w, "o")) if os.path.isdir(os.path.join(w, "o")) else {}
                assert not left, f"files are generated for a rejected evolution: {sorted(left)[:5]}"
            rec.label("as a program")
    if want:
        rec.nontrivial()
    for o in c["ops"]:
        rec.label(o)
    rec.label("rejected" if err else "to be resolved" if warn else "accepted")
    if any(x[0].startswith("Renamed") for x in cs):
        rec.label("with renaming")


# the evolution file itself
KINDS = ["rename_member", "rename_datatype"]


@st.composite
def files(draw):
    w = st.text("abcXYZ:_019", min_size=1, max_size=6)
    ms = {}
    for _ in range(draw(st.integers(0, 3))):
        ms[draw(w)] = [{"from_version": (a := draw(st.integers(-1, 9))), "to_version": a + draw(st.integers(1, 4)), draw(st.sampled_from(KINDS)): {"from": draw(w), "to": draw(w)}}
                       for _ in range(draw(st.integers(0, 4)))]
    return {"m": ms, "break": draw(st.sampled_from([None, None, "no version", "no change", "two changes", "unknown change", "order", "no from", "no to", "text version", "no migrations",
                                                    "list", "no list", "float version", "none version"])), "i": draw(st.integers(0, 20)), "v": draw(st.integers(0, 3))}


def check_file(c, rec):
    m = copy.deepcopy(c["m"])
    d = {"migrations": m}
    b = c["break"]
    flat = [x for xs in m.values() for x in xs]
    if b == "no migrations":
        d = {"migration": m}
    elif b == "list":
        d = {"migrations": [m]}
    elif b == "no list":
        if not m:
            b = None
        else:
            m[sorted(m)[0]] = [{"from_version": 1}, "x", 3][c["v"] % 3]
            b = "no list" if not isinstance(m[sorted(m)[0]], list) else None
    elif b:
        if not flat:
            b = None
        else:
            x = flat[c["i"] % len(flat)]
            k = next(k for k in KINDS if k in x)
            if b == "no version":
                del x[["from_version", "to_version"][c["v"] % 2]]
            elif b == "no change":
                del x[k]
            elif b == "two changes":
                x[next(q for q in [*KINDS, "another"] if q not in x)] = {"from": "a", "to": "b"}
            elif b == "unknown change":
                x[["rename", "rename_members", "drop_member", "Rename_member"][c["v"]]] = x.pop(k)
            elif b == "order":
                x["to_version"] = x["from_version"] - c["v"] % 2
            elif b == "no from":
                del x[k]["from"]
            elif b == "no to":
                del x[k]["to"]
            elif b == "text version":
                x["from_version"] = str(x["from_version"])
            elif b == "float version":
                x["to_version"] = x["to_version"] + 0.5
            elif b == "none version":
                x["to_version"] = None
    with gen.scratch() as w:
        p = os.path.join(w, "evo.yaml")
        with open(p, "w", encoding="utf-8") as f:
            f.write(yaml.safe_dump(d))
        try:
            r = SchemaMigrationReader.read_yaml(p)
        except ValueError as e:
            assert b, f"a valid evolution file is rejected: {e}"
            rec.nontrivial()
            rec.label(b)
            return
        assert not b, f"an invalid evolution file is accepted ({b})"
    assert set(r) == set(m)
    for k, xs in m.items():
        want = sorted(((x["from_version"], x["to_version"], next(q for q in KINDS if q in x), next(x[q] for q in KINDS if q in x)) for x in xs), key=lambda x: x[:2])
        assert [(x.from_version, x.to_version, x.type.value, x.details) for x in r[k]] == want, f"{k}: {r[k]} instead of {want}"
        assert all(isinstance(x.type, ChangeType) for x in r[k])
    if len(flat) > 1:
        rec.nontrivial()
    rec.label("valid")


if __name__ == "__main__":
    raise SystemExit(pp.main([pp.Prop("differences_are_reported_and_judged", cases(), check, (2500, 60000)),
                              pp.Prop("evolution_files_are_validated", files(), check_file, (3000, 60000))]))
