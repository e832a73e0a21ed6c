"""G05: generating code is deterministic and touches only what changed."""
import copy
import os

import gen
import pp
from hypothesis import strategies as st
from models import line, models, plain_line

OLD = 1_000_000_000 * 10**9


@st.composite
def cases(draw):
    S = draw(models("pkg", extras=True, desc=st.one_of(plain_line, line.filter(lambda s: not s.rstrip().endswith("\\")))))
    T = copy.deepcopy(S)
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        op = draw(st.sampled_from(["desc", "type", "version", "options", "drop", "add", "default", "same", "reorder"]))
        ds = sorted(T["datatypes"])
        d = draw(st.sampled_from(ds))
        x = T["datatypes"][d]
        if op == "desc" and x["members"]:
            x["members"][0]["c"] = "changed " + draw(plain_line)
        elif op == "default" and x["members"] and x["members"][-1]["t"] == "int":
            x["members"][-1]["d"] = str(draw(st.integers(300, 400)))
        elif op == "version":
            T["schema_version"] += 1
        elif op == "options":
            T["options"]["getSyntax"] = not T["options"]["getSyntax"]
        elif op == "drop" and x["vec"]:
            x["vec"].pop()
        elif op == "add":
            T["datatypes"]["Zzadded"] = {"desc": "d", "author": "a", "members": [{"t": "int", "n": "zz", "c": "c"}], "vec": [], "one": [], "many": []}
        elif op == "type":
            x["members"] = [*x["members"], {"t": "double", "n": "zzmore", "c": "c"}] if all(m["n"] != "zzmore" for m in x["members"]) else x["members"]
        elif op == "reorder":
            T["datatypes"] = {k: T["datatypes"][k] for k in sorted(T["datatypes"], reverse=True)}
        else:
            continue
        ops.append(op)
    # an older version with components that are not there any more
    O = None
    if draw(st.integers(0, 2)) == 0:
        O = copy.deepcopy(S)
        for i in range(draw(st.integers(1, 4))):
            O["components"]["Zzold" + "ABCD"[i]] = {"members": [{"t": draw(st.sampled_from(["int", "float", "std::array<int, 2>"])), "n": "m", "c": None}]}
        S["schema_version"] += 1
        T["schema_version"] += 1
    return {"S": S, "T": T, "O": O, "ops": ops, "lang": draw(st.sampled_from(["cpp", "cpp", "cpp", "julia"])),
            "handlers": draw(st.sampled_from([["ROOT"], ["ROOT", "SIO"], ["SIO"], ["ROOT", "SIO", "ARROW"], ["ARROW"]])), "hashseed": draw(st.integers(1, 10**6)),
            "version": draw(st.sampled_from([None, "v1.2", "3-4-5", "v01.02.03"]))}


def stamps(d):
    return {os.path.relpath(os.path.join(b, f), d): os.stat(os.path.join(b, f)).st_mtime_ns for b, _, fs in os.walk(d) for f in fs}


def age(d):
    for b, _, fs in os.walk(d):
        for f in fs:
            os.utime(os.path.join(b, f), ns=(OLD, OLD))


def check(c, rec):
    S, T = c["S"], c["T"]
    args = ["--lang", c["lang"]] if c["lang"] == "julia" else []
    if c["version"] and not args:
        args += ["--datamodel-version", c["version"]]
    kw = {"handlers": c["handlers"]}
    LIST = "podio_generated_files.cmake"
    with gen.scratch() as w:
        if c.get("O") and c["lang"] == "cpp":
            args += ["--old-descriptions", gen.write_model(c["O"], w, "o")]
            if not [x for x in c["ops"] if x not in ("desc", "options", "reorder", "default", "version", "same")]:
                rec.label("old version")
            else:
                T = S  # allowed changes only
        ys, yt = gen.write_model(S, w, "s"), gen.write_model(T, w, "t")
        a, b = os.path.join(w, "a"), os.path.join(w, "some", "other", "b")
        # a dry run writes nothing
        gen.must_run(ys, os.path.join(w, "dry"), "pkg", "--dryrun", *args, **kw)
        left = gen.tree(os.path.join(w, "dry")) if os.path.exists(os.path.join(w, "dry")) else {}
        assert not left, f"a dry run writes {sorted(left)}"
        gen.must_run(ys, a, "pkg", *args, **kw)
        ta = gen.tree(a)
        # the same in another directory, process and with another hash seed
        rc, out = gen.run(ys, b, "pkg", *args, separate={"PYTHONHASHSEED": str(c["hashseed"])}, **kw)
        assert rc == 0, out[-2000:]
        gen.diff_trees(ta, gen.tree(b), "generating again elsewhere")
        # the list of files
        if c["lang"] == "cpp":
            ls = gen.cmake_lists(a)
            for var, folder, pre, ends in (("headers", "pkg", "${ARG_OUTPUT_FOLDER}/${datamodel}", ".h"), ("sources", "src", "${ARG_OUTPUT_FOLDER}/src", ".cc"),
                                           ("selection_xml", "src", "${ARG_OUTPUT_FOLDER}/src", ".xml")):
                want = sorted(pre + "/" + k[len(folder) + 1:] for k in ta if k.startswith(folder + "/") and k.endswith(ends))
                assert sorted(ls.get(var, [])) == want, f"{var}: listed {sorted(ls.get(var, []))}, generated {want}"
            others = [k for k in ta if not (k.startswith("pkg/") and k.endswith(".h") or k.startswith("src/") and k.endswith((".cc", ".xml")) or k == LIST)]
            assert not others, f"unlisted files {others}"
        # again into the same place
        age(a)
        gen.must_run(ys, a, "pkg", *args, **kw)
        touched = sorted(k for k, t in stamps(a).items() if t != OLD)
        assert not touched, f"files rewritten without any change: {touched}"
        gen.diff_trees(ta, gen.tree(a), "generating again")
        # a dry run of something else
        gen.must_run(yt, a, "pkg", "--dryrun", *args, **kw)
        touched = sorted(k for k, t in stamps(a).items() if t != OLD)
        assert not touched and set(gen.tree(a)) == set(ta), f"a dry run touches {touched}"
        # the changed model
        f = os.path.join(w, "fresh")
        gen.must_run(yt, f, "pkg", *args, **kw)
        tf = gen.tree(f)
        gen.must_run(yt, a, "pkg", *args, **kw)
        now = gen.tree(a)
        for k in tf:
            assert now.get(k) == tf[k], f"{k} is not what generating the changed model afresh gives"
        assert set(now) == set(ta) | set(tf), "unexpected files after generating a changed model"
        st_ = stamps(a)
        for k in now:
            if k == LIST:
                continue
            changed = k in tf and ta.get(k) != tf[k]
            assert (st_[k] != OLD) == changed, f"{k} is {'not ' if changed else ''}rewritten although its content {'changes' if changed else 'stays'} ({c['ops']})"
        any_changed = any(ta.get(k) != tf[k] for k in tf)
        if not any_changed and LIST in st_:
            assert st_[LIST] == OLD, "the list of files is rewritten without any change"
        # a file that was damaged or removed is restored
        k = sorted(tf)[c["hashseed"] % len(tf)]
        if k != LIST:
            os.unlink(os.path.join(a, k))
            gen.must_run(yt, a, "pkg", *args, **kw)
            assert gen.tree(a).get(k) == tf[k], f"the removed file {k} is not generated again"
        if any_changed:
            rec.nontrivial()
        rec.label(c["lang"])
        for o in c["ops"]:
            rec.label(o)


if __name__ == "__main__":
    raise SystemExit(pp.main([pp.Prop("generating_is_deterministic_and_minimal", cases(), check, (150, 4000))]))
