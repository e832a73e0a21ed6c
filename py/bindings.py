"""podio's Python layer on top of stand-ins for PyROOT and cppyy (C26)"""
import atexit
import json
import os
import pathlib
import struct
import subprocess
import sys
import tempfile
import traceback

import pp
import gen
import fakeroot as fr
from pp import Prop, st

TOOLS = os.path.join(pp.REPO, "tools")


def podio(version="6.34.04"):
    """a fresh import of podio"""
    fr.forget()
    fr.install(version)
    del fr.opened[:], fr.finished[:], fr.pythonizations[:]
    atexit_register = atexit.register
    registered = []
    atexit.register = lambda f, *a, **k: registered.append(f) or f
    try:
        import podio as p  # pylint: disable=import-outside-toplevel
    finally:
        atexit.register = atexit_register
    p.at_exit = registered
    return p


def raises(exc, f, what):
    try:
        r = f()
    except exc:
        return
    except Exception as e:  # pylint: disable=broad-except
        raise AssertionError(f"{what} raises {type(e).__name__}: {e}") from e
    raise AssertionError(f"{what} gives {r!r}")


# ---- frames

names = st.one_of(st.sampled_from(["a", "b", "c"]), st.text(min_size=1, max_size=4))
ints = st.integers(-2**31, 2**31 - 1)
floats = st.floats(allow_nan=False, width=64)
f32 = st.floats(allow_nan=False, width=32)
texts = st.text(max_size=5)
BY = {"int": ints, "float": f32, "double": floats, "std::string": texts}
AS = {"int": ["int"], "float": ["float"], "double": ["double"], "std::string": ["std::string", "str"]}


@st.composite
def parameter(draw):
    t = draw(st.sampled_from(list(BY)))
    how = draw(st.sampled_from(["value", "list", "list", "tuple"]))
    explicit = t == "float" or draw(st.booleans())
    v = draw(BY[t]) if how == "value" else draw(st.lists(BY[t], min_size=0 if explicit else 1, max_size=4))
    return {"op": "param", "key": draw(names), "type": t, "how": how, "value": v, "as": draw(st.sampled_from(AS[t])) if explicit else None}


histories = st.lists(st.one_of(
    parameter(), parameter(),
    st.fixed_dictionaries({"op": st.just("put"), "name": names, "payload": st.lists(st.integers(0, 9), max_size=3)}),
    st.fixed_dictionaries({"op": st.just("badput"), "name": names, "what": st.sampled_from(["list", "none", "str", "int"])}),
    st.fixed_dictionaries({"op": st.just("badparam"), "key": names, "as": st.sampled_from(["long", "bool", "string", "vector<int>"]), "list": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("get"), "key": names, "as": st.sampled_from([None, "int", "float", "double", "str", "std::string", "long"])})), max_size=14)


def visible(v):
    return v[0] if len(v) == 1 else v


def same(a, b):
    return type(a) is type(b) and (a == b if not isinstance(a, float) else struct.pack("d", a) == struct.pack("d", b)) if not isinstance(a, list) else \
        isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def fits(as_type, types):
    """which of the C++ types a name (of C++ or Python) can mean"""
    return [t for t in types if as_type == t or as_type == {"int": "int", "float": "float", "double": "float", "std::string": "str"}[t]]


def compare_frame(f, colls, params):
    assert sorted(f.getAvailableCollections()) == sorted(colls), f"collections {f.getAvailableCollections()} instead of {list(colls)}"
    assert all(type(n) is str for n in f.getAvailableCollections()), "names that are no str"
    for n, p in colls.items():
        c = f.get(n)
        assert c.payload == p, f"collection {n!r} is another one"
        assert f.getName(c) == n and f.getName(c.getID()) == n, f"name of the collection {n!r} by itself or its ID"
    keys = [k for k in dict.fromkeys(k for t in params.values() for k in t)]
    assert sorted(f.parameters) == sorted(keys), f"parameters {f.parameters} instead of {keys}"
    for k in keys:
        have = {t: v[k] for t, v in params.items() if k in v}
        if len(have) == 1:
            t, v = next(iter(have.items()))
            assert same(f.get_parameter(k), visible(v)), f"parameter {k!r} is {f.get_parameter(k)!r} instead of {visible(v)!r}"
        else:
            raises(ValueError, lambda: f.get_parameter(k), f"parameter {k!r} of several types without saying which")
        want = {t: len(v) for t, v in have.items()}
        got = f.get_param_info(k)
        assert got == want, f"info about {k!r} is {got} instead of {want}"


def check_frame(d, rec):
    p = podio(d["version"])
    colls, params = {}, {t: {} for t in BY}
    if d["data"]:
        j = {"colls": {n: ["T", v] for n, v in d["data"]["colls"].items()}, "params": {t: dict(v) for t, v in d["data"]["params"].items()}}
        f = p.Frame(fr.FrameData(j))
        colls = {n: list(v) for n, v in d["data"]["colls"].items()}
        params = {t: {k: list(x) for k, x in d["data"]["params"].get(t, {}).items()} for t in BY}
    else:
        f = p.Frame()
    for o in d["ops"]:
        if o["op"] == "param":
            v = tuple(o["value"]) if o["how"] == "tuple" else o["value"]
            if o["as"] is None:
                f.put_parameter(o["key"], v)
            else:
                f.put_parameter(o["key"], v, as_type=o["as"])
            params[o["type"]][o["key"]] = [o["value"]] if o["how"] == "value" else list(o["value"])
        elif o["op"] == "put":
            c = fr.CollectionBase("T", o["payload"])
            if o["name"] in colls:
                raises(ValueError, lambda: f.put(c, o["name"]), "putting a second collection under a name")
                rec.label("second collection refused")
            else:
                r = f.put(c, o["name"])
                colls[o["name"]] = list(o["payload"])
                assert r is f.get(o["name"]), "put gives something else than the frame has"
        elif o["op"] == "badput":
            raises(ValueError, lambda: f.put({"list": [1, 2], "none": None, "str": "cppyy", "int": 3}[o["what"]], o["name"]), "putting something that is no collection")
        elif o["op"] == "badparam":
            raises(ValueError, lambda: f.put_parameter(o["key"], [1, 2] if o["list"] else 1, as_type=o["as"]), f"a parameter of type {o['as']}")
        else:
            k = o["key"]
            have = [t for t in BY if k in params[t]]
            if k not in colls:
                raises(KeyError, lambda: f.get(k), f"a collection {k!r} that is not there")
                raises(KeyError, lambda: f.getName(fr.collection_id("not " + k)), "the name of an unknown ID")
            if not have:
                raises(KeyError, lambda: f.get_parameter(k, o["as"]), f"a parameter {k!r} that is not there")
                raises(KeyError, lambda: f.get_param_info(k), f"info about a parameter {k!r} that is not there")
            elif len(have) == 1:
                assert same(f.get_parameter(k, as_type=o["as"]), visible(params[have[0]][k])), "the type matters for a parameter of one type"
            elif o["as"] is not None:
                fit = fits(o["as"], have)
                if o["as"] in fit:
                    fit = [o["as"]] if len(fit) == 1 else fit
                if len(fit) == 1:
                    assert same(f.get_parameter(k, as_type=o["as"]), visible(params[fit[0]][k])), f"parameter {k!r} as {o['as']}"
                    rec.label("parameter chosen by type")
                else:
                    raises(ValueError, lambda: f.get_parameter(k, as_type=o["as"]), f"parameter {k!r} of types {have} as {o['as']}")
        compare_frame(f, colls, params)
    if len(colls) > 1 and sum(len(v) for v in params.values()) > 2:
        rec.nontrivial()


frame_data = st.fixed_dictionaries({"colls": st.dictionaries(names, st.lists(st.integers(0, 9), max_size=3), max_size=3),
                                    "params": st.fixed_dictionaries({t: st.dictionaries(names, st.lists(BY[t], max_size=3), max_size=2) for t in BY})})
versions = st.sampled_from(["6.34.04", "6.36.00", "6.36.02"])
frame_cases = st.fixed_dictionaries({"version": versions, "data": st.one_of(st.none(), frame_data), "ops": histories})

# ---- files

FORMATS = {"ttree": ".root", "rntuple": ".root", "legacy": ".root", "sio": ".sio", "sio-legacy": ".sio"}
CATS = ["events", "runs", "metadata", "other", "x"]


def stored(i, with_b=True):
    """a frame that can be told apart"""
    return {"colls": dict({"a": ["T", [i]]}, **({"b": ["U", [i, i]]} if with_b else {})), "params": {t: {} for t in BY} | {"int": {"number": [i]}}}


@st.composite
def files(draw, fmts=tuple(FORMATS), min_files=1, max_files=3, one_meta=False):
    fmt = draw(st.sampled_from(fmts))
    cats = draw(st.lists(st.sampled_from(CATS), min_size=1, max_size=3, unique=True))
    if "legacy" in fmt:
        cats = ["events"]
    n = 1 if one_meta is False and fmt.startswith("sio") else draw(st.integers(min_files, max_files))
    num = [0]

    def some(c):
        # SIO files only know categories by their frames
        k = draw(st.integers(0, 1 if one_meta and c == "metadata" else 4))
        num[0] += k
        return [stored(num[0] - k + i) for i in range(k)]
    fs = [{"format": fmt, "objects": {c: some(c) for c in cats}, "fields": list(cats), "compression": draw(st.sampled_from([101, 207, 505])),
           "version": [draw(st.integers(0, 99)) for _ in range(3)],
           "models": {m: [json.dumps({"model": m}), draw(st.one_of(st.none(), st.just([1, 0, 2])))] for m in draw(st.lists(st.sampled_from(["m1", "m2"]), unique=True))}}
          for i in range(n)]
    if one_meta and fmt == "sio":
        for x in fs:
            x["objects"] = {c: v for c, v in x["objects"].items() if v} or {"events": [stored(0)]}
            x["fields"] = list(x["objects"])
    return {"fmt": fmt, "files": fs}


def write_files(w, d):
    r = []
    for i, j in enumerate(d["files"]):
        r.append(os.path.join(w, f"f{i}{FORMATS[d['fmt']]}"))
        fr.store(r[-1], j)
    return r


steps = st.lists(st.tuples(st.sampled_from(["next", "next", "at", "at", "len", "rest", "badcoll"]), st.integers(-7, 7), st.sampled_from(["int", "for"])).map(list), min_size=1, max_size=9)


@st.composite
def read_cases(draw):
    d = draw(files())
    d["as"] = draw(st.sampled_from(["str", "list", "list"])) if len(d["files"]) == 1 else "list"
    d["version"] = draw(versions)
    d["direct"] = draw(st.sampled_from([None, "str", "Path", "list", "paths"]))
    d["plan"] = [[draw(st.sampled_from(list(d["files"][0]["objects"]) * 3 + ["unknown"])), draw(st.sampled_from([None, [], ["a"], ["b", "a"]])), draw(steps)]
                 for _ in range(draw(st.integers(1, 3)))]
    return d


def compare_read(f, j, colls):
    compare_frame(f, {n: c[1] for n, c in j["colls"].items() if not colls or n in colls}, {t: j["params"].get(t, {}) for t in BY})


def check_read(d, rec):
    p = podio(d["version"])
    fmt = d["fmt"]
    legacy = "legacy" in fmt
    with gen.scratch() as w:
        fs = write_files(w, d)
        if d["direct"] is None:
            r = p.reading.get_reader(fs[0] if d["as"] == "str" else fs)
        else:
            cls = {"ttree": p.root_io.Reader, "rntuple": p.root_io.RNTupleReader, "legacy": p.root_io.LegacyReader, "sio": p.sio_io.Reader, "sio-legacy": p.sio_io.LegacyReader}[fmt]
            one = len(fs) == 1
            arg = {"str": fs[0] if one else fs, "Path": pathlib.Path(fs[0]) if one else fs, "list": fs, "paths": [pathlib.Path(x) for x in fs]}[d["direct"]]
            r = cls(arg)
        assert fr.opened == [(fmt, fs)], f"{fr.opened} were opened for the {fmt} files {fs}"
        want = {c: [e for j in d["files"] for e in j["objects"][c]] for c in d["files"][0]["objects"]}
        assert isinstance(r.categories, tuple) and sorted(r.categories) == sorted(want), f"categories {r.categories}"
        assert r.is_legacy is legacy, f"is_legacy is {r.is_legacy} for {fmt}"
        v = r.current_file_version()
        assert [v.major, v.minor, v.patch] == d["files"][0]["version"], "version of the file"
        models = d["files"][0]["models"]
        assert sorted(r.datamodel_definitions) == ([] if legacy else sorted(models)), f"models {r.datamodel_definitions}"
        for m in ["m1", "m2"]:
            got = r.get_datamodel_definition(m)
            assert got == ("" if legacy else models[m][0] if m in models else "{}"), f"definition {got!r} of {m}"
            if legacy:
                raises(RuntimeError, lambda: r.current_file_version(m), "the version of a model in a legacy file")
            elif m in models and models[m][1]:
                x = r.current_file_version(m)
                assert [x.major, x.minor, x.patch] == models[m][1], f"version of {m}"
            else:
                raises(KeyError, lambda: r.current_file_version(m), f"the version of {m}, that has none")
        pos = {}
        for cat, colls, st_ in d["plan"]:
            es = want.get(cat, [])
            if legacy and colls:
                raises(ValueError, lambda: r.get(cat, colls), "selective reading of a legacy file")
                continue
            it = r.get(cat) if colls is None else r.get(cat, coll_names=colls)
            for what, i, how in st_:
                if what == "len":
                    assert len(it) == len(es), f"length {len(it)} instead of {len(es)}"
                elif what == "at":
                    if -len(es) <= i < len(es):
                        compare_read(it[i], es[i], colls)
                        pos[cat] = (i % len(es)) + 1
                        rec.label("negative index" if i < 0 else "index")
                        if i % len(es) > 0:
                            rec.nontrivial()
                    else:
                        raises(IndexError, lambda: it[i], f"entry {i} of {len(es)}")
                        if es:  # the position is nobody's business after that
                            compare_read(it[0], es[0], colls)
                            pos[cat] = 1
                elif what == "next":
                    k = pos.get(cat, 0)
                    if k < len(es):
                        compare_read(next(it), es[k], colls)
                        pos[cat] = k + 1
                    else:
                        raises(StopIteration, lambda: next(it), "next after the last frame")
                elif what == "badcoll" and not legacy and es:
                    bad = r.get(cat, ["a", "not there"])
                    raises(ValueError, lambda: bad[0], "an unknown collection by index")
                    compare_read(it[0], es[0], colls)
                    pos[cat] = 1
                    if len(es) > 1:
                        raises(ValueError, lambda: next(bad), "an unknown collection by iteration")
                        compare_read(it[0], es[0], colls)
                elif what == "rest":
                    k = pos.get(cat, 0)
                    got = list(it) if how == "int" else [f for f in it]
                    assert len(got) == len(es) - min(k, len(es)), f"{len(got)} frames from position {k} of {len(es)}"
                    for f, e in zip(got, es[k:]):
                        compare_read(f, e, colls)
                    pos[cat] = max(k, len(es))


@st.composite
def misnamed(draw):
    return {"name": draw(st.sampled_from(["a.txt", "root", "a.roo", "sio", "a.ROOT", "a.root.gz", "a.sio ", ""])), "list": draw(st.booleans())}


def check_unknown(d, rec):
    p = podio()
    raises(ValueError, lambda: p.reading.get_reader([d["name"]] if d["list"] else d["name"]), f"a reader for {d['name']!r}")
    raises(IndexError, lambda: p.reading.get_reader([]), "a reader for no files")
    rec.nontrivial()


@st.composite
def write_cases(draw):
    n = draw(st.integers(1, 3))
    return {"writers": [draw(st.sampled_from(["ttree", "rntuple", "sio"])) for _ in range(n)], "path": draw(st.booleans()), "version": draw(versions),
            "ops": [[draw(st.integers(0, n - 1)), draw(st.sampled_from(CATS)), draw(st.sampled_from([None, None, [], ["a"], ["b", "a"], ["a", "c"]]))] for _ in range(draw(st.integers(0, 6)))],
            "finish": [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(n)]}


def check_write(d, rec):
    p = podio(d["version"])
    ext = {"ttree": ".root", "rntuple": ".root", "sio": ".sio"}
    with gen.scratch() as w:
        ws, want, fs = [], [], []
        for i, k in enumerate(d["writers"]):
            fs.append(os.path.join(w, f"w{i}{ext[k]}"))
            cls = {"ttree": p.root_io.Writer, "rntuple": p.root_io.RNTupleWriter, "sio": p.sio_io.Writer}[k]
            ws.append(cls(pathlib.Path(fs[-1]) if d["path"] else fs[-1]))
            want.append({})
        for i, (k, cat, colls) in enumerate(d["ops"]):
            f = p.Frame(fr.FrameData(stored(i)))
            e = stored(i)
            if colls is None:
                ws[k].write_frame(f, cat)
            elif "c" in colls:
                raises(Exception, lambda: ws[k].write_frame(f, cat, collections=colls), "writing a collection that is not there")
                continue
            else:
                ws[k].write_frame(f, cat, collections=colls)
                e["colls"] = {n: e["colls"][n] for n in colls}
            want[k].setdefault(cat, []).append(e)
        for i, n in enumerate(d["finish"]):
            for _ in range(n):
                ws[i].finish()
        for f in p.at_exit:  # the end of the program
            f()
        assert sorted(fr.finished) == sorted(fs), f"finished are {fr.finished} instead of {fs}"
        for i, k in enumerate(d["writers"]):
            j = fr.load(fs[i])
            assert j["format"] == k, f"{fs[i]} is written as {j['format']} instead of {k}"
            assert j["objects"] == want[i], f"the file has {j['objects']} instead of {want[i]}"
            r = p.reading.get_reader(fs[i])
            for c, es in want[i].items():
                got = list(r.get(c))
                assert len(got) == len(es), "number of frames read back"
                for f, e in zip(got, es):
                    compare_read(f, e, None)
        if len([1 for x in want if x]) > 1:
            rec.nontrivial()


# ---- tools


def tool(name, args):
    """runs a Python tool of podio in a forked child with the stand-ins, including what it registered for its end"""
    fd, path = tempfile.mkstemp(prefix="out")
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(2, "w", closefd=False)
            atexit._clear()  # pylint: disable=protected-access
            fr.forget()
            fr.install()
            sys.argv = [name] + args
            import runpy  # pylint: disable=import-outside-toplevel
            rc = 0
            try:
                runpy.run_path(os.path.join(TOOLS, name), run_name="__main__")
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                rc = 1
            atexit._run_exitfuncs()  # pylint: disable=protected-access
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    os.close(fd)
    _, status = os.waitpid(pid, 0)
    with open(path, errors="replace") as f:
        text = f.read()
    os.unlink(path)
    return os.waitstatus_to_exitcode(status), text


@st.composite
def merges(draw):
    d = draw(files(fmts=("ttree", "rntuple", "sio"), max_files=4, one_meta=True))
    d["metadata"] = draw(st.sampled_from([None, "first", "all", "none"]))
    d["compression"] = draw(st.sampled_from([None, 0, 404]))
    d["tool"] = draw(st.booleans())
    d["paths"] = draw(st.booleans())
    d["wrong"] = draw(st.sampled_from([None] * 6 + ["mode", "twice", "empty", "suffix", "missing"]))
    return d


def check_merge(d, rec):
    old = tempfile.tempdir
    try:
        merged(d, rec)
    finally:
        tempfile.tempdir = old


def merged(d, rec):
    fmt = d["fmt"]
    use_tool = d["tool"] or fmt == "sio"
    with gen.scratch() as w:
        fs = write_files(w, d)
        out = os.path.join(w, "out" + FORMATS[fmt])
        tempfile.tempdir = os.path.join(w, "tmp")
        os.mkdir(tempfile.tempdir)
        kw = {k: d[k] for k in ("metadata", "compression") if d[k] is not None}
        ins, wrong = list(fs), d["wrong"]
        if wrong == "missing" and fmt != "sio":
            ins.append(os.path.join(w, "none.root"))
        elif wrong == "mode":
            kw["metadata"] = "last"
        elif wrong == "empty":
            ins = []
        elif wrong == "twice" and use_tool:
            ins.append(ins[0])
        elif wrong == "suffix" and use_tool:
            ins = [f + ".txt" for f in ins]
        else:
            wrong = None
        if use_tool:
            rc, text = tool("podio-merge-files", ["-o", out] + [x for k, v in kw.items() for x in (f"--{k}", str(v))] + ins)
            if wrong:
                assert rc != 0, f"podio-merge-files accepts wrong arguments ({wrong}):\n{text[-1500:]}"
                return
            assert rc == 0, f"podio-merge-files fails with {rc}:\n{text[-2500:]}"
        else:
            podio()
            from podio.root_merge import merge_files  # pylint: disable=import-outside-toplevel
            args = [pathlib.Path(x) for x in ins] if d["paths"] else ins
            if wrong:
                raises((ValueError, RuntimeError, OSError), lambda: merge_files(args, out, **kw), f"merging with wrong arguments ({wrong})")
                return
            merge_files(args, pathlib.Path(out) if d["paths"] else out, **kw)
        left = os.listdir(os.path.join(w, "tmp"))
        assert not left, f"{left} is left behind in the directory for temporary files"
        j = fr.load(out)
        assert j["format"] == fmt, f"the output is a {j['format']} file"
        cats = dict.fromkeys(c for x in d["files"] for c in x["objects"])
        for c in cats:
            if c == "metadata":
                continue
            want = [e for x in d["files"] for e in x["objects"].get(c, [])]
            got = j["objects"].get(c, [])
            assert got == want, f"category {c} has {[e['params']['int'] for e in got]} instead of {[e['params']['int'] for e in want]}"
            if want:
                assert c in j["fields"], f"category {c} cannot be read"
        mode = kw.get("metadata", "first")
        inputs = [x["objects"].get("metadata", []) for x in d["files"]]
        got = j["objects"].get("metadata", [])
        if "metadata" in cats and (mode != "first" or "metadata" in d["files"][0]["objects"]):
            want = [] if mode == "none" else inputs[0] if mode == "first" else [e for x in inputs for e in x]
        else:
            want = [] if mode == "none" else [{"colls": {}, "params": {t: {} for t in BY}}]
            if mode != "none":
                assert "metadata" in j["fields"], "the metadata that were added cannot be read"
        assert set(j["objects"]) <= set(cats) | {"metadata"}, f"categories {list(j['objects'])} out of {list(cats)}"
        assert len(got) == len(want), f"{len(got)} frames of metadata instead of {len(want)} with {mode}"
        for a, b in zip(got, want):
            b = json.loads(json.dumps(b))
            b["params"]["std::string"]["MergedInputFiles"] = fs
            assert a == b, f"metadata {a} instead of {b}"
        if fmt != "sio":
            assert j["compression"] == {None: 101, 0: d["files"][0]["compression"]}.get(d["compression"], d["compression"]), f"compression {j['compression']}"
        if len(d["files"]) > 1:
            rec.nontrivial()
        rec.label(f"{fmt} {mode}")


@st.composite
def conversions(draw):
    return dict(draw(files(fmts=("ttree", "rntuple"), max_files=1)), wrong=draw(st.integers(0, 7)) == 0)


def check_convert(d, rec):
    with gen.scratch() as w:
        src = write_files(w, d)[0]
        out = os.path.join(w, "out.root")
        back = d["fmt"] == "rntuple"
        rc, text = tool("podio-ttree-to-rntuple", (["-r"] if back != d["wrong"] else []) + [src, out])
        if d["wrong"]:
            assert rc != 0, "a file of the other kind is converted"
            return
        assert rc == 0, f"podio-ttree-to-rntuple fails:\n{text[-2500:]}"
        j = fr.load(out)
        assert j["format"] == ("ttree" if back else "rntuple"), f"the output is a {j['format']} file"
        want = {c: es for c, es in d["files"][0]["objects"].items() if es}
        assert j["objects"] == want, f"{j['objects']} instead of {want}"
        if len(want) > 1:
            rec.nontrivial()


# ---- pythonizations

@st.composite
def classes(draw):
    attrs = draw(st.lists(st.sampled_from(["x", "y", "energy", "__len__", "prop"]), unique=True, max_size=4))
    return {"attrs": attrs, "base": draw(st.lists(st.sampled_from(["x", "z", "mass"]), unique=True, max_size=2)), "ns": draw(st.sampled_from(["", "ns", "a::b"])),
            "sets": draw(st.lists(st.tuples(st.sampled_from(["x", "y", "z", "energy", "mass", "prop", "Energy", "new"]), st.integers(0, 9)).map(list), max_size=6))}


def check_frozen(d, rec):
    podio()
    from podio.pythonizations import load_pythonizations  # pylint: disable=import-outside-toplevel
    load_pythonizations(d["ns"])
    mine = [f for f, n in fr.pythonizations if n == d["ns"]]
    assert mine and len(mine) == len(fr.pythonizations), "pythonizations are not registered for the namespace"
    state = {}

    def prop(n):
        return property(lambda self: state.get(n), lambda self, v: state.__setitem__(n, v))
    cls = type("Klass", (), {n: (lambda self: 3) if n == "__len__" else prop(n) for n in d["attrs"]})
    other = type("Other", (), {})
    for f in mine:
        f(cls, "Klass")
    x = cls()
    for n, v in d["sets"]:
        if n in d["attrs"]:
            setattr(x, n, v)
            assert getattr(x, n) == v, f"attribute {n} cannot be set"
            rec.label("set")
        else:
            raises(AttributeError, lambda: setattr(x, n, v), f"setting the unknown attribute {n}")
            assert not hasattr(x, n), f"attribute {n} exists after setting it was refused"
            rec.nontrivial()
    o = other()
    o.anything = 1  # other classes are not touched


# ---- collections and utilities

@st.composite
def in_python(draw):
    return {"n": draw(st.integers(0, 6)), "at": draw(st.lists(st.integers(-8, 8), max_size=5)), "kinds": draw(st.lists(st.sampled_from(["link", "link", "both", "from", "to", "plain"]), min_size=1, max_size=3)),
            "paths": draw(st.lists(st.text("abc/._* ", min_size=1, max_size=5), max_size=4)), "as": draw(st.sampled_from(["list", "tuple", "set", "generator", "one"])), "how": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "glob": draw(st.lists(st.text("ab/.", max_size=4), max_size=4))}


def check_in_python(d, rec):
    p = podio()
    import warnings  # pylint: disable=import-outside-toplevel
    from podio.utils import convert_to_str_paths, expand_glob  # pylint: disable=import-outside-toplevel
    # navigators are made for the type of the collection
    root = sys.modules["ROOT"].podio
    root.LinkNavigator.clear()
    classes_ = {}
    for i, k in enumerate(d["kinds"]):
        a = {"__cpp_name__": f"podio::LinkCollection{i}"}
        if k in ("link", "both", "from"):
            a["from_type"] = object()
        if k in ("link", "both", "to"):
            a["to_type"] = object()
        c = type(f"C{i}", (), a)
        classes_[c] = k
        root.LinkNavigator[c] = lambda coll, c=c: ("navigator", c, coll)
    for c, k in classes_.items():
        x = c()
        if k in ("link", "both"):
            assert p.LinkNavigator(x) == ("navigator", c, x), f"the navigator for {c} is another one"
            rec.nontrivial()
        else:
            raises(TypeError, lambda: p.LinkNavigator(x), "a navigator for something that is not a collection of links")
    assert p.ReturnFrom is root.ReturnFrom and p.ReturnTo is root.ReturnTo and p.LinkCollection is root.LinkCollection, "tags are mixed up"
    # checked access by index
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from podio.pythonizations import collection_subscript as cs  # pylint: disable=import-outside-toplevel
    cs.CollectionSubscriptPythonizer.register("ns")
    f, where = fr.pythonizations[-1]
    assert where == "ns", "pythonization is registered for another namespace"
    n = d["n"]

    def at(_, i):
        if not 0 <= i < n:
            raise fr.out_of_range("deque")
        return f"immutable {i}"
    coll = type("Coll", (fr.CollectionBase,), {"at": at, "__getitem__": lambda self, i: f"mutable {i}"})
    other = type("Other", (), {"at": at, "__getitem__": lambda self, i: f"mutable {i}"})
    f(coll, "Coll")
    f(other, "Other")
    for i in d["at"]:
        if 0 <= i < n:
            assert coll()[i] == f"immutable {i}", f"element {i} is {coll()[i]}"
        else:
            raises(IndexError, lambda: coll()[i], f"element {i} of {n}")
        assert other()[i] == f"mutable {i}", "another class has changed"
    # paths
    xs = [pathlib.PurePosixPath(x) if h else x for x, h in zip(d["paths"], d["how"])]
    want = [str(x) for x in xs]
    if d["as"] == "one":
        for x, y in zip(xs, want):
            assert convert_to_str_paths(pathlib.Path(x) if isinstance(x, pathlib.PurePosixPath) else x) == [y], f"path {x!r}"
    else:
        got = convert_to_str_paths({"list": list, "tuple": tuple, "set": lambda v: dict.fromkeys(v).keys(), "generator": iter}[d["as"]](xs))
        if d["as"] == "set":
            want = [str(x) for x in dict.fromkeys(xs)]
        assert got == want and all(type(x) is str for x in got), f"paths {got} instead of {want}"
    root.utils.expand_glob = lambda p: [fr.S(x) for x in d["glob"]] + [fr.S(p)]
    got = expand_glob("the*pattern")
    assert got == d["glob"] + ["the*pattern"] and all(type(x) is str for x in got), f"files of a pattern: {got}"


# ---- the script podio-dump

dump_args = st.lists(st.one_of(st.sampled_from(["-c", "events", "-e", "-1", "0:3", "-d", "file.root", "a b", "", "*", "$HOME", "--", "-h"]), st.text("ab \"'\\$`*?", max_size=4)), max_size=6)


@st.composite
def dumps(draw):
    return {"args": draw(dump_args), "edm": draw(st.sampled_from([None, None, ["--dump-edm", "m"], ["--dump-edm=m"]])), "at": draw(st.integers(0, 6)),
            "rc": draw(st.sampled_from([0, 0, 0, 3])), "def": draw(st.dictionaries(st.text("abc", min_size=1, max_size=3), st.one_of(st.integers(), st.text(max_size=4), st.none(), st.lists(st.text(max_size=3), max_size=2)), max_size=3)),
            "link": draw(st.booleans())}


def check_dump(d, rec):
    with gen.scratch() as w:
        b = os.path.join(w, "the bin")
        os.mkdir(b)
        with open(os.path.join(TOOLS, "podio-dump"), encoding="utf-8") as f:
            text = f.read()
        for n, t in (("podio-dump", text), ("json-to-yaml", None), ("podio-dump-tool", None)):
            if t is None and n == "json-to-yaml":
                t = "#!/bin/sh\necho converted; cat\n"
            elif t is None:
                t = "#!/bin/sh\nfor a in \"$@\"; do printf '%s\\0' \"$a\"; done > \"$OUT\"\necho the output\nexit $RC\n"
            with open(os.path.join(b, n), "w", encoding="utf-8") as f:
                f.write(t)
            os.chmod(os.path.join(b, n), 0o755)
        args = [a for a in d["args"] if "\0" not in a and not a.startswith("--dump-edm") and a != "--gdb"]
        if d["edm"]:
            at = min(d["at"], len(args))
            args = args[:at] + d["edm"] + args[at:]
        out = os.path.join(w, "args")
        r = subprocess.run([os.path.join(b, "podio-dump")] + args, env=dict(os.environ, OUT=out, RC=str(d["rc"])), cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
        assert os.path.exists(out), f"the tool is not run: {r.stderr.decode(errors='replace')}"
        with open(out, "rb") as f:
            got = [x.decode() for x in f.read().split(b"\0")[:-1]]
        assert got == args, f"the tool gets {got} instead of {args}"
        assert r.returncode == d["rc"], f"exit code {r.returncode} instead of {d['rc']}"
        want = "converted\nthe output\n" if d["edm"] else "the output\n"
        assert r.stdout.decode() == want, f"output {r.stdout!r}"
        if len(args) > 2:
            rec.nontrivial()


if __name__ == "__main__":
    sys.exit(pp.main([
        Prop("frames_keep_what_is_put", frame_cases, check_frame, (3000, 60000)),
        Prop("readers_give_frames_like_a_list", read_cases, check_read, (4000, 60000)),
        Prop("files_without_a_backend_are_refused", misnamed, check_unknown, (60, 200)),
        Prop("writers_write_and_finish", write_cases, check_write, (2000, 40000)),
        Prop("merged_files_have_everything", merges, check_merge, (1500, 20000)),
        Prop("converted_files_have_everything", conversions, check_convert, (500, 8000)),
        Prop("unknown_attributes_are_refused", classes, check_frozen, (800, 10000)),
        Prop("collections_and_paths_in_python", in_python, check_in_python, (800, 10000)),
        Prop("dump_script_forwards_arguments", dumps, check_dump, (500, 8000)),
    ]))
