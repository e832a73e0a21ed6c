"""Stands in for PyROOT and cppyy (C26): podio's C++ classes as plain Python with the documented C++ behaviour.

Files are JSON texts on disk: {"format", "objects": {name: [entries]}, "fields": [categories in podio_metadata], "compression",
"version", "models"}. Whatever C++ leaves undefined or cppyy would refuse raises an exception here.
"""
import json
import os
import struct
import sys
import types

import pp

HEADER = {"sio": "podio_header_info", "sio-legacy": "collection_and_version", "ttree": "root", "rntuple": "root", "legacy": "root"}


class CppException(Exception):
    def what(self):
        return str(self.args[0]) if self.args else ""


class runtime_error(CppException):
    pass


class invalid_argument(CppException):
    pass


class bad_function_call(CppException):
    pass


class out_of_range(CppException):
    pass


class S(str):
    """std::string and std::string_view"""

    def data(self):
        return str(self)

    def c_str(self):
        return str(self)


class Optional:
    def __init__(self, v):
        self.v = v

    def has_value(self):
        return self.v is not None

    def value(self):
        if self.v is None:
            raise runtime_error("bad optional access")
        return self.v

    def __bool__(self):
        return self.v is not None


class CollectionBase:
    def __init__(self, vtype="T", payload=()):
        self.vtype, self.payload, self.id = vtype, list(payload), 0

    def getID(self):
        return self.id

    def __len__(self):
        return len(self.payload)

    def __repr__(self):
        return f"<cppyy.gbl.{self.vtype}Collection object at 0x{id(self):x}>"


NULL = type("Null", (), {"__repr__": lambda s: "<cppyy.gbl.podio.CollectionBase object at (nil)>", "__bool__": lambda s: False})()


def collection_id(name):
    h = 2166136261
    for b in name.encode():
        h = (h ^ b) * 16777619 & 0xffffffff
    return h


TYPES = ("int", "float", "double", "std::string")


def convert(t, x):
    if t == "std::string":
        if not isinstance(x, str):
            raise TypeError(f"no string: {x!r}")
        return str(x)
    if t == "int":
        if isinstance(x, bool) or not isinstance(x, int):
            raise TypeError(f"no int: {x!r}")
        if not -2**31 <= x < 2**31:
            raise OverflowError(f"no 32 bit int: {x!r}")
        return x
    if isinstance(x, str) or not isinstance(x, (int, float)):
        raise TypeError(f"no number: {x!r}")
    return struct.unpack("f", struct.pack("f", x))[0] if t == "float" else float(x)


class Template:
    """name[type](args) and name(args)"""

    def __init__(self, f):
        self.f = f

    def __get__(self, obj, cls):
        f = self.f

        class Bound:
            def __getitem__(self, t):
                return lambda *a: f(obj, t, *a)

            def __call__(self, *a):
                return f(obj, None, *a)
        return Bound()


class GenericParameters:
    def __init__(self, p):
        self.p = p

    @Template
    def getKeys(self, t):
        return [S(k) for k in self.p[t]]


class Frame:
    def __init__(self, data=None):
        if data is not None and not isinstance(data, FrameData):
            raise TypeError("no constructor of podio::Frame fits")
        if data is not None and data.used:
            raise runtime_error("FrameData is used twice")
        j = data.j if data is not None else {"colls": {}, "params": {}}
        if data is not None:
            data.used = True
        self.colls = {}
        for n, (t, p) in j["colls"].items():
            self.colls[n] = CollectionBase(t, p)
            self.colls[n].id = collection_id(n)
        self.params = {t: {k: list(v) for k, v in j["params"].get(t, {}).items()} for t in TYPES}

    def getAvailableCollections(self):
        return [S(n) for n in self.colls]

    def get(self, name):
        return self.colls.get(str(name), NULL)

    def getName(self, token):
        i = token if isinstance(token, int) else token.getID()
        for n, c in self.colls.items():
            if c.id == i:
                return Optional(S(n))
        return Optional(None)

    def put(self, coll, name):
        if not isinstance(coll, Moved):
            raise TypeError("put wants an rvalue")
        if not isinstance(name, str):
            raise TypeError("no name")
        if name in self.colls:
            raise TypeError("Template method resolution failed: An object with key already exists in the frame")
        c = coll.x
        n = CollectionBase(c.vtype, c.payload)
        c.payload = []
        n.id = collection_id(name)
        self.colls[name] = n
        return n

    def getParameters(self):
        return GenericParameters(self.params)

    @Template
    def getParameter(self, t, name):
        el = element(t)
        v = self.params[el].get(name)
        if el != t:
            return Optional(None if v is None else list(v))
        return Optional(None if not v else v[0])

    @Template
    def putParameter(self, t, key, value):
        if t is None:
            t = "std::string" if isinstance(value, str) else "double" if isinstance(value, float) else None
            if t is None:
                raise TypeError(f"overload resolution ends somewhere for {value!r}")
        el = element(t)
        if el != t:
            if not isinstance(value, (list, tuple)):
                raise TypeError(f"no vector: {value!r}")
            self.params[el][key] = [convert(el, x) for x in value]
        else:
            self.params[el][key] = [convert(el, value)]

    def json(self, names=None):
        names = list(self.colls) if names is None else [str(n) for n in names]
        for n in names:
            if n not in self.colls:
                raise invalid_argument(f"Collection '{n}' in category is not available")
        return {"colls": {n: [self.colls[n].vtype, self.colls[n].payload] for n in names}, "params": json.loads(json.dumps(self.params))}


def element(t):
    el = t[len("std::vector<"):-1] if t.startswith("std::vector<") else t
    if el not in TYPES:
        raise TypeError(f"could not instantiate for {t}")
    return el


class FrameData:
    def __init__(self, j):
        self.j, self.used = j, False

    def __smartptr__(self):
        return self


class Moved:
    """what std::move returns"""

    def __init__(self, x):
        self.x = x


def move(x):
    return x if isinstance(x, FrameData) else Moved(x)


def load(f):
    if not isinstance(f, str):
        raise TypeError(f"no std::string: {f!r}")
    if not os.path.exists(f):
        raise runtime_error(f"File {f} couldn't be found")
    with open(f, encoding="utf-8") as s:
        s.readline()
        return json.loads(s.read())


def store(f, j):
    with open(f, "w", encoding="utf-8") as s:
        s.write(HEADER[j["format"]] + "\n" + json.dumps(j))


opened, finished = [], []


class Version:
    def __init__(self, *a):
        self.major, self.minor, self.patch = (tuple(a) + (0, 0, 0))[:3]


class Reader:
    fmt = ""
    several = True

    def __init__(self):
        self.files = None
        self.pos = {}

    def openFiles(self, names):
        if not isinstance(names, list) or not all(isinstance(n, str) for n in names):
            raise TypeError(f"no vector of strings: {names!r}")
        if not names or self.files is not None:
            raise runtime_error("open nothing or twice")
        self.files = [load(n) for n in names]
        if any(f["format"] != self.fmt for f in self.files):
            raise runtime_error(f"{names} are no {self.fmt} files")
        opened.append((self.fmt, list(names)))

    def all(self, cat):
        return [e for f in self.files for e in f["objects"].get(cat, [])]

    def getAvailableCategories(self):
        return [S(n) for n in self.files[0]["fields"]]

    def getEntries(self, cat):
        return len(self.all(cat))

    def readNextEntry(self, cat, colls=()):
        i = self.pos.get(cat, 0)
        a = self.all(cat)
        if i >= len(a):
            return None
        e = a[i]
        names = [str(n) for n in colls]
        if not isinstance(colls, (list, tuple)):
            raise TypeError("no vector of names")
        for n in names:
            if n not in e["colls"]:
                raise invalid_argument(f"{n} is not available from Frame")
        self.pos[cat] = i + 1
        return FrameData({"colls": {n: c for n, c in e["colls"].items() if not names or n in names}, "params": e["params"]})

    def readEntry(self, cat, i, colls=()):
        if not isinstance(i, int) or not 0 <= i < 2**32:
            raise TypeError(f"no unsigned: {i!r}")
        self.pos[cat] = i
        return self.readNextEntry(cat, colls)

    def currentFileVersion(self, model=None):
        if model is None:
            return Version(*self.files[0]["version"])
        v = self.files[0]["models"].get(model)
        return Optional(Version(*v[1]) if v and v[1] else None)

    def getAvailableDatamodels(self):
        return [S(n) for n in self.files[0]["models"]]

    def getDatamodelDefinition(self, n):
        m = self.files[0]["models"].get(n)
        return S(m[0] if m else "{}")


class SingleReader(Reader):
    def openFile(self, name):
        Reader.openFiles(self, [name])
    openFiles = property()


class LegacyMixin:
    """legacy readers cannot tell about models"""
    getAvailableDatamodels = property()
    getDatamodelDefinition = property()

    def currentFileVersion(self):
        return Version(*self.files[0]["version"])


def reader(base, f, *mix):
    return type(f, mix + (base,), {"fmt": f})


class Writer:
    fmt = ""

    def __init__(self, name):
        if not isinstance(name, str):
            raise TypeError(f"no std::string: {name!r}")
        self.name, self.done = name, False
        self.j = {"format": self.fmt, "objects": {}, "fields": [], "compression": 101, "version": [1, 2, 3], "models": {}}

    def writeFrame(self, frame, cat, *names):
        if self.done:
            raise runtime_error("writing to a finished file")
        if not isinstance(frame, Frame) or not isinstance(cat, str) or len(names) > 1:
            raise TypeError("wrong arguments")
        if names and (not isinstance(names[0], (list, tuple)) or not all(isinstance(n, str) for n in names[0])):
            raise TypeError(f"no vector of names: {names[0]!r}")
        e = frame.json(*names)
        if cat not in self.j["fields"]:
            self.j["fields"].append(cat)
        self.j["objects"].setdefault(cat, []).append(e)

    def finish(self):
        if not self.done:
            self.done = True
            store(self.name, self.j)
            finished.append(self.name)

    def __del__(self):
        try:
            self.finish()
        except Exception:  # pylint: disable=broad-except
            pass


def writer(f):
    return type(f + "-writer", (Writer,), {"fmt": f})


class Named:
    def __init__(self, n):
        self.n = n

    def GetName(self):
        return self.n


class TFile:
    def __init__(self, name):
        self.name = name
        try:
            self.j = load(name)
            self.zombie = not self.j["format"] in ("ttree", "rntuple", "legacy")
        except Exception:  # pylint: disable=broad-except
            self.zombie = True

    @staticmethod
    def Open(name, mode="READ"):
        if not isinstance(name, str):
            raise TypeError("no char*")
        if not os.path.exists(name):
            raise OSError(f"Failed to open file {name}")
        return TFile(name)

    def IsZombie(self):
        return self.zombie

    def Close(self):
        pass

    def Get(self, n):
        if n == "podio_metadata" and self.j["format"] != "legacy":
            kind = "TTree" if self.j["format"] == "ttree" else "ROOT::RNTuple"
            return types.SimpleNamespace(IsA=lambda: Named(kind))
        return None

    def GetListOfKeys(self):
        return [Named(n) for n in self.j["objects"]] + ([Named("podio_metadata")] if self.j["fields"] is not None else [])

    def GetCompressionSettings(self):
        return self.j["compression"]

    def Delete(self, what):
        n = what.split(";")[0]
        if n == "podio_metadata":
            self.j["fields"] = None
        else:
            self.j["objects"].pop(n, None)

    def Write(self, *a):
        store(self.name, self.j)


class TFileMerger:
    kRegular, kIncremental, kResetable, kNonResetable, kOnlyListed, kSkipListed = 0, 2, 4, 8, 32, 64
    kAll = 12
    kAllIncremental = 14

    def __init__(self, *a):
        self.ins, self.names, self.out = [], [], None

    def OutputFile(self, name, mode="RECREATE", compression=1):
        if not isinstance(name, str):
            raise TypeError("no char*")
        self.out, self.mode, self.compression = name, "RECREATE" if mode is True else "CREATE" if mode is False else mode, compression
        return True

    def AddFile(self, name):
        if not isinstance(name, str):
            raise TypeError("no char*")
        self.ins.append(name)
        return True

    def SetFastMethod(self, on=True):
        pass

    def AddObjectNames(self, n):
        self.names += n.split()

    def PartialMerge(self, flags):
        new = self.mode != "UPDATE"
        if new and os.path.abspath(self.out) in [os.path.abspath(i) for i in self.ins]:
            return False
        if new:
            out = None
        else:
            out = load(self.out)
            if not flags & self.kIncremental:
                return False  # would replace what is there
        for i in self.ins:
            if not os.path.exists(i):
                return False
            j = load(i)
            if out is None:
                out = {"format": j["format"], "objects": {}, "fields": None, "compression": self.compression, "version": j["version"], "models": j["models"]}
            if j["format"] != out["format"]:
                return False

            def selected(n):
                if flags & self.kOnlyListed:
                    return n in self.names
                if flags & self.kSkipListed:
                    return n not in self.names
                return True
            for n, es in j["objects"].items():
                if selected(n):
                    out["objects"].setdefault(n, []).extend(es)
            if selected("podio_metadata"):
                if out["fields"] is not None and set(out["fields"]) != set(j["fields"]):
                    return False  # the fields of the object do not fit
                out["fields"] = out["fields"] or j["fields"]
        if out is None:
            return False
        store(self.out, out)
        return True


pythonizations = []


def ns(**k):
    return types.SimpleNamespace(**k)


class IsBaseOf:
    def __getitem__(self, k):
        return ns(value=issubclass(k[1], k[0]))


def install(root_version="6.34.04"):
    """makes `import ROOT`, `import cppyy` and `import podio` use what is here"""
    std = types.ModuleType("cppyy.gbl.std")
    std.__dict__.update(move=move, invalid_argument=invalid_argument, bad_function_call=bad_function_call, out_of_range=out_of_range,
                        runtime_error=runtime_error, is_base_of=IsBaseOf())
    version = ns(Version=Version)
    podio = ns(Frame=Frame, CollectionBase=CollectionBase, version=version,
               ROOTReader=reader(Reader, "ttree"), RNTupleReader=reader(Reader, "rntuple"), ROOTLegacyReader=reader(Reader, "legacy", LegacyMixin),
               SIOReader=reader(SingleReader, "sio"), SIOLegacyReader=reader(SingleReader, "sio-legacy", LegacyMixin),
               ROOTWriter=writer("ttree"), RNTupleWriter=writer("rntuple"), SIOWriter=writer("sio"),
               utils=ns(expand_glob=lambda p: [S(p)], is_glob_pattern=lambda p: "*" in p),
               LinkNavigator={}, ReturnFrom=object(), ReturnTo=object(), LinkCollection=object())
    gbl = types.ModuleType("cppyy.gbl")
    gbl.std, gbl.podio = std, podio
    cppyy = types.ModuleType("cppyy")
    cppyy.gbl, cppyy.nullptr = gbl, None
    cppyy.bind_object = lambda p, t: NULL
    cppyy.py = ns(add_pythonization=lambda f, n: pythonizations.append((f, n)))
    root = types.ModuleType("ROOT")
    root.__version__ = root_version
    root.gInterpreter = ns(LoadFile=lambda p: 0, Declare=lambda p: True)
    root.gSystem = ns(Load=lambda p: 0, DynamicPathName=lambda *a: "" if "DataSource" in a[0] else a[0])
    root.podio, root.TFile, root.TFileMerger = podio, TFile, TFileMerger
    root.TObject = ns(kOverwrite=4)
    root.kFALSE, root.kTRUE = False, True
    root.std = std
    ver = types.ModuleType("podio.__version__")
    ver.__version__ = "1.2.3"
    tq = types.ModuleType("tqdm")
    tq.tqdm = lambda x, **k: x
    sys.modules.update({"ROOT": root, "cppyy": cppyy, "cppyy.gbl": gbl, "tqdm": tq, "podio.__version__": ver})


def forget():
    for k in [k for k in sys.modules if k == "podio" or k.startswith("podio.") and k != "podio.__version__"]:
        del sys.modules[k]


def repo():
    return pp.REPO
