"""C20: the Python version parser"""
import importlib.util
import os
import sys
import types

import pp
from pp import Prop, st


class Version:
    """stands for podio::version::Version as ROOT would show it: three 16 bit numbers"""

    def __init__(self, *a):
        self.major, self.minor, self.patch = (tuple(a) + (0, 0, 0))[:3]

    def __setattr__(self, k, v):
        if k not in ("major", "minor", "patch"):
            raise AttributeError(k)
        if not isinstance(v, int) or not 0 <= v < 65536:
            raise TypeError(f"{k}={v!r} is no uint16_t")
        object.__setattr__(self, k, v)

    def t(self):
        return (self.major, self.minor, self.patch)


_n = [0]


def load(version):
    root = types.ModuleType("ROOT")
    root.gInterpreter = types.SimpleNamespace(LoadFile=lambda p: 0, Declare=lambda p: True)
    root.gSystem = types.SimpleNamespace(Load=lambda p: 0)
    ns = types.SimpleNamespace(version=types.SimpleNamespace(Version=Version))
    root.podio = ns
    pk = types.ModuleType("podio")
    pk.__version__ = version
    pk.__path__ = [os.path.join(pp.REPO, "python", "podio")]
    old = {k: sys.modules.get(k) for k in ("ROOT", "podio")}
    sys.modules.update(ROOT=root, podio=pk)
    try:
        _n[0] += 1
        spec = importlib.util.spec_from_file_location(f"podio_version_under_test_{_n[0]}", os.path.join(pp.REPO, "python", "podio", "version.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


part = st.one_of(st.integers(0, 3), st.integers(0, 65535), st.sampled_from([65535, 65534, 256, 255, 99, 10]))


def check_parse(d, rec):
    a, b, c = v = tuple(d)
    m = load(f"{a}.{b}.{c}")
    assert m.build_version.t() == v, f"build version {m.build_version.t()} of {v}"
    for args, want in (((f"{a}.{b}.{c}",), v), ((f"{a}.{b}",), (a, b, 0)), ((f"{a}",), (a, 0, 0)), ((a, b, c), v), ((a, b), (a, b, 0)), ((a,), (a, 0, 0))):
        got = m.parse(*args)
        assert isinstance(got, Version), f"parse{args} is no version"
        assert got.t() == want, f"parse{args} gives {got.t()} instead of {want}"
    x = Version(*v)
    assert m.parse(x).t() == v and m.parse(str(x)).t() == v, f"text of {v} is {str(x)!r}"
    assert str(x) == f"{a}.{b}.{c}", f"text of {v} is {str(x)!r}"
    if len(set(v)) > 1:
        rec.nontrivial()


if __name__ == "__main__":
    sys.exit(pp.main([Prop("version_texts_are_parsed_back", st.tuples(part, part, part).map(list), check_parse, (3000, 40000))]))
