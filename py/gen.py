"""Running podio's class generator on generated models."""
import os
import re
import subprocess
import tempfile

import pp
import yaml
from models import yaml_text
try:  # so that forked programs start faster
    import podio_gen.cpp_generator  # noqa: F401
    import podio_gen.julia_generator  # noqa: F401
except Exception:  # pylint: disable=broad-except
    pass

GEN = os.path.join(pp.REPO, "python", "podio_class_generator.py")


def write_model(S, d, name=None, text=None):
    p = os.path.join(d, (name or S["package"]) + ".yaml")
    with open(p, "w", encoding="utf-8") as f:
        f.write(yaml_text(S) if text is None else text)
    return p


def run(yaml_file, out, package, *args, handlers=("ROOT",), separate=None):
    """the class generator as a user runs it; separate: environment of a process of its own"""
    a = ["-q", *args, yaml_file, out, package]
    if "--lang" not in args and "-l" not in args:
        a += list(handlers)
    # options with several values swallow what follows them
    a = ["-q", yaml_file, out, package, *([] if ("--lang" in args or "-l" in args) else handlers), *args]
    env = {"TMPDIR": os.environ.get("TMPDIR", "/tmp")}
    if separate is not None:
        r = subprocess.run(["/usr/bin/python3", GEN, *a], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env, **separate), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout
    return pp.run_tool(GEN, a, env=env)


def must_run(*a, **kw):
    rc, out = run(*a, **kw)
    assert rc == 0, f"the class generator fails with {rc} for a valid model:\n{out[-2500:]}"
    assert "Warning" not in out, f"the class generator warns about a valid model:\n{out[-2500:]}"
    return out


def tree(d):
    """relative path -> content"""
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as fh:
                r[os.path.relpath(p, d)] = fh.read()
    return r


def diff_trees(a, b, what):
    assert set(a) == set(b), f"{what}: files only in one: {sorted(set(a) ^ set(b))}"
    for k in sorted(a):
        if a[k] != b[k]:
            la, lb = a[k].decode(errors="replace").split("\n"), b[k].decode(errors="replace").split("\n")
            i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            raise AssertionError(f"{what}: {k} differs at line {i + 1}:\n  {la[i:i + 1]}\n  {lb[i:i + 1]}")


def cmake_lists(out):
    text = open(os.path.join(out, "podio_generated_files.cmake"), encoding="utf-8").read()
    return {m.group(1): m.group(2).split() for m in re.finditer(r"SET\((\w+)\n(.*?)\)", text, re.S)}


def scratch():
    return tempfile.TemporaryDirectory(prefix="gen")


def embedded_definition(out, package):
    """the definition text in the generated DatamodelDefinition.h, as a compiler sees it"""
    text = open(os.path.join(out, package, "DatamodelDefinition.h"), encoding="utf-8").read()
    m = re.search(r"JSONDefinition\s*=\s*", text)
    assert m, "no embedded definition"
    i = m.end()
    parts = []
    while True:
        while text[i] in " \t\n":
            i += 1
        r = re.compile(r'R"([^(\s]*)\(').match(text, i)
        if r:
            e = text.index(f'){r.group(1)}"', r.end())
            parts.append(text[r.end():e])
            i = e + len(r.group(1)) + 2
        elif text[i] == '"':
            s = re.compile(r'"((?:[^"\\\n]|\\.)*)"').match(text, i)
            assert s, "an unterminated string"
            parts.append(s.group(1).encode().decode("unicode_escape"))
            i = s.end()
        else:
            break
    assert text[i] == ";", f"the definition is followed by {text[i:i + 30]!r}"
    return "".join(parts)


def load(text):
    return yaml.safe_load(text)
