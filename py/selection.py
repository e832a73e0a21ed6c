"""The dictionary selection names every generated class exactly once (G08); also helpers for the read rules in it."""
import collections
import os
import re
import xml.etree.ElementTree as ET

import pp
import gen
from hypothesis import strategies as st
from models import models
import evolve


def parse(text):
    """[(class name, version or None)], [read rule] of a selection file. ROOT takes angle brackets in attributes as they are"""
    esc = re.sub(r'"[^"]*"', lambda m: m.group(0).replace("<", "&lt;").replace(">", "&gt;"), text)
    root = ET.fromstring(esc)
    assert root.tag == "lcgdict", f"the outermost element is {root.tag}"
    sel = root.findall("selection")
    assert len(sel) == 1, f"{len(sel)} selections"
    classes, rules = [], []
    for e in sel[0]:
        assert e.tag == "class" and not (e.text or "").strip() and set(e.attrib) <= {"name", "ClassVersion"}, f"unexpected {e.tag} {e.attrib}"
        classes.append((e.attrib["name"], e.attrib.get("ClassVersion")))
    for e in root:
        assert e.tag in ("selection", "ioread"), f"unexpected {e.tag}"
        if e.tag == "ioread":
            rules.append(tuple(sorted(e.attrib.items())) + (("code", re.sub(r"\s+", " ", e.text).strip()),))
    return classes, rules


def versioned(n, v):
    ns, _, b = n.rpartition("::")
    return f"{ns}::v{v}::{b}" if ns else f"v{v}::{b}"


def expected(T, olds=(), renamed=()):
    """class names and their versions; renamed: names of datatypes that got another one"""
    r = []

    def add(n, v):
        r.append((n, v))

    v = T["schema_version"]
    for n in T["components"]:
        for x in (n, versioned(n, v)):
            add(x, v)
            add(f"std::vector<{x}>", v)
    for n in [*T["datatypes"], *renamed]:
        for x in (n + "Data", versioned(n, v) + "Data"):
            add(x, v)
            add(f"std::vector<{x}>", v)
        ns, _, b = n.rpartition("::")
        for x in (n, (ns + "::" if ns else "") + "Mutable" + b, n + "Collection"):
            add(x, v)
    for S in olds:
        v = S["schema_version"]
        for n in S["components"]:
            add(versioned(n, v), v)
            add(f"std::vector<{versioned(n, v)}>", v)
        for n in S["datatypes"]:
            if n in T["datatypes"] or n in renamed:
                add(versioned(n, v) + "Data", v)
                add(f"std::vector<{versioned(n, v)}Data>", v)
    return r


def check_classes(classes, want):
    a, b = collections.Counter(n for n, _ in classes), collections.Counter(n for n, _ in want)
    assert a == b, f"missing: {sorted((b - a).elements())}, too many: {sorted((a - b).elements())}"
    ver = dict(want)
    for n, v in classes:
        # containers need not have one
        if v is not None or not n.startswith("std::vector<"):
            assert v == str(ver[n]), f"{n} has the class version {v}, the schema version is {ver[n]}"


@st.composite
def cases(draw):
    up = draw(models(package="upm", max_type=2, max_comp=2, max_link=1)) if draw(st.integers(0, 2)) == 0 else None
    S = draw(models(upstream=up))
    c = {"up": up, "olds": [], "new": S, "evo": []}
    if draw(st.integers(0, 2)) == 0:
        c.update(draw(evolve.histories(up, S)))
    return c


def check(c, rec):
    T = c["new"]
    with gen.scratch() as w:
        args = evolve.write_case(c, w)
        out = os.path.join(w, "o")
        gen.must_run(gen.write_model(T, w), out, "pkg", *args)
        classes, rules = parse(open(os.path.join(out, "src", "selection.xml"), encoding="utf-8").read())
        js = evolve.judgements(c)
        renamed = []
        for changes, _, _ in js:
            renamed += [x[1] for x in changes if x[0] == "RenamedDataType" and x[1] not in renamed]
        check_classes(classes, expected(T, c["olds"], renamed))
        lst = gen.cmake_lists(out)
        assert [os.path.basename(x) for x in lst["selection_xml"]] == ["selection.xml"]
    if len(T["datatypes"]) + len(T["components"]) >= 2:
        rec.nontrivial()
    rec.label("upstream model" if c["up"] else "no upstream model")
    if c["olds"]:
        rec.label("old versions")
    if renamed:
        rec.label("renamed types")
    if T["links"] or T["interfaces"]:
        rec.label("links or interfaces")


if __name__ == "__main__":
    raise SystemExit(pp.main([pp.Prop("selections_name_each_class_once", cases(), check, (500, 15000))]))
