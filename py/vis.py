"""The graph that podio-vis draws (G09)."""
import json
import os

import pp
import gen
import yaml
from hypothesis import strategies as st
from models import bare, models

VIS = os.path.join(pp.REPO, "tools", "podio-vis")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


def renamed(S, old, new):
    f = lambda t: new if t == old else t  # noqa: E731
    S["datatypes"] = {f(n): x for n, x in S["datatypes"].items()}
    for x in S["datatypes"].values():
        for k in ("one", "many"):
            for m in x[k]:
                m["t"] = f(m["t"])
    for x in S["interfaces"].values():
        x["types"] = [f(t) for t in x["types"]]
    for x in S["links"].values():
        x["from"], x["to"] = f(x["from"]), f(x["to"])


@st.composite
def cases(draw):
    up = draw(models(package="upm", max_type=3, max_comp=1, max_link=1)) if draw(st.integers(0, 2)) == 0 else None
    S = draw(models(upstream=up, max_type=7, max_comp=1, max_link=2))
    ends = sorted(S["datatypes"]) + (sorted(up["datatypes"]) if up else [])
    for n in list(S["datatypes"]):
        if draw(st.integers(0, 5)) == 0:
            new = n + draw(st.sampled_from(["Association", "Associations", "AssociationX"]))
            renamed(S, n, new)
            ends = [new if e == n else e for e in ends]
            if draw(st.integers(0, 3)):
                S["datatypes"][new]["one"] = [{"t": draw(st.sampled_from(ends)), "n": f"rel{i}", "d": None, "u": None, "c": ""} for i in range(2)]
                S["datatypes"][new]["many"] = []
    conf = None
    if draw(st.booleans()):
        plain = [e for e in ends if "Association" not in e]
        conf = {draw(st.sampled_from(["a group", "B", "c: d", "e::f", "#1"])) + str(i): draw(st.lists(st.sampled_from(plain), min_size=1, max_size=4, unique=True))
                for i in range(draw(st.integers(0, 3)))} if plain else {}
        if draw(st.booleans()):
            conf["Filter"] = draw(st.lists(st.sampled_from(ends + sorted(S["interfaces"]) + ["Nothing"]), max_size=3, unique=True))
            if draw(st.booleans()):
                conf = {k: conf[k] for k in ["Filter"] + [k for k in conf if k != "Filter"]}
    return {"up": up, "model": S, "conf": conf, "dot": draw(st.booleans()), "fmt": draw(st.sampled_from([None, "png", "pdf"])),
            "filename": draw(st.sampled_from([None, "out", "a.b"]))}


def flatten(events, base):
    """nodes and edges with the attributes in force: [(cluster, id, label)], [(tail, head, label, attributes)], {cluster: label}"""
    nodes, edges, clusters = [], [], {}

    def walk(ev, cluster, ea):
        ea = dict(ea)
        for e in ev:
            if e[0] == "attr" and e[1] == "edge":
                ea.update(e[2])
            elif e[0] == "attr" and e[1] == "graph" and "label" in e[2] and cluster:
                clusters[cluster] = e[2]["label"]
            elif e[0] == "node":
                nodes.append((cluster, e[1], e[2] if e[2] is not None else e[3].get("label")))
            elif e[0] == "edge":
                a = dict(ea, **e[4])
                edges.append((e[1], e[2], e[3] if e[3] is not None else a.get("label"), a.get("color"), a.get("dir")))
            elif e[0] == "sub":
                walk(e[2], e[1], ea)
    walk(events, None, base["edge"])
    return nodes, edges, clusters


def check(c, rec):
    S, up, conf = c["model"], c["up"], c["conf"] or {}
    drop = set(conf.get("Filter", []))
    with gen.scratch() as w:
        args = [gen.write_model(S, w), "-n", "pkg"]
        if up:
            args += ["--upstream-edm", "upm:" + gen.write_model(up, w)]
        if c["conf"] is not None:
            p = os.path.join(w, "conf.yaml")
            with open(p, "w", encoding="utf-8") as f:
                yaml.safe_dump(conf, f, sort_keys=False)
            args += ["--graph-conf", p]
        if c["dot"]:
            args.append("--dot")
        if c["fmt"]:
            args += ["--fmt", c["fmt"]]
        if c["filename"]:
            args += ["--filename", c["filename"]]
        out = os.path.join(w, "graph.json")
        import sys
        if STUBS not in sys.path:
            sys.path.insert(0, STUBS)
        rc, text = pp.run_tool(VIS, args, cwd=w, env={"VIS_OUT": out})
        assert rc == 0, f"podio-vis fails:\n{text[-2500:]}"
        runs = [json.loads(x) for x in open(out, encoding="utf-8")]
    assert len(runs) == 1, f"{len(runs)} graphs are written"
    r = runs[0]
    assert r["kind"] == "Digraph", f"a {r['kind']}"
    if c["dot"]:
        assert r["how"] == "save", "the picture is made although only the dot file was asked for"
    else:
        assert r["how"] == "render" and r["args"] == {"filename": c["filename"] or "gv", "format": c["fmt"] or "svg"}, f"written as {r['how']} {r['args']}"
    nodes, edges, clusters = flatten(r["events"], r["base"])
    ident = lambda n: n.replace("::", "_")  # noqa: E731
    # types and relations
    want, we, assoc = {}, [], False
    for n, x in S["datatypes"].items():
        if n in drop:
            continue
        if "Association" in n and len(x["one"]) >= 2:
            a, b = x["one"][0]["t"], x["one"][1]["t"]
            if not drop & {a, b}:
                assoc = True
                we.append((ident(a), ident(b), n, "black", "both"))
            continue
        want[ident(n)] = n
        for k, color in (("one", "blue"), ("many", "red")):
            for m in x[k]:
                if m["t"] not in drop:
                    we.append((ident(n), ident(m["t"]), None, color, None))
    groups = {}
    for g, ns in conf.items():
        if g != "Filter":
            groups[g] = sorted(ident(n) for n in ns if n not in drop)
            want.update({ident(n): n for n in ns if n not in drop})
    # the legend
    legend = {(t, h): (color, d) for t, h, _, color, d in edges if {t, h} <= {"l1", "r1", "l2", "r2", "l3", "r3"}}
    texts = {n: lb for cl, n, lb in nodes if cl == "cluster0"}
    lines = {texts.get(h): v for (t, h), v in legend.items()}
    wl = {"One to One Relation": ("blue", None), "One to Many Relation": ("red", None)}
    if assoc:
        wl["Association"] = ("black", "both")
    assert lines == wl, f"the legend explains {lines}, expected {wl}"
    got = {}
    for cl, n, lb in nodes:
        if cl != "cluster0":
            assert got.get(n, lb) == lb, f"node {n} is labelled {got[n]} and {lb}"
            got[n] = lb
    assert got == want, f"nodes {got}, expected {want}"
    ge = sorted((e for e in edges if (e[0], e[1]) not in legend), key=repr)
    assert ge == sorted(we, key=repr), f"edges {ge},\\nexpected {sorted(we, key=repr)}"
    gg = {}
    for cl, n, lb in nodes:
        if cl and cl != "cluster0":
            gg.setdefault(clusters.get(cl), set()).add(n)
    wg = {g: set(ns) for g, ns in groups.items() if ns}
    assert gg == wg, f"groups {gg}, expected {wg}"
    if len(we) >= 2 and len(want) >= 2:
        rec.nontrivial()
    if assoc:
        rec.label("association")
    if drop:
        rec.label("filter")
    if groups:
        rec.label("groups")
    if up:
        rec.label("upstream model")


if __name__ == "__main__":
    raise SystemExit(pp.main([pp.Prop("graphs_show_the_model", cases(), check, (2000, 60000))]))
