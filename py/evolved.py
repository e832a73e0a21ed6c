"""Code for models with older versions (G07)."""
import os

import pp
import gen
import build
import cxx
import evolve
import selection
from evolve import element
from hypothesis import strategies as st
from models import ALL_BUILTIN, bare, models, norm_type


@st.composite
def cases(draw):
    up = draw(models(package="upm", max_type=2, max_comp=2, max_link=1, min_type=1)) if draw(st.integers(0, 3)) == 0 else None
    c = draw(evolve.histories(up, draw(models(upstream=up, max_comp=3, max_type=3))))
    c["order"] = draw(st.integers(0, 1000))
    return c


@st.composite
def any_cases(draw):
    """also pairs whose changes cannot be read back"""
    S = draw(models(max_comp=3, max_type=3, min_type=1))
    T, _, r = draw(evolve.versions(S, evolve.ALLOWED + evolve.RESOLVABLE + evolve.OTHER))
    return {"up": None, "olds": [S], "new": T, "evo": [[x for x in r if draw(st.booleans())]]}


def own(t, S):
    return element(t) in S["components"]


def spelled(t, S, f):
    """a type in C++; components of the model itself are spelled by f"""
    e = element(t)
    x = f(e) if e in S["components"] else (norm_type(e) if e in ALL_BUILTIN else "::" + e)
    return norm_type(t).replace(norm_type(e), x, 1) if t.startswith("std::array<") else x


def in_order(S):
    done = []

    def add(n):
        if n in done:
            return
        for m in S["components"][n]["members"]:
            if own(m["t"], S):
                add(element(m["t"]))
        done.append(n)
    for n in S["components"]:
        add(n)
    return done


def layout_checks(S, ver, alive):
    """C++ text that demands the layouts of one version; ver: namespace of that version or None for the current one;
    alive: names of the datatypes that are to be there"""
    q = (lambda n: "::" + (selection.versioned(n, ver) if ver else n))
    tag = f"v{ver}" if ver else "cur"
    ref = {n: f"ref_{tag}_{i}" for i, n in enumerate(S["components"])}
    r = []

    def one(name, real, members, rel):
        r.append(f"struct {name} {{")
        for m in members:
            r.append(f"  {spelled(m['t'], S, ref.get)} {m['n']};")
        for m in rel:
            r.append(f"  unsigned int {m['n']}_begin; unsigned int {m['n']}_end;")
        r.append("};")
        r.append(f"static_assert(sizeof({name}) == sizeof({real}));")
        for m in members:
            r.append(f"static_assert(std::is_same_v<decltype({real}::{m['n']}), {spelled(m['t'], S, q)}>);")
        for x in [m["n"] for m in members] + [m["n"] + e for m in rel for e in ("_begin", "_end")]:
            r.append(f"static_assert(offsetof({name}, {x}) == offsetof({real}, {x}));")
    for n in in_order(S):
        one(ref[n], q(n), S["components"][n]["members"], [])
    for i, n in enumerate(S["datatypes"]):
        if n in alive:
            x = S["datatypes"][n]
            one(f"ref_{tag}_d{i}", q(n) + "Data", x["members"], x["vec"] + x["many"])
    return r


def rules(c, js):
    """the read rules that are needed"""
    r = []

    def rule(src, dst, t, a, b, v):
        return tuple(sorted({"sourceClass": src, "targetClass": dst, "version": f"[{v}]", "target": b, "source": f"{t} {a}"}.items())) + (("code", f"{b} = onfile.{a};"),)
    for S, (changes, _, _) in zip(c["olds"], js):
        v = S["schema_version"]
        for x in changes:
            if x[0] == "RenamedMember":
                _, n, a, b = x
                d = S["components"].get(n) or S["datatypes"][n]
                t = next(norm_type(m["t"]) for m in d["members"] if m["n"] == a)
                k = n if n in S["components"] else n + "Data"
                r.append(rule(k, k, t, a, b, v))
            elif x[0] == "RenamedDataType":
                for m in S["datatypes"][x[1]]["members"]:
                    r.append(rule(x[1] + "Data", x[2] + "Data", norm_type(m["t"]), m["n"], m["n"], v))
    return sorted(r)


def generate(c, w):
    args = evolve.write_case(c, w)
    out = os.path.join(w, "o")
    gen.must_run(gen.write_model(c["new"], w), out, "pkg", *args)
    inc = ["-I" + out] + ([] if c["new"]["options"]["includeSubfolder"] else ["-I" + os.path.join(out, "pkg")])
    if c["up"]:
        uo = os.path.join(w, "u")
        gen.must_run(os.path.join(w, "upm.yaml"), uo, "upm")
        inc += ["-I" + uo] + ([] if c["up"]["options"]["includeSubfolder"] else ["-I" + os.path.join(uo, "upm")])
    return out, inc


def renames_of(js, c):
    """old name -> [(version, new name)] of datatypes"""
    r = {}
    for S, (changes, _, _) in zip(c["olds"], js):
        for x in changes:
            if x[0] == "RenamedDataType":
                r.setdefault(x[1], []).append((S["schema_version"], x[2]))
    return r


def describe(c, js, rec):
    n = sum(len(x) for x, _, _ in js)
    if n and any(S["components"] or len(S["datatypes"]) > 1 for S in c["olds"]):
        rec.nontrivial()
    for k in {x[0] for ch, _, _ in js for x in ch}:
        rec.label(k)
    rec.label(f"{len(c['olds'])} old versions")
    if c["up"]:
        rec.label("upstream model")


def circular(c):
    """a component that contained another one, which now contains it: headers cannot do that"""
    e = {}
    for S in [*c["olds"], c["new"]]:
        for n, x in S["components"].items():
            e.setdefault(n, set()).update(element(m["t"]) for m in x["members"] if own(m["t"], S))
    seen = {}

    def cyc(n):
        if seen.get(n) == 1:
            return True
        if seen.get(n) == 2 or n not in e:
            return False
        seen[n] = 1
        r = any(cyc(m) for m in e[n])
        seen[n] = 2
        return r
    return any(cyc(n) for n in e)


def check_layouts(c, rec):
    T = c["new"]
    js = evolve.judgements(c)
    ren = renames_of(js, c)
    with gen.scratch() as w:
        out, inc = generate(c, w)
        _, got = selection.parse(open(os.path.join(out, "src", "selection.xml"), encoding="utf-8").read())
        want = rules(c, js)
        assert sorted(got) == want, f"read rules: expected {want}, found {sorted(got)}"
        if circular(c):
            return
        comps = {n for S in [*c["olds"], T] for n in S["components"]}
        alive = set(T["datatypes"]) | set(ren)
        heads = sorted({bare(n) + ".h" for n in comps} | {bare(n) + "Data.h" for n in alive})
        k = c["order"] % len(heads)
        heads = heads[k:] + heads[:k]
        if (c["order"] // 7) % 2:
            heads.reverse()
        sub = "pkg/" if T["options"]["includeSubfolder"] else ""
        lines = [f'#include "{sub}{h}"' for h in heads]
        # the current version, also under the name of its version
        lines += layout_checks(T, None, alive)
        for n in T["components"]:
            lines.append(f"static_assert(std::is_same_v<::{selection.versioned(n, T['schema_version'])}, ::{n}>);")
        for n in alive:
            lines.append(f"static_assert(std::is_same_v<::{selection.versioned(n, T['schema_version'])}Data, ::{n}Data>);")
        for S in c["olds"]:
            lines += layout_checks(S, S["schema_version"], alive)
        src = os.path.join(w, "layout.cc")
        with open(src, "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + "\n")
        cxx.check_syntax(src, PLAIN + inc, w, "the code for the old versions, or its comparison with their definitions,")
    describe(c, js, rec)


MAIN = r"""
#define CHECK(x) do { if (!(x)) { std::cout << what << ": " << #x << " is wrong\n"; bad = 1; } } while (0)
static int bad = 0;
template <typename Coll, typename Data>
void check(const char* stored, const char* name, unsigned v, unsigned current) {
  const std::string what = std::string(stored) + " of version " + std::to_string(v);
  const auto& factory = podio::CollectionBufferFactory::instance();
  for (bool subset : {false, true}) {
    auto rb = factory.createBuffers(stored, v, subset);
    CHECK(rb.has_value());
    if (!rb) continue;
    Coll from;
    Coll owner;
    for (int i = 0; i < 3; ++i) {
      if (subset) { owner.create(); from.setSubsetCollection(); }
      else from.create();
    }
    owner.setID(7);
    if (subset) for (const auto& x : owner) from.push_back(x);
    from.setID(5);
    from.prepareForWrite();
    auto wb = from.getBuffers();
    CHECK(rb->type == std::string(name));
    CHECK(rb->schemaVersion == current);
    CHECK((rb->data != nullptr) == !subset);
    if (!subset) *static_cast<std::vector<Data>*>(rb->data) = *wb.template dataAsVector<Data>();
    CHECK(rb->references->size() == wb.references->size());
    for (size_t i = 0; i < wb.references->size() && i < rb->references->size(); ++i) {
      *(*rb->references)[i] = *(*wb.references)[i];
    }
    CHECK(subset || rb->vectorMembers->size() == wb.vectorMembers->size());
    auto& evo = podio::SchemaEvolution::instance();
    const void* const before[] = {rb->data, rb->references, rb->vectorMembers};
    auto eb = evo.evolveBuffers(std::move(*rb), v, stored);
    CHECK(eb.data == before[0] && eb.references == before[1] && eb.vectorMembers == before[2]);
    const auto make = eb.createCollection;
    auto coll = make(std::move(eb), subset);
    CHECK(coll != nullptr);
    if (!coll) continue;
    coll->prepareAfterRead();
    CHECK(coll->getTypeName() == std::string(name));
    CHECK(coll->isSubsetCollection() == subset);
    CHECK(dynamic_cast<Coll*>(coll.get()) != nullptr);
    CHECK(subset || coll->size() == 3);
  }
}
"""


def check_buffers(c, rec):
    T = c["new"]
    js = evolve.judgements(c)
    ren = renames_of(js, c)
    if circular(c):
        return
    with gen.scratch() as w:
        out, inc = generate(c, w)
        more = []
        srcs = [os.path.join(out, "src", f) for f in sorted(os.listdir(os.path.join(out, "src"))) if f.endswith(".cc")]
        if c["up"]:
            u = os.path.join(w, "u", "src")
            up = os.path.join(w, "ups.cc")
            more = [up]
            with open(up, "w", encoding="utf-8") as f:
                # without folders the headers of both models have the same name
                f.write(f'#include "{os.path.join(w, "u", "upm", "DatamodelDefinition.h")}"\n')
                f.write("".join(f'#include "{os.path.join(u, x)}"\n' for x in sorted(os.listdir(u)) if x.endswith(".cc")))
        lines = [f'#include "{s}"' for s in srcs] + [MAIN, "int main() {"]
        cur = T["schema_version"]
        for n in T["datatypes"]:
            for v in range(1, cur + 1):
                lines.append(f'  check<::{n}Collection, ::{n}Data>("{n}Collection", "{n}Collection", {v}, {cur});')
        for old, rs in ren.items():
            for v, n in rs:
                lines.append(f'  check<::{n}Collection, ::{n}Data>("{old}Collection", "{n}Collection", {v}, {cur});')
        lines.append("  const auto& factory = podio::CollectionBufferFactory::instance();")
        for n in T["datatypes"]:
            for v in (0, cur + 1):
                lines.append(f'  {{ const std::string what = "{n} of version {v}"; CHECK(!factory.createBuffers("{n}Collection", {v}, false).has_value()); }}')
        for n in {n for S in c["olds"] for n in S["datatypes"]} - set(T["datatypes"]) - set(ren):
            lines.append(f'  {{ const std::string what = "dropped {n}"; CHECK(!factory.createBuffers("{n}Collection", 1, false).has_value()); }}')
        lines.append("  return bad;\n}")
        src = os.path.join(w, "main.cc")
        with open(src, "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + "\n")
        cxx.build_and_run(src, FULL + inc + more, OBJS, w, "reading old versions")
    describe(c, js, rec)


def check_refused(c, rec):
    """differences that cannot be read back stop the generator, and only those"""
    (_, warn, err), = evolve.judgements(c)
    with gen.scratch() as w:
        args = evolve.write_case(c, w)
        out = os.path.join(w, "o")
        rc, text = gen.run(gen.write_model(c["new"], w), out, "pkg", *args)
        files = gen.tree(out) if os.path.isdir(out) else {}
        if warn or err:
            assert rc != 0, "differences that cannot be read back are accepted"
            assert "schema evolution incompatibilities" in text, f"not reported: {text[-1500:]}"
            assert not files, f"code has been generated nevertheless: {sorted(files)[:5]}"
            rec.nontrivial()
        else:
            assert rc == 0, f"the generator refuses differences that can be read back:\n{text[-1500:]}"
    rec.label("refused" if warn or err else "accepted")


if __name__ == "__main__":
    OBJS = FULL = PLAIN = None
    try:
        PLAIN = cxx.prepare(cxx.PLAIN, "plain")
        FULL = cxx.prepare()
        _, OBJS = cxx.library()
    except build.BuildError as e:
        MSG = str(e)

        def broken(*_):
            raise AssertionError("podio does not build: " + MSG)
        check_layouts = check_buffers = broken
    raise SystemExit(pp.main([pp.Prop("old_layouts_are_kept", cases(), check_layouts, (300, 8000)),
                              pp.Prop("old_versions_can_be_read", cases(), check_buffers, (16, 300), costly=True),
                              pp.Prop("unreadable_differences_are_refused", any_cases(), check_refused, (200, 6000))]))
