"""Generated data models: a structured form, its YAML form and the adapter form of lib/mgen.py."""
import ctypes
import re

import yaml
from hypothesis import strategies as st

BUILTIN = ["int", "long", "float", "double", "unsigned int", "unsigned", "unsigned long", "char", "short", "bool", "long long",
           "unsigned long long"]
FIXED = ["int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t"]
ALL_BUILTIN = BUILTIN + FIXED + ["std::" + x for x in FIXED]
KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const
consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit
export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private
protected public register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this
thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq
std podio main errno assert stdin stdout stderr linux unix""".split())
# names that generated classes use themselves
GENERATED = set("""id clone unlink size begin end create data empty clear isavailable getobjectid makeempty swap types object collection obj
value type typename mutable makeptr ids index push_back at front back resize hasid isvalid getid setid name names prepareforwrite m_obj
holds isa as getvalue static_registration meta from to weight o value_type""".split())

class CNames:
    """what the C library has in the global namespace"""

    def __init__(self):
        self.libs = []
        for lib in ("libc.so.6", "libm.so.6"):
            try:
                self.libs.append(ctypes.CDLL(lib))
            except OSError:
                pass

    def __contains__(self, n):
        return n in ("uint", "ushort", "ulong", "major", "minor", "makedev", "assert", "tm", "stat", "div") or any(hasattr(x, n) for x in self.libs)


C_NAMES = CNames()
ident_re = re.compile(r"[A-Za-z_]\w*\Z")


def word(minl=1, maxl=8, first="abcdefghijklmnopqrstuvwxyz"):
    rest = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_"
    return st.builds(lambda a, b: a + b, st.sampled_from(first), st.text(rest, min_size=max(0, minl - 1), max_size=maxl - 1))


def ok_member(n):
    return n.lower() not in KEYWORDS and n.lower() not in GENERATED and "__" not in n and not n.endswith("_") and ident_re.match(n)


member_name = word(1, 7, "abcdefghijklmnopqrstuvwxyzABC").filter(ok_member)
type_name = word(1, 7, "ABCDEFGHIJKLMNOPQRSTUVWXYZ").filter(lambda n: ok_member(n) and not re.search(r"(Data|Obj|Collection|Struct|SIOBlock)$", n) and not n.startswith("Mutable"))
ns_name = word(1, 4).filter(lambda n: ok_member(n) and not re.match(r"v\d", n) and n not in C_NAMES)
# one line, no control characters; printable text of any script
line = st.text(st.characters(exclude_categories=["Cc", "Cs", "Zl", "Zp", "Co", "Cn"]), max_size=20)
# what C++ comments can take
plain_line = st.text(st.sampled_from("abcXYZ019 .,;:+-*/()<>{}[]|&%$#@!?'\"=_~éß\\"), max_size=20).map(str.strip)
unit = st.one_of(st.just(None), st.just(None), st.sampled_from(["mm", "GeV", "ns", "rad", "m/s", "GeV/c^2", "mm^2", "kg*m", "_u"]))


def bare(t):
    return t.split("::")[-1]


def num_default(draw, t):
    t = t.replace("std::", "")
    if t == "bool":
        return draw(st.sampled_from(["true", "false"]))
    if t == "char":
        return draw(st.sampled_from(["'a'", "'Z'", "65"]))
    if t == "float":
        return draw(st.sampled_from(["1.5f", "-2.25f", "3", "0.5f"]))
    if t == "double":
        return draw(st.sampled_from(["1.5", "-3.25", "7", "1e3"]))
    if t.startswith("u"):
        return str(draw(st.integers(0, 200)))
    return str(draw(st.integers(-100, 100)))


def mtext(m, desc_required=True):
    """a member as written in YAML"""
    s = f"{m['t']} {m['n']}"
    if m.get("d"):
        s += "{" + m["d"] + "}"
    if m.get("u"):
        s += f" [{m['u']}]"
    if m.get("c") is not None or desc_required:
        s += f" // {m.get('c') or ''}"
    return s


def around(n):
    """a type's name and those of what is generated for it"""
    b = bare(n).lower()
    return {b, *(b + x for x in ("collection", "data", "obj", "collectiondata")), "mutable" + b, b + "mutablecollection"}


def untangle(S):
    """no type refers to an interface that leads back to it (a known finding: the headers would need each other)"""
    def reach(n, seen):
        if n not in seen:
            seen.add(n)
            for t in S["interfaces"][n]["types"] if n in S["interfaces"] else [m["t"] for m in S["datatypes"].get(n, {}).get("one", []) + S["datatypes"].get(n, {}).get("many", [])]:
                reach(t, seen)
        return seen
    for i in S["interfaces"]:
        for n in sorted(reach(i, set())):
            for k in ("one", "many"):
                if n in S["datatypes"]:
                    S["datatypes"][n][k] = [m for m in S["datatypes"][n][k] if m["t"] != i]


@st.composite
def models(draw, package="pkg", upstream=None, max_comp=3, max_type=4, max_if=2, max_link=2, min_type=1, desc=plain_line, extras=False, schema=st.integers(1, 9),
           subfolder=None, get=None, expose=None, same_get=False):
    used = {package.lower()}
    mnames = set()  # no member is called like a type

    def note(n):
        # the generated names that belong to a type are not those of another one
        if around(n) & used or around(n) & mnames:
            return False
        used.update(around(n))
        return True

    for u in [upstream] if upstream else []:
        for sect in ("components", "datatypes", "interfaces", "links"):
            for n in u[sect]:
                used.update(around(n))
    nss = draw(st.lists(ns_name, max_size=2, unique_by=str.lower))
    if upstream and draw(st.booleans()):
        nss += [n.split("::")[0] for n in upstream["datatypes"] if "::" in n][:1]
    nss = [n for n in nss if n.lower() != package.lower()]

    def tname():
        while True:
            n = draw(type_name)
            like = draw(st.sampled_from([(0, "")] * 12 + [(1, "Collection"), (1, "Data"), (1, "Obj"), (1, "Link"), (-1, "Mutable")]))
            k = 0
            full = n
            while True:
                full = n + like[1] if like[0] > 0 else like[1] + n
                if note(full):
                    break
                k += 1
                n = n.rstrip("0123456789") + str(k)
            n = full
            ns = draw(st.sampled_from([""] * 2 + nss))
            return f"{ns}::{n}" if ns else n

    opts = {
        "getSyntax": draw(st.booleans()) if get is None else get,
        "exposePODMembers": draw(st.booleans()) if expose is None else expose,
        "includeSubfolder": draw(st.sampled_from([True, True, False])) if subfolder is None else subfolder,
    }
    if upstream and same_get:
        opts["getSyntax"] = upstream["options"]["getSyntax"]
    S = {"package": package, "schema_version": draw(schema), "options": opts, "components": {}, "datatypes": {}, "interfaces": {}, "links": {}}
    comps = {}
    if upstream:
        comps.update(upstream["components"])

    def names(taken):
        def one():
            while True:
                n = draw(member_name)
                k = 0
                b = n
                while n.lower() in taken or n.lower() in used:
                    k += 1
                    n = b + str(k)
                taken.add(n.lower())
                mnames.add(n.lower())
                return n
        return one

    def member(n, allow_comp=True, array=True, dflt=True, is_desc=True):
        pool = draw(st.integers(0, 9))
        if allow_comp and comps and pool >= 6:
            t = draw(st.sampled_from(sorted(comps)))
        else:
            t = draw(st.sampled_from(ALL_BUILTIN))
        m = {"t": t, "n": n, "d": None, "u": draw(unit), "c": draw(desc) if is_desc else None}
        if array and draw(st.integers(0, 4)) == 0:
            k = draw(st.integers(1, 4))
            if dflt and t in ALL_BUILTIN and draw(st.integers(0, 2)) == 0:
                m["d"] = ", ".join(num_default(draw, t) for _ in range(draw(st.integers(1, k))))
            m["t"] = f"std::array<{t}, {k}>"
        elif dflt and t in ALL_BUILTIN and draw(st.integers(0, 2)) == 0:
            m["d"] = num_default(draw, t)
        return m

    for _ in range(draw(st.integers(0, max_comp))):
        cn = tname()
        one = names(set())
        ms = [member(one(), is_desc=draw(st.booleans())) for _ in range(draw(st.integers(1, 4)))]
        S["components"][cn] = {"members": ms}
        if draw(st.integers(0, 3)) == 0:
            S["components"][cn]["desc"] = draw(desc)
        comps[cn] = S["components"][cn]
        if extras and draw(st.integers(0, 3)) == 0:
            S["components"][cn]["extra"] = {"declaration": "  int extra1() const { return 42; }", "includes": "#include <vector>"}
    dnames = [tname() for _ in range(draw(st.integers(min_type, max_type)))]
    inames = [tname() for _ in range(draw(st.integers(0, max_if)))]
    up_types = sorted(upstream["datatypes"]) if upstream else []
    up_ifs = sorted(upstream["interfaces"]) if upstream else []
    # the members that interfaces ask for, and the datatypes behind them
    ifs = {}
    forced = {d: [] for d in dnames}
    taken = {d: set() for d in dnames}
    same = upstream and opts["getSyntax"] == upstream["options"]["getSyntax"]
    for i in inames:
        ts = draw(st.lists(st.sampled_from(dnames), min_size=1, max_size=3, unique=True)) if dnames else []
        uts = []
        if same and up_types and (not ts or draw(st.booleans())):
            uts = draw(st.lists(st.sampled_from(up_types), min_size=1, max_size=2, unique=True))
        if not ts and not uts:
            continue
        n0 = set()
        for d in ts:
            n0 |= taken[d]
        one = names(n0)
        ms = []
        if uts:
            # what all of the upstream types have
            common = [m for m in upstream["datatypes"][uts[0]]["members"] if all((m["t"], m["n"]) in [(x["t"], x["n"]) for x in upstream["datatypes"][u]["members"]] for u in uts)]
            got = [dict(m, d=None, c=draw(desc)) for m in common if m["n"].lower() not in n0 and draw(st.booleans())]
        else:
            got = [member(one(), dflt=False) for _ in range(draw(st.integers(0, 2)))]
        for m in got:
            ms.append(m)
            for d in ts:
                taken[d].add(m["n"].lower())
                forced[d].append(dict(m, c=draw(desc)))
        ts = draw(st.permutations(ts + uts)) if uts else ts
        ifs[i] = {"desc": draw(desc), "author": draw(desc), "types": ts, "members": ms}

    def subnames(t):
        return [m["n"].lower() for m in comps[t]["members"]] if t in comps else []

    for d in dnames:
        one = names(taken[d])
        ms = list(forced[d])
        # exposed members of components share the names of the type
        def fits(m):
            if not opts["exposePODMembers"]:
                return True
            sub = subnames(m["t"])
            if any(s in taken[d] for s in sub):
                return False
            taken[d].update(sub)
            return True
        ms2 = []
        for m in ms:
            if fits(m):
                ms2.append(m)
            else:
                for x in ifs.values():
                    x["members"] = [y for y in x["members"] if y["n"] != m["n"]]
                # (and nobody else keeps a dangling interface member: extra members do no harm)
        for _ in range(draw(st.integers(0, 4))):
            m = member(one())
            if fits(m):
                ms2.append(m)
        if draw(st.booleans()):
            ms2 = draw(st.permutations(ms2))
        # relations: an interface cannot be used by the types behind it
        rels = dnames + up_types + up_ifs + [i for i in ifs if d not in ifs[i]["types"]]
        rel = lambda: {"t": draw(st.sampled_from(rels)), "n": one(), "d": None, "u": None, "c": draw(desc)}  # noqa: E731
        S["datatypes"][d] = {
            "desc": draw(desc), "author": draw(desc), "members": list(ms2),
            "vec": [member(one(), array=False, dflt=False) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))],
            "one": [rel() for _ in range(draw(st.sampled_from([0, 0, 1, 2])))],
            "many": [rel() for _ in range(draw(st.sampled_from([0, 0, 1, 2])))],
        }
        if extras and draw(st.integers(0, 3)) == 0:
            S["datatypes"][d]["extra"] = {"includes": "#include <cmath>", "declaration": "  double exf() const;\n  static int exg() { return 7; }", "implementation": "double {name}::exf() const { return 1.5; }"}
        if extras and draw(st.integers(0, 3)) == 0:
            S["datatypes"][d]["mutextra"] = {"declaration": "  void exm();", "implementation": "void {name}::exm() {}"}
    S["interfaces"] = ifs
    untangle(S)
    ends = dnames + list(ifs) + up_types + up_ifs
    for _ in range(draw(st.integers(0, max_link)) if ends else 0):
        S["links"][tname()] = {"desc": draw(desc), "author": draw(desc), "from": draw(st.sampled_from(ends)), "to": draw(st.sampled_from(ends))}
    return S


def yaml_dict(S):
    r = {"schema_version": S["schema_version"], "options": dict(S["options"])}
    if S["components"]:
        r["components"] = {}
        for n, c in S["components"].items():
            r["components"][n] = {"Members": [mtext(m, False) for m in c["members"]]}
            if "desc" in c:
                r["components"][n]["Description"] = c["desc"]
            if "extra" in c:
                r["components"][n]["ExtraCode"] = dict(c["extra"])
    if S["datatypes"]:
        r["datatypes"] = {}
        for n, d in S["datatypes"].items():
            x = {"Description": d["desc"], "Author": d["author"]}
            for k, s in (("members", "Members"), ("vec", "VectorMembers"), ("one", "OneToOneRelations"), ("many", "OneToManyRelations")):
                if d.get(k):
                    x[s] = [mtext(m) for m in d[k]]
            if "extra" in d:
                x["ExtraCode"] = dict(d["extra"])
            if "mutextra" in d:
                x["MutableExtraCode"] = dict(d["mutextra"])
            r["datatypes"][n] = x
    if S["interfaces"]:
        r["interfaces"] = {n: {"Description": d["desc"], "Author": d["author"], "Types": list(d["types"]), "Members": [mtext(m) for m in d["members"]]}
                           for n, d in S["interfaces"].items()}
    if S["links"]:
        r["links"] = {n: {"Description": d["desc"], "Author": d["author"], "From": d["from"], "To": d["to"]} for n, d in S["links"].items()}
    return r


def yaml_text(S):
    return yaml.safe_dump(yaml_dict(S), sort_keys=False, allow_unicode=True, width=10000)


def norm_type(t):
    """a type as the generator spells it"""
    m = re.match(r"std::array<\s*(.+?)\s*,\s*(\d+)\s*>$", t)
    if m:
        return f"std::array<{norm_type(m.group(1))}, {m.group(2)}>"
    return "std::" + t if t in FIXED else t


def to_mgen(S, upstream=None):
    import mgen
    mm = lambda m: (m["t"], m["n"]) + ((m["d"],) if m.get("d") else ())  # noqa: E731
    d = {"package": S["package"], "schema_version": S["schema_version"], "options": dict(S["options"]),
         "components": {n: [mm(m) for m in c["members"]] for n, c in S["components"].items()},
         "datatypes": {n: {k: [mm(m) for m in x.get(k, [])] for k in ("members", "vec", "one", "many")} for n, x in S["datatypes"].items()},
         "interfaces": {n: {"types": list(x["types"]), "members": [mm(m) for m in x["members"]]} for n, x in S["interfaces"].items()},
         "links": {n: {"From": x["from"], "To": x["to"]} for n, x in S["links"].items()}}
    m = mgen.Model(d, upstream=upstream)
    text = yaml_text(S)
    m.yaml = lambda: text
    return m
