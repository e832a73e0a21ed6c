"""Structured data models: YAML text and C++ adapters, independent of podio's own parser.

A model is a dict:
  package, schema_version, options{getSyntax,exposePODMembers,includeSubfolder}
  components {name: [Member]}           Member = (type, name) or (type, name, default)
  datatypes  {name: {members, vec, one, many, extra?}}   vec/one/many = [(type, name)]
  interfaces {name: {types: [..], members: [(type,name)]}}
  links      {name: {From, To}}
Array types are written std::array<T, N>.
"""
import re
import struct

KINDS = {
    "bool": "Bool", "char": "Char", "short": "I16", "int": "I32", "long": "I64", "long long": "I64",
    "unsigned int": "U32", "unsigned": "U32", "unsigned long": "U64", "unsigned long long": "U64",
    "float": "F32", "double": "F64",
}
for _w in (16, 32, 64):
    for _p in ("", "std::"):
        KINDS[f"{_p}int{_w}_t"] = f"I{_w}"
        KINDS[f"{_p}uint{_w}_t"] = f"U{_w}"
BUILTINS = list(KINDS)
ARR = re.compile(r"std::array<\s*(.+?)\s*,\s*(\d+)\s*>$")


def cap(s):
    return s[0].upper() + s[1:]


def is_builtin(t):
    return t in KINDS


def cpp_type(t):
    m = ARR.match(t)
    if m:
        return f"std::array<{cpp_type(m.group(1))}, {m.group(2)}>"
    if re.match(r"u?int(16|32|64)_t$", t):
        return "std::" + t
    return t if t in KINDS or t.startswith("std::") else scoped(t)


WIDTH = {"Bool": 1, "Char": 1, "I16": 2, "U16": 2, "I32": 4, "U32": 4, "F32": 4, "I64": 8, "U64": 8, "F64": 8}


def default_bits(kind, text):
    """bit pattern of a default value as written in the model"""
    if text is None or text.strip() == "":
        return 0
    text = text.strip()
    if kind in ("F32", "F64"):
        f, i = ("<f", "<I") if kind == "F32" else ("<d", "<Q")
        return struct.unpack(i, struct.pack(f, float(text.rstrip("f"))))[0]
    if text in ("true", "false"):
        v = int(text == "true")
    elif text.startswith("'"):
        v = ord(text[1])
    else:
        v = int(text.rstrip("uUlL"), 0)
    return v & ((1 << (8 * WIDTH[kind])) - 1)


def bare(t):
    return t.split("::")[-1]


def ns(t):
    return t.split("::")[0] if "::" in t else ""


def scoped(t):
    """Reference to a model type from the global namespace"""
    return "::" + t


class Model:
    def __init__(self, d, upstream=None):
        self.d = d
        self.upstream = upstream
        self.package = d["package"]
        self.opts = dict(getSyntax=False, exposePODMembers=True, includeSubfolder=True)
        self.opts.update(d.get("options", {}))
        self.components = d.get("components", {})
        self.datatypes = d.get("datatypes", {})
        self.interfaces = d.get("interfaces", {})
        self.links = d.get("links", {})
        self.schema_version = d.get("schema_version", 1)

    def all_components(self):
        r = dict(self.upstream.all_components()) if self.upstream else {}
        r.update(self.components)
        return r

    def all_datatypes(self):
        r = dict(self.upstream.all_datatypes()) if self.upstream else {}
        r.update(self.datatypes)
        return r

    def all_interfaces(self):
        r = dict(self.upstream.all_interfaces()) if self.upstream else {}
        r.update(self.interfaces)
        return r

    # ---------------------------------------------------------------- YAML
    def yaml(self):
        o = ["---", f"schema_version: {self.schema_version}", "options:"]
        for k, v in self.opts.items():
            o.append(f"  {k}: {v}")

        def member(m):
            t, n = m[0], m[1]
            dflt = "{" + m[2] + "}" if len(m) > 2 and m[2] is not None else ""
            doc = m[3] if len(m) > 3 else f"the {n}"
            return f'"{t} {n}{dflt} // {doc}"' if dflt or ":" in t or "," in t else f"{t} {n} // {doc}"

        def extra(d, key, ind):
            if key in d:
                o.append(f"{ind}{key}:")
                for k, v in d[key].items():
                    o.append(f"{ind}  {k}: |")
                    for line in v.split("\n"):
                        o.append(f"{ind}    {line}")

        if self.components:
            o += ["", "components:"]
            for n, ms in self.components.items():
                o.append(f"  {n}:")
                o.append("    Members:")
                for m in ms:
                    o.append(f"      - {member(m)}")
                if n in self.d.get("component_extra", {}):
                    extra(self.d["component_extra"][n], "ExtraCode", "    ")
        if self.datatypes:
            o += ["", "datatypes:"]
            for n, d in self.datatypes.items():
                o.append(f"  {n}:")
                o.append(f"    Description: \"{d.get('description', 'type ' + bare(n))}\"")
                o.append(f"    Author: \"{d.get('author', 'verif')}\"")
                for key, sect in (("members", "Members"), ("vec", "VectorMembers"),
                                  ("one", "OneToOneRelations"), ("many", "OneToManyRelations")):
                    if d.get(key):
                        o.append(f"    {sect}:")
                        for m in d[key]:
                            o.append(f"      - {member(m)}")
                extra(d, "ExtraCode", "    ")
                extra(d, "MutableExtraCode", "    ")
        if self.interfaces:
            o += ["", "interfaces:"]
            for n, d in self.interfaces.items():
                o.append(f"  {n}:")
                o.append(f"    Description: \"interface {bare(n)}\"")
                o.append("    Author: \"verif\"")
                o.append("    Members:")
                for m in d["members"]:
                    o.append(f"      - {member(m)}")
                o.append("    Types:")
                for t in d["types"]:
                    o.append(f"      - {t}")
        if self.links:
            o += ["", "links:"]
            for n, d in self.links.items():
                o.append(f"  {n}:")
                o.append(f"    Description: \"link {bare(n)}\"")
                o.append("    Author: \"verif\"")
                o.append(f"    From: {d['From']}")
                o.append(f"    To: {d['To']}")
        return "\n".join(o) + "\n"

    # ---------------------------------------------------------------- accessors
    def leaves_of(self, t):
        """[(suffix expression, kind, cpp type)] of a member type"""
        return [x[:3] for x in self.leaves_def(t)]

    def leaves_def(self, t, default=None):
        """[(suffix expression, kind, cpp type, bits of the default value)] of a member with this default"""
        m = ARR.match(t)
        if m:
            r = []
            vals = [v.strip() for v in default.split(",")] if default else []
            for i in range(int(m.group(2))):
                v = vals[i] if i < len(vals) else None
                r += [(f"[{i}]" + s, k, ct, d) for s, k, ct, d in self.leaves_def(m.group(1), v)]
            return r
        if is_builtin(t):
            return [("", KINDS[t], cpp_type(t), default_bits(KINDS[t], default))]
        r = []
        for mem in self.all_components()[t]:
            r += [(f".{mem[1]}" + s, k, ct, d) for s, k, ct, d in self.leaves_def(mem[0], mem[2] if len(mem) > 2 else None)]
        return r

    def getter(self, n):
        return "get" + cap(n) if self.opts["getSyntax"] else n

    def setter(self, n):
        return "set" + cap(n) if self.opts["getSyntax"] else n

    def adder(self, n):
        return "addTo" + cap(n) if self.opts["getSyntax"] else "add" + n

    def targets(self, t):
        """concrete types of a relation target"""
        ifs = self.all_interfaces()
        return list(ifs[t]["types"]) if t in ifs else [t]

    # -------------------------------------------------------------- C++ adapter
    def type_order(self):
        """all types in index order: datatypes (upstream first), then links (as '@name')"""
        r = list(self.upstream.type_order()) if self.upstream else []
        return r + list(self.datatypes) + ["@" + l for l in self.links]

    def include(self, t, suffix=""):
        owner = self
        while owner and t not in owner.components and t not in owner.datatypes \
                and t not in owner.interfaces and t not in owner.links:
            owner = owner.upstream
        inc = f"{owner.package}/" if owner.opts["includeSubfolder"] else ""
        return f'#include "{inc}{bare(t)}{suffix}.h"'

    def adapter_datatype(self, name):
        """C++ source defining the erased operations of one datatype"""
        d = self.datatypes[name]
        idx = {t: i for i, t in enumerate(self.type_order())}
        X, M, C = scoped(name), scoped((ns(name) + "::" if ns(name) else "") + "Mutable" + bare(name)), \
            scoped(name) + "Collection"
        o = ['#include "erased_impl.h"', self.include(name), self.include(name, "Collection"), self.include(name, "Data")]
        seen = set()
        for t, _n in [m[:2] for m in d.get("one", []) + d.get("many", [])]:
            if t in self.all_interfaces() and t not in seen:
                o.append(self.include(t))
            for tt in self.targets(t):
                if tt not in seen:
                    seen.add(tt)
                    o.append(self.include(tt))
                    o.append(self.include(tt, "Collection"))
        o.append("namespace er {")
        o.append(f"struct Ops{idx[name]} final : OpsBase<Ops{idx[name]}, {X}, {M}, {C}> {{")
        # leaves
        dflts = []
        leaves = []  # (member idx, path, kind, ctype, getters, setters, colget)
        for mi, m in enumerate(d.get("members", [])):
            t, n = m[0], m[1]
            base = f"o.{self.getter(n)}()"
            subs = self.leaves_def(t, m[2] if len(m) > 2 else None)
            am = ARR.match(t)
            for s, k, ct, dflt in subs:
                gets = [base + s]
                sets = []
                if is_builtin(t):
                    sets.append(f"o.{self.setter(n)}(v);")
                else:
                    sets.append(f"auto t = o.{self.getter(n)}(); t{s} = v; o.{self.setter(n)}(t);")
                sets.append(f"o.{self.getter(n)}(){s} = v;")
                if am:
                    mm = re.match(r"\[(\d+)\](.*)$", s)
                    gets.append(f"o.{self.getter(n)}({mm.group(1)}){mm.group(2)}")
                    if mm.group(2) == "":
                        sets.append(f"o.{self.setter(n)}({mm.group(1)}, v);")
                    else:
                        sets.append(f"auto t = o.{self.getter(n)}({mm.group(1)}); t{mm.group(2)} = v; "
                                    f"o.{self.setter(n)}({mm.group(1)}, t);")
                if not am and not is_builtin(t) and self.opts["exposePODMembers"]:
                    mm = re.match(r"\.(\w+)(.*)$", s)
                    sub = mm.group(1)
                    subt = [x[0] for x in self.all_components()[t] if x[1] == sub][0]
                    gets.append(f"o.{self.getter(sub)}(){mm.group(2)}")
                    if is_builtin(subt):
                        sets.append(f"o.{self.setter(sub)}(v);")
                    else:
                        sets.append(f"auto t = static_cast<const {M}&>(o).{self.getter(sub)}(); t{mm.group(2)} = v; o.{self.setter(sub)}(t);")
                        sets.append(f"o.{sub}(){mm.group(2)} = v;")
                leaves.append((mi, n, n + s, k, ct, gets, sets, s))
                dflts.append(dflt)
        vecs = [(m[0], m[1], self.leaves_of(m[0])) for m in d.get("vec", [])]
        ones = [(m[0], m[1]) for m in d.get("one", [])]
        manys = [(m[0], m[1]) for m in d.get("many", [])]
        o.append(f"  Ops{idx[name]}() {{")
        o.append(f"    index = {idx[name]}; name = \"{name}\"; package = \"{self.package}\"; isLink = false;")
        for (mi, n, p, k, ct, g, s, _), df in zip(leaves, dflts):
            o.append(f'    leaves.push_back({{"{p}", LK::{k}, {mi}, {len(g)}, {len(s)}, {df}ULL}});')
        o.append(f"    nMembers = {len(d.get('members', []))};")
        for m in d.get("members", []):
            o.append(f'    memberNames.push_back("{m[1]}");')
        for t, n, ls in vecs:
            ll = ", ".join(f'{{"{s}", LK::{k}, 0, 1, 1, 0}}' for s, k, _ in ls)
            o.append(f'    vecs.push_back({{"{n}", {{{ll}}}}});')
        for lst, tgt in ((ones, "ones"), (manys, "manys")):
            for t, n in lst:
                tt = ", ".join(str(idx[x]) for x in self.targets(t))
                o.append(f'    {tgt}.push_back({{"{n}", "{t}", {"true" if t in self.all_interfaces() else "false"}, {{{tt}}}}});')
        o.append("  }")
        # leaf get
        o.append("  template <typename O> static u64 lget(const O& o, int leaf, int var) {")
        o.append("    (void)o; (void)var; switch (leaf) {")
        for i, (mi, n, p, k, ct, g, s, _) in enumerate(leaves):
            o.append(f"    case {i}: switch (var % {len(g)}) {{")
            for j, e in enumerate(g):
                o.append(f"      case {j}: return toBits<{ct}>({e});")
            o.append("    } break;")
        o.append("    } bad(); }")
        o.append(f"  static void lset({M}& o, int leaf, int var, u64 bits) {{")
        o.append("    (void)o; (void)var; (void)bits; switch (leaf) {")
        for i, (mi, n, p, k, ct, g, s, _) in enumerate(leaves):
            o.append(f"    case {i}: {{ const {ct} v = fromBits<{ct}>(bits); switch (var % {len(s)}) {{")
            for j, e in enumerate(s):
                o.append(f"      case {j}: {{ {e} return; }}")
            o.append("    } break; }")
        o.append("    } bad(); }")
        # construct with all members
        o.append("  template <typename T> static T make(const std::vector<u64>& b) { (void)b;")
        args = []
        if d.get("members"):
            for mi, m in enumerate(d["members"]):
                o.append(f"    {self.arg_type(m[0])} a{mi}{{}};")
                args.append(f"a{mi}")
            for i, (mi, n, p, k, ct, g, s, suf) in enumerate(leaves):
                o.append(f"    a{mi}{suf} = fromBits<{ct}>(b[{i}]);")
        o.append(f"    return T({', '.join(args)}); }}")
        o.append(f"  static {M} createArgs({C}& c, const std::vector<u64>& b) {{ (void)b;")
        if d.get("members"):
            for mi, m in enumerate(d["members"]):
                o.append(f"    {self.arg_type(m[0])} a{mi}{{}};")
            for i, (mi, n, p, k, ct, g, s, suf) in enumerate(leaves):
                o.append(f"    a{mi}{suf} = fromBits<{ct}>(b[{i}]);")
        o.append(f"    return c.create({', '.join(args)}); }}")
        # vectorised getters
        o.append(f"  static std::vector<u64> colGet(const {C}& c, int leaf, size_t n) {{ (void)c; (void)n; std::vector<u64> r;")
        o.append("    switch (leaf) {")
        for i, (mi, n, p, k, ct, g, s, suf) in enumerate(leaves):
            o.append(f"    case {i}: {{ const auto vals = c.{n}(n); for (size_t i = 0; i < vals.size(); ++i) {{ const auto& e = vals[i]; r.push_back(toBits<{ct}>(e{suf})); }} return r; }}")
        o.append("    } bad(); }")
        # vectors
        o.append("  template <typename O> static size_t vsize(const O& o, int v) { (void)o; switch (v) {")
        for i, (t, n, ls) in enumerate(vecs):
            o.append(f"    case {i}: return o.{n}_size();")
        o.append("    } bad(); }")
        o.append("  template <typename O> static std::vector<u64> vget(const O& o, int v, size_t k, int var) { (void)o;(void)k;(void)var; std::vector<u64> r; switch (v) {")
        for i, (t, n, ls) in enumerate(vecs):
            o.append(f"    case {i}: {{ const {cpp_type(t)} e = var % 4 == 0 ? o.{self.getter(n)}(k) : var % 4 == 1 ? *(o.{n}_begin() + k) : var % 4 == 2 ? o.{self.getter(n)}()[k] : *(o.{n}_end() - (o.{n}_size() - k));")
            for s, k2, ct in ls:
                o.append(f"      r.push_back(toBits<{ct}>(e{s}));")
            o.append("      return r; }")
        o.append("    } bad(); }")
        o.append("  template <typename O> static size_t vrange(const O& o, int v) { (void)o; switch (v) {")
        for i, (t, n, ls) in enumerate(vecs):
            o.append(f"    case {i}: return rangeLen(o.{self.getter(n)}(), o.{n}_begin(), o.{n}_end());")
        o.append("    } bad(); }")
        o.append(f"  static void vadd({M}& o, int v, const std::vector<u64>& b) {{ (void)o;(void)b; switch (v) {{")
        for i, (t, n, ls) in enumerate(vecs):
            o.append(f"    case {i}: {{ {cpp_type(t)} e{{}};")
            for j, (s, k2, ct) in enumerate(ls):
                o.append(f"      e{s} = fromBits<{ct}>(b[{j}]);")
            o.append(f"      o.{self.adder(n)}(e); return; }}")
        o.append("    } bad(); }")
        # one
        o.append("  template <typename O> static Handle oget(const O& o, int r) { (void)o; switch (r) {")
        for i, (t, n) in enumerate(ones):
            o.append(f"    case {i}: return {self.wrap(t, f'o.{self.getter(n)}()', idx)};")
        o.append("    } bad(); }")
        o.append(f"  static void oset({M}& o, int r, const Handle& h) {{ (void)o;(void)h; switch (r) {{")
        for i, (t, n) in enumerate(ones):
            o.append(f"    case {i}: {self.unwrap(t, lambda e: f'o.{self.setter(n)}({e})', idx)} break;")
        o.append("    } bad(); }")
        # many
        o.append("  template <typename O> static size_t msize(const O& o, int r) { (void)o; switch (r) {")
        for i, (t, n) in enumerate(manys):
            o.append(f"    case {i}: return o.{n}_size();")
        o.append("    } bad(); }")
        o.append("  template <typename O> static size_t mrange(const O& o, int v) { (void)o; switch (v) {")
        for i, (t, n) in enumerate(manys):
            o.append(f"    case {i}: return rangeLen(o.{self.getter(n)}(), o.{n}_begin(), o.{n}_end());")
        o.append("    } bad(); }")
        o.append("  template <typename O> static Handle mget(const O& o, int r, size_t k, int var) { (void)o;(void)k;(void)var; switch (r) {")
        for i, (t, n) in enumerate(manys):
            w = lambda e: self.wrap(t, e, idx)
            g = self.getter(n)
            o.append(f"    case {i}: switch (var % 4) {{ case 0: return {w(f'o.{g}(k)')}; case 1: return {w(f'*(o.{n}_begin() + k)')};"
                     f" case 2: return {w(f'o.{g}()[k]')}; default: return {w(f'*(o.{n}_end() - (o.{n}_size() - k))')}; }}")
        o.append("    } bad(); }")
        o.append(f"  static void madd({M}& o, int r, const Handle& h) {{ (void)o;(void)h; switch (r) {{")
        for i, (t, n) in enumerate(manys):
            o.append(f"    case {i}: {self.unwrap(t, lambda e: f'o.{self.adder(n)}({e})', idx)} break;")
        o.append("    } bad(); }")
        o.append(f"  using DataT = {X}Data;")
        o.append("  static void copyVecs(podio::VectorMembersInfo& f, podio::VectorMembersInfo& t, bool indirect) { (void)f; (void)t; (void)indirect;")
        for i, (t, n, ls) in enumerate(vecs):
            v = f"std::vector<{cpp_type(t)}>"
            o.append(f"    if (f[{i}].first != t[{i}].first) throw std::runtime_error(\"buffers disagree on the type of vector member {n}\");")
            o.append(f"    *static_cast<{v}*>(t[{i}].second) = indirect ? **static_cast<{v}**>(f[{i}].second) : *static_cast<{v}*>(f[{i}].second);")
        o.append("  }")
        o.append("  static void relRanges(std::ostream& o, const DataT& d) { (void)o; (void)d;")
        for n in [n for _, n, _ in vecs] + [n for _, n in manys]:
            o.append(f'    o << " {n}:" << d.{n}_begin << "-" << d.{n}_end;')
        o.append("  }")
        o.append("  static void vecSizes(std::ostream& o, podio::VectorMembersInfo& f) { (void)o; (void)f;")
        for i, (t, n, ls) in enumerate(vecs):
            o.append(f'    o << f[{i}].first << ":" << (*static_cast<std::vector<{cpp_type(t)}>**>(f[{i}].second))->size() << " ";')
        o.append("  }")
        o.append("  template <typename O> static void oob(const O& o, int what, int r, size_t k) { (void)o;(void)k; switch (what * 1000 + r) {")
        for i, (t, n, ls) in enumerate(vecs):
            o.append(f"    case {i}: (void)o.{self.getter(n)}(k); return;")
            o.append(f"    case {2000 + i}: (void)o.{self.getter(n)}().at(k); return;")
        for i, (t, n) in enumerate(manys):
            o.append(f"    case {1000 + i}: (void)o.{self.getter(n)}(k); return;")
            o.append(f"    case {3000 + i}: (void)o.{self.getter(n)}().at(k); return;")
        o.append("    } bad(); }")
        o.append("};")
        o.append(f"std::unique_ptr<TypeOps> makeOps{idx[name]}() {{ return std::make_unique<Ops{idx[name]}>(); }}")
        o.append("}")
        return "\n".join(o) + "\n"

    def arg_type(self, t):
        return cpp_type(t)

    def wrap(self, t, expr, idx):
        ifs = self.all_interfaces()
        if t in ifs:
            r = f"([&]() -> Handle {{ const auto e = {expr}; "
            for tt in ifs[t]["types"]:
                r += f"if (e.template isA<{scoped(tt)}>()) return Handle::make<{scoped(tt)}>({idx[tt]}, false, e.template as<{scoped(tt)}>()); "
            return r + "bad(); }())"
        return f"Handle::make<{scoped(t)}>({idx[t]}, false, {expr})"

    def unwrap(self, t, call, idx):
        r = "switch (h.type()) {"
        for tt in self.targets(t):
            M = scoped((ns(tt) + "::" if ns(tt) else "") + "Mutable" + bare(tt))
            r += f" case {idx[tt]}: if (h.mut()) {{ {call(f'h.as<{M}>()')}; }} else {{ {call(f'h.as<{scoped(tt)}>()')}; }} return;"
        return r + " }"

    def adapter_link(self, name):
        l = self.links[name]
        idx = {t: i for i, t in enumerate(self.type_order())}
        k = idx["@" + name]
        C = scoped(name) + "Collection"
        o = ['#include "erased_impl.h"', '#include "podio/detail/Link.h"', self.include(name, "Collection")]
        for t in (l["From"], l["To"]):
            o.append(self.include(t))
            for tt in self.targets(t):
                o.append(self.include(tt))
                o.append(self.include(tt, "Collection"))
        o.append("namespace er {")
        X, M = f"typename {C}::value_type", f"typename {C}::mutable_type"
        o.append(f"using LX{k} = {C}::value_type; using LM{k} = {C}::mutable_type;")
        o.append(f"struct Ops{k} final : OpsBase<Ops{k}, LX{k}, LM{k}, {C}> {{")
        o.append(f"  Ops{k}() {{")
        o.append(f"    index = {k}; name = \"{name}\"; package = \"{self.package}\"; isLink = true; nMembers = 1; memberNames.push_back(\"weight\");")
        o.append('    leaves.push_back({"weight", LK::F32, 0, 1, 1, 0x3f800000});')
        for side in ("From", "To"):
            t = l[side]
            tt = ", ".join(str(idx[x]) for x in self.targets(t))
            o.append(f'    ones.push_back({{"{side.lower()}", "{t}", {"true" if t in self.all_interfaces() else "false"}, {{{tt}}}}});')
        o.append("  }")
        o.append("  template <typename O> static u64 lget(const O& o, int, int) { return toBits<float>(o.getWeight()); }")
        o.append(f"  static void lset(LM{k}& o, int, int, u64 b) {{ o.setWeight(fromBits<float>(b)); }}")
        o.append("  template <typename T> static T make(const std::vector<u64>& b) { return T(fromBits<float>(b[0])); }")
        o.append(f"  static LM{k} createArgs({C}& c, const std::vector<u64>& b) {{ auto l = c.create(); l.setWeight(fromBits<float>(b[0])); return l; }}")
        o.append(f"  static std::vector<u64> colGet(const {C}& c, int, size_t n) {{ std::vector<u64> r; for (size_t i = 0; i < (n ? std::min(n, c.size()) : c.size()); ++i) r.push_back(toBits<float>(c[i].getWeight())); return r; }}")
        o.append("  template <typename O> static size_t vsize(const O&, int) { bad(); }")
        o.append("  template <typename O> static std::vector<u64> vget(const O&, int, size_t, int) { bad(); }")
        o.append("  template <typename O> static size_t vrange(const O&, int) { bad(); }")
        o.append(f"  static void vadd(LM{k}&, int, const std::vector<u64>&) {{ bad(); }}")
        o.append("  template <typename O> static Handle oget(const O& o, int r) { switch (r) {")
        for i, side in enumerate(("From", "To")):
            o.append(f"    case {i}: return {self.wrap(l[side], f'o.get{side}()', idx)};")
        o.append("    } bad(); }")
        o.append(f"  static void oset(LM{k}& o, int r, const Handle& h) {{ switch (r) {{")
        for i, side in enumerate(("From", "To")):
            o.append(f"    case {i}: {self.unwrap(l[side], lambda e: f'o.set{side}({e})', idx)} break;")
        o.append("    } bad(); }")
        o.append("  template <typename O> static size_t msize(const O&, int) { bad(); }")
        o.append("  template <typename O> static size_t mrange(const O&, int) { bad(); }")
        o.append("  template <typename O> static Handle mget(const O&, int, size_t, int) { bad(); }")
        o.append(f"  static void madd(LM{k}&, int, const Handle&) {{ bad(); }}")
        o.append("  using DataT = podio::LinkData;")
        o.append("  static void copyVecs(podio::VectorMembersInfo&, podio::VectorMembersInfo&, bool) {}")
        o.append("  static void relRanges(std::ostream&, const DataT&) {}")
        o.append("  static void vecSizes(std::ostream&, podio::VectorMembersInfo&) {}")
        o.append("  template <typename O> static void oob(const O&, int, int, size_t) { bad(); }")
        o.append("};")
        o.append(f"std::unique_ptr<TypeOps> makeOps{k}() {{ return std::make_unique<Ops{k}>(); }}")
        o.append("}")
        return "\n".join(o) + "\n"

    def adapter_registry(self):
        """one translation unit that lists all types of this model (and upstream ones)"""
        n = len(self.type_order())
        o = ['#include "erased.h"', "namespace er {"]
        for i in range(n):
            o.append(f"std::unique_ptr<TypeOps> makeOps{i}();")
        o.append("const std::vector<std::unique_ptr<TypeOps>>& types() { static const auto v = [] { std::vector<std::unique_ptr<TypeOps>> r;")
        for i in range(n):
            o.append(f"  r.push_back(makeOps{i}());")
        o.append("  return r; }(); return v; }")
        o.append("}")
        return "\n".join(o) + "\n"

    def adapters(self):
        """{filename: source}"""
        r = {}
        idx = {t: i for i, t in enumerate(self.type_order())}
        for n in self.datatypes:
            r[f"ops_{idx[n]}_{bare(n)}.cc"] = self.adapter_datatype(n)
        for n in self.links:
            r[f"ops_{idx['@' + n]}_{bare(n)}.cc"] = self.adapter_link(n)
        return r


# --------------------------------------------------------------------- fixed verification model
def vm_model(**options):
    return Model({
        "package": "vm",
        "schema_version": 3,
        "options": options,
        "components": {
            "Vec3": [("float", "x"), ("float", "y"), ("float", "z")],
            "ns::Pt": [("int", "a"), ("double", "b")],
            "Nested": [("ns::Pt", "pt"), ("std::array<int, 2>", "na"), ("std::array<ns::Pt, 2>", "pts"), ("bool", "flag")],
            "Init": [("int", "i1", "42"), ("std::array<double, 2>", "d2", "1.5, 3.25"), ("int16_t", "s1", "-7")],
        },
        "datatypes": {
            "Scalars": {"members": [
                ("bool", "vb"), ("char", "vc"), ("short", "vs"), ("int", "vi"), ("long", "vl"), ("long long", "vll"),
                ("unsigned int", "vui"), ("unsigned", "vu"), ("unsigned long", "vul"), ("unsigned long long", "vull"),
                ("float", "vf"), ("double", "vd"), ("int16_t", "vi16"), ("std::int32_t", "vi32"), ("int64_t", "vi64"),
                ("std::uint16_t", "vu16"), ("uint32_t", "vu32"), ("std::uint64_t", "vu64")]},
            "Hit": {"members": [("unsigned long long", "cellID"), ("Vec3", "pos"), ("double", "energy", "2.5")]},
            "Track": {
                "members": [("std::array<float, 3>", "cov"), ("std::array<Vec3, 2>", "refs"), ("Nested", "nst"), ("Init", "ini")],
                "vec": [("double", "dedx"), ("Nested", "states"), ("int", "codes")],
                "many": [("Hit", "hits"), ("Track", "prev")],
            },
            "Part": {
                "members": [("double", "energy"), ("int", "pdg", "-11")],
                "one": [("ns::Vertex", "vertex"), ("Part", "partner")],
                "many": [("Part", "parents"), ("Part", "daughters")],
            },
            "ns::Vertex": {
                "members": [("ns::Pt", "loc"), ("std::uint16_t", "tag")],
                "one": [("Part", "assoc")],
                "many": [("Part", "outgoing")],
                "vec": [("std::uint64_t", "words")],
            },
            "Clu": {
                "members": [("double", "energy"), ("int16_t", "kind", "3")],
                "one": [("EnergyIf", "best"), ("Track", "track")],
                "many": [("EnergyIf", "parts"), ("ns::Vertex", "vtxs")],
                "vec": [("ns::Pt", "shape")],
            },
            "ns::Cal": {"members": [("double", "energy"), ("bool", "good")], "many": [("Hit", "cells")], "vec": [("float", "amps")]},
            "ns::Bare": {"one": [("Hit", "only")]},
        },
        "interfaces": {
            "EnergyIf": {"types": ["Hit", "Part", "ns::Cal"], "members": [("double", "energy")]},
        },
        "links": {
            "HitTrkLink": {"From": "Hit", "To": "Track"},
            "ns::SelfLink": {"From": "Part", "To": "Part"},
            "IfLink": {"From": "EnergyIf", "To": "ns::Vertex"},
        },
    })


def vi_model(get=False):
    """types behind interfaces with all kinds of members"""
    common = [("int16_t", "tag", "5"), ("P2", "pos"), ("std::array<int, 3>", "arr", "1, 2, 3"), ("double", "w")]
    return Model({
        "package": "vig" if get else "vi",
        "schema_version": 1,
        "options": {"getSyntax": get},
        "components": {"P2": [("float", "x", "1.5"), ("int", "y")]},
        "datatypes": {
            "IA": {"members": common},
            "IB": {"members": common + [("bool", "extra")], "vec": [("int", "vs")]},
            "in::IC": {"members": [("long", "own")] + common, "one": [("IA", "friend_")]},
            "IR": {"members": [("int", "n")], "one": [("Two", "two"), ("in::Three", "three")], "many": [("in::Three", "threes"), ("Two", "twos")]},
        },
        "interfaces": {
            "Two": {"types": ["IA", "IB"], "members": [("int16_t", "tag"), ("std::array<int, 3>", "arr")]},
            "in::Three": {"types": ["in::IC", "IA", "IB"], "members": [("int16_t", "tag"), ("P2", "pos"), ("std::array<int, 3>", "arr"), ("double", "w")]},
        },
        "links": {"ILink": {"From": "Two", "To": "in::Three"}},
    })


def vo_model():
    """types that lead back to each other in every way, and shapes of types that are easily printed wrong"""
    return Model({
        "package": "vo",
        "schema_version": 2,
        "options": {},
        "components": {
            "One": [("std::array<short, 3>", "only")],
            "o::Mix": [("One", "one"), ("char", "ch"), ("std::array<One, 2>", "ones"), ("bool", "b"), ("unsigned long long", "u")],
        },
        "datatypes": {
            "A": {"members": [("int", "n"), ("std::array<float, 2>", "a2")], "one": [("B", "b")], "many": [("B", "bs"), ("o::C", "others")]},
            "B": {"members": [("double", "d"), ("int", "n")], "many": [("A", "as_"), ("Any", "anys")], "vec": [("o::Mix", "mixes")]},
            "o::C": {"members": [("o::Mix", "mix"), ("std::array<o::Mix, 2>", "mixed"), ("int", "n")], "one": [("Any", "any"), ("o::C", "self")], "many": [("o::C", "selves"), ("A", "outers")]},
            "V": {"vec": [("int", "ints"), ("float", "floats")]},
            "R": {"members": [("unsigned", "n")], "many": [("V", "vs"), ("R", "rs"), ("S", "ss")]},
            "S": {"members": [("o::Mix", "mix")], "many": [("T", "ts")]},
            "T": {"members": [("double", "x")], "one": [("R", "r")], "many": [("o::Leaf", "leaves"), ("S", "ss"), ("V", "vs")]},
            "o::Leaf": {"members": [("unsigned", "n"), ("One", "one")], "vec": [("double", "xs")]},
            # types whose names look like those of generated ones
            "PairCollection": {"members": [("int", "n")], "one": [("o::Leaf", "leaf")], "many": [("PairCollection", "pairs")], "vec": [("int", "is")]},
            "o::Collection": {"members": [("int", "n")], "one": [("o::RawData", "raw")], "vec": [("float", "fs")]},
            "o::RawData": {"members": [("char", "n")], "many": [("o::Collection", "colls"), ("MutableThing", "pairs")]},
            "MutableThing": {"members": [("short", "n")], "one": [("PairCollection", "coll")]},
        },
        "interfaces": {"Any": {"types": ["R", "o::Leaf"], "members": [("unsigned", "n")]}},
        "links": {"ABLink": {"From": "A", "To": "B"}, "o::Any_Link": {"From": "o::C", "To": "Any"}},
    })


if __name__ == "__main__":
    print(vm_model().yaml())
