"""G01: member definitions, against constructed expectations and a hand-written reference reader."""
import re

import pp
from models import ALL_BUILTIN, BUILTIN, FIXED, norm_type
from hypothesis import strategies as st
from podio_gen.podio_config_reader import MemberParser
from podio_gen.generator_utils import DefinitionError

DISALLOWED = ["int8_t", "uint8_t", "std::int8_t", "int_fast16_t", "uint_least32_t", "std::uint_fast64_t", "int_least8_t"]
WORDS = {w for t in BUILTIN for w in t.split()}


def fields(m):
    return {"type": m.full_type, "name": m.name, "desc": m.description, "unit": m.unit, "default": m.default_val, "builtin": bool(m.is_builtin),
            "array": bool(m.is_array), "builtin_array": bool(m.is_builtin_array), "array_type": m.array_type if m.is_array else None,
            "array_size": str(m.array_size) if m.is_array else None,
            "ns": (m.array_namespace if m.is_array else m.namespace), "bare": (m.array_bare_type if m.is_array else m.bare_type)}


def expect(t, size, name, default, unit, desc):
    el = norm_type(t)
    b = t in ALL_BUILTIN
    parts = el.split("::")
    ns, bare = ("", el) if len(parts) == 1 or parts[0] == "std" else (parts[0], parts[1])
    return {"type": f"std::array<{el}, {size}>" if size is not None else el, "name": name, "desc": (desc or "").strip(), "unit": unit, "default": default,
            "builtin": b and size is None, "array": size is not None, "builtin_array": b and size is not None,
            "array_type": el if size is not None else None, "array_size": size, "ns": ns, "bare": bare}


@st.composite
def wellformed(draw):
    user = st.from_regex(r"\A(?:::)?[A-Za-z][A-Za-z0-9_]{0,7}(?:::[A-Za-z][A-Za-z0-9_]{0,7})?\Z").filter(
        lambda t: not t.startswith("std::") and t not in WORDS and not re.match(r"(?:std::)?u?int(_(fast|least))?(8|16|32|64)_t", t)
        and not (t.startswith("::") and "::" in t[2:]) and t.split("::")[0] not in WORDS and "std" not in t.split("::"))
    t = draw(st.one_of(st.sampled_from(ALL_BUILTIN), st.sampled_from(ALL_BUILTIN), user))
    size = draw(st.one_of(st.none(), st.none(), st.integers(1, 10000).map(str)))
    name = draw(st.from_regex(r"\A[A-Za-z_][A-Za-z0-9_]{0,9}\Z").filter(lambda n: n not in WORDS))
    default = draw(st.one_of(st.none(), st.text(st.characters(min_codepoint=32, max_codepoint=126, exclude_characters="{}"), min_size=1, max_size=12),
                             st.sampled_from(["{1}, {2}", "{{}}", "1, 2, 3", "3.14f", "'a'", "a{b}c", "Foo{1, {2}}"])))
    unit = draw(st.one_of(st.none(), st.from_regex(r"\A[A-Za-z_*/^]{1,5}[A-Za-z0-9_]{0,3}\Z")))
    desc = draw(st.one_of(st.none(), st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"), max_size=25),
                          st.sampled_from(["", "with {braces}", "{}", "a // b", "[mm]", "x{3} [mm] // y", "// //", "}", "{"])))
    sp = lambda lo: " " * draw(st.integers(lo, 3))  # noqa: E731
    return [t, size, name, default, unit, desc, [sp(0), sp(0), sp(0), sp(0), sp(0), sp(1 if size is None else 0), sp(0), sp(0), sp(0), sp(0), sp(0)]]


def text_of(c):
    t, size, name, default, unit, desc, s = c
    r = s[0]
    r += f"std::array{s[1]}<{s[2]}{t}{s[3]},{s[4]}{size}{s[10]}>" if size is not None else t
    r += s[5] + name + s[6]
    if default is not None:
        r += "{" + default + "}" + s[7]
    if unit is not None:
        r += "[" + unit + "]" + s[8]
    if desc is not None:
        r += "//" + s[9] + desc
    return r


def same(got, want, what):
    d = {k: (got[k], want[k]) for k in want if got[k] != want[k]}
    assert not d, f"{what}: (read, written) differ in {d}"


def check_wellformed(c, rec):
    t, size, name, default, unit, desc, _ = c
    s = text_of(c)
    want = expect(t, size, name, default, unit, desc)
    p = MemberParser()
    if desc is None:
        try:
            m = p.parse(s)
            raise AssertionError(f"{s!r} is accepted without description as {fields(m)}")
        except DefinitionError as e:
            assert "escription" in str(e), f"{s!r}: the missing description is not named: {e}"
    m = p.parse(s, False)
    same(fields(m), want, s)
    if desc is not None:
        same(fields(p.parse(s)), want, s)
        rec.label("described")
    again = m._to_json()  # pylint: disable=protected-access
    same(fields(p.parse(again, False)), want, f"{s!r} written as {again!r}")
    if want["desc"]:
        same(fields(p.parse(again)), want, f"{s!r} written as {again!r}")
    assert p.parse(again, False)._to_json() == again  # pylint: disable=protected-access
    rec.label("array" if size is not None else ("builtin" if t in ALL_BUILTIN else "user type"))
    if sum(x is not None for x in (default, unit, desc, size)) >= 2:
        rec.nontrivial()


# ---- reference reader -----------------------------------------------------------------------------------------------
def word(s, i, first, rest):
    j = i
    if j < len(s) and s[j] in first:
        j += 1
        while j < len(s) and s[j] in rest:
            j += 1
    return s[i:j], j


AZ = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"


def sk(s, i):
    while i < len(s) and s[i] == " ":
        i += 1
    return i


def types_at(s, i):
    """all types that can be read at i, longest first"""
    r = [(b, i + len(b)) for b in BUILTIN if s.startswith(b, i)]
    j = i + 2 if s.startswith("::", i) else i
    w, k = word(s, j, AZ, AZ + DIG + ":_")
    if w:
        r += [(s[i:e], e) for e in range(k, j, -1)]
    return sorted(set(r), key=lambda x: -x[1])


def tail(s, i, need_desc):
    """[default] [unit] [// desc] up to the end of the text"""
    i = sk(s, i)

    def units(i):
        i = sk(s, i)
        if i < len(s) and s[i] == "[":
            e = s.find("]", i)
            if e > 0:
                u = s[i + 1:e]
                k = 0
                while k < len(u) and u[k] in AZ + "_*/^":
                    k += 1
                if k > 0 and all(c in AZ + DIG + "_" for c in u[k:]):
                    r = end(e + 1)
                    if r is not None:
                        return (u,) + r
        r = end(i)
        return None if r is None else (None,) + r

    def end(i):
        i = sk(s, i)
        if s.startswith("//", i):
            return (s[i + 2:].strip(),)
        return ("",) if i == len(s) and not need_desc else None

    if i < len(s) and s[i] == "{":
        for e in range(i + 2, len(s)):
            if s[e] == "}":
                r = units(e + 1)
                if r is not None:
                    return (s[i + 1:e],) + r
        return None
    r = units(i)
    return None if r is None else (None,) + r


def type_ok(t):
    """does the reader take this type at all (declared or not is not its business)"""
    b = t[5:] if t.startswith("std::") else t
    if re.match(r"u?int(_(fast|least))?(8|16|32|64)_t", b):
        return b in FIXED
    return len(t.split("::")) <= 2


def reference(s, need_desc):
    i = sk(s, 0)
    if s.startswith("std::array", i):
        j = sk(s, i + 10)
        if j < len(s) and s[j] == "<":
            j = sk(s, j + 1)
            for t, e in types_at(s, j):
                k = sk(s, e)
                if k < len(s) and s[k] == ",":
                    size, k2 = word(s, sk(s, k + 1), DIG, DIG)
                    k3 = sk(s, k2)
                    if size and k3 < len(s) and s[k3] == ">":
                        n, k4 = word(s, sk(s, k3 + 1), AZ + "_", AZ + DIG + "_")
                        if n and n not in WORDS:
                            r = tail(s, k4, need_desc)
                            if r is not None:
                                return ((t, size, n) + r) if type_ok(t) else None
    for t, e in types_at(s, i):
        if e < len(s) and s[e] == " ":
            n, k = word(s, sk(s, e), AZ + "_", AZ + DIG + "_")
            if n and n not in WORDS:
                r = tail(s, k, need_desc)
                if r is not None:
                    return ((t, None, n) + r) if type_ok(t) else None
    return None


TOKENS = ["int", "unsigned", "long", "float", "Foo", "ns::Foo", "::Foo", "std::array<", "std::array", "<", ">", ",", "3", " ", " ", " ", "  ", "x", "name", "_y", "9z",
          "{", "}", "{}", "{3}", "[", "]", "[mm]", "[1/s]", "[]", "//", "/", " // desc", "desc", "int8_t", "uint16_t", "std::int32_t", "short", ";", "=", "-", "*", "&",
          "a::b::c", "const ", "double", "std::array<int, 3> ", "int x", "\t", "é", "}}", "{{1}}"]


def soup():
    free = st.lists(st.sampled_from(TOKENS), max_size=9).map("".join)

    @st.composite
    def mutated(draw):
        s = text_of(draw(wellformed()))
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(s)))
            op = draw(st.integers(0, 2))
            if op == 0:
                s = s[:i] + draw(st.sampled_from(TOKENS)) + s[i:]
            elif op == 1:
                s = s[:i] + s[i + draw(st.integers(1, 4)):]
            else:
                s = s[:i]
        return s
    return st.one_of(free, mutated(), mutated()).filter(lambda s: all(c.isprintable() or c in " \t" for c in s))


def check_any(s, rec):
    # identifiers in other alphabets are left to the compiler
    if re.search(r"\w", "".join(c for c in s.split("//")[0] if ord(c) > 127)):
        return
    for need in (True, False):
        want = reference(s, need)
        try:
            m = fields(MemberParser().parse(s, need))
        except DefinitionError as e:
            assert want is None, f"{s!r} (description required: {need}) is rejected: {e}; expected {want}"
            assert str(e), "an error without text"
            rec.label("rejected")
            continue
        assert want is not None, f"{s!r} (description required: {need}) is read as {m}"
        t, size, n, d, u, c = want
        same(m, expect(t, size, n, d, u, c), repr(s))
        rec.label("accepted")
    if len(s) > 5:
        rec.nontrivial()


def check_disallowed(c, rec):
    t, size, name, need = c
    s = (f"std::array<{t}, {size}> " if size else t + " ") + name + " // text"
    try:
        m = MemberParser().parse(s, need)
    except DefinitionError as e:
        rec.nontrivial()
        assert str(e)
        return
    raise AssertionError(f"{s!r} is accepted as {m}")


if __name__ == "__main__":
    raise SystemExit(pp.main([
        pp.Prop("well_formed_members_are_read_exactly", wellformed(), check_wellformed, (4500, 200000)),
        pp.Prop("any_text_is_a_member_or_an_error", soup(), check_any, (5000, 300000)),
        pp.Prop("disallowed_types_are_rejected", st.tuples(st.sampled_from(DISALLOWED), st.one_of(st.none(), st.integers(1, 9)), st.from_regex(r"\A[a-z][a-z0-9]{0,4}\Z"),
                                                           st.booleans()).map(list), check_disallowed, (800, 4000)),
    ]))
