"""Symbolic values for the scalar leaves and leaf-lists of the corpus, shared by several contracts."""
from harness.common import attempt

INT = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "r1", "r2", "r3", "r4", "r5"]
STR = ["s1", "s2", "s3", "s4", "s5", "s6"]
DEC = ["d1", "d2", "d3", "d4"]
BIN = ["bin", "binl"]
LL_INT, LL_STR, LL_DEC, LL_BIN = ["li", "lr", "l64"], ["ls", "lp", "lo"], ["ld"], ["lbin"]
NAMED = {
    "en": ["one", "two", "three", "four", "five"], "bi": ["", "zulu", "ten zulu", "last nine alpha"], "bo": [True, False], "em": [True],
    "id": ["dog", "wolf", "cat", "b:dog", "vc:wolf"], "idl": ["tiger"], "df7": ["x", "y"],
}
LL_NAMED = {"le": ["p", "q"], "lid": ["dog", "vb:bird", "cat"], "lb": [True, False]}
UNIONS = ["un", "un2", "un3"]
TEXTS = ["auto", "abc", "ab-1", "a", "zzzz", "true", "false", "xyz", "éé", "one", "007", " x ", "", "<&>\"'", "1.0", "null"]


def value(E, kinds=("int", "str", "dec", "bin", "named")):
    """-> (kind, value, [leaves], [leaf-lists])"""
    k = E.choose("kind", list(kinds))
    if k == "int":
        return k, E.int("v"), INT, LL_INT
    if k == "str":
        return k, E.str("v", pool=TEXTS), STR, LL_STR
    if k == "dec":
        return k, E.decimal("v", scale=E.choose("scale", [0, 2, 3])), DEC, LL_DEC
    if k == "bin":
        return k, E.bytes("v"), BIN, LL_BIN
    n = E.choose("named", sorted(NAMED) + sorted(LL_NAMED))
    v = E.choose("v", NAMED.get(n) or LL_NAMED[n])
    return k, v, [n] if n in NAMED else [], [n] if n in LL_NAMED else []


def union_value(E):
    """a value for the union leaves: integer, its numeral, or text that is not a numeral"""
    k = E.choose("kind", ["int", "numeral", "text"])
    if k == "text":
        v = E.str("v", pool=TEXTS)
        E.assume(E.Not(E.matches(r"[ \t\n\r\x0b\x0c\x1c-\x1f]*[-+]?[0-9_]+[ \t\n\r\x0b\x0c\x1c-\x1f]*", v)))
        if not E.symbolic:
            E.assume(v.isascii())
        return k, v
    v = E.int("v")
    return k, (v if k == "int" else E.numeral(v))


def place(E, va, v, leafs, lls):
    """store it -> (accepted, container name, leaf name, is a leaf-list)"""
    where = E.choose("where", (["leaf"] if leafs else []) + (["leaf-list"] if lls else []))
    if where == "leaf":
        n = E.choose("leaf", leafs)
        ok, _ = attempt(setattr, va.types, n, v)
        return ok, "types", n, False
    n = E.choose("leaf-list", lls)
    ok, _ = attempt(getattr(va.lls, n).append, v)
    return ok, "lls", n, True


def get(va, c, n, ll):
    x = getattr(getattr(va, c), n)
    return x[0] if ll else x
