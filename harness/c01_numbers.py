"""C01: integer and decimal64 leaves accept exactly the numbers of their value space."""
from pyvc.runner import H
from harness import gen
from harness.common import REJECT, attempt, inset

LEVEL = "proof"
ASSUME = [
    "a decimal64 leaf without a range is not limited to 64 bits, and one with a range keeps the digits it is given: the repository's tests pin both",
]
SPEC = {}

BOUNDS = gen.INTS
LEAVES = {
    "i8": [BOUNDS["int8"]], "i16": [BOUNDS["int16"]], "i32": [BOUNDS["int32"]], "i64": [BOUNDS["int64"]],
    "u8": [BOUNDS["uint8"]], "u16": [BOUNDS["uint16"]], "u32": [BOUNDS["uint32"]], "u64": [BOUNDS["uint64"]],
    "r1": [(-(2**31), -5), (0, 0), (5, 2**31 - 1)], "r2": [(-10, 10), (20, 30)], "r3": [(0, 5), (25, 25)], "r4": [(10, 90)],
    "r5": [(9007199254740993, 9007199254740993)],
}


def prepare(tmp, seed, thorough):
    n = 30 if thorough else 10
    t1, SPEC["int"] = gen.modules("gi", gen.int_module, seed, n, 6)
    t2, SPEC["dec"] = gen.modules("gd", gen.dec_module, seed, n // 2, 6)
    return {"gi": gen.build(tmp, "gi", t1), "gd": gen.build(tmp, "gd", t2)}


def check_assign(E, c, leaf, v, spans, val):
    before = getattr(c, leaf)
    b0 = before + 0 if not isinstance(before, str) else before
    ok, _ = attempt(setattr, c, leaf, v)
    E.prove("accepted-iff-in-value-space", E.Iff(ok, inset(E, val, spans)))
    now = getattr(c, leaf)
    if ok:
        E.prove("accepted-value-reads-back-equal", now == val)
        E.reach("accepted")
    else:
        E.prove("rejected-value-leaves-the-old-one", now == b0)
        E.reach("rejected")


def corpus_integers(E, M):
    """for all integers v, all sizes and the corpus' typedef chains"""
    leaf = E.choose("leaf", sorted(LEAVES))
    c = M.b("va").va().types
    v = E.int("v")
    check_assign(E, c, leaf, v, LEAVES[leaf], v)


def corpus_integers_text(E, M):
    """the same numbers written as decimal text"""
    leaf = E.choose("leaf", sorted(LEAVES))
    c = M.b("va").va().types
    v = E.int("v")
    check_assign(E, c, leaf, E.numeral(v), LEAVES[leaf], v)


def generated_integers(E, M):
    """for all integers v, every leaf of a generated module of random typedef chains"""
    m, leaf = E.choose("leaf", sorted(SPEC["int"]))
    c = getattr(M.b("gi"), m)().c
    v = E.int("v")
    check_assign(E, c, leaf, v, SPEC["int"][m, leaf][1], v)


def any_range(E, M):
    """the range checker itself, for all bounds, one to three alternatives"""
    yt = M.yt
    parts, spans = [], []
    n = E.choose("alternatives", [1, 2] if E.symbolic else [1, 2, 3])
    for i in range(n):
        k = E.choose("form", ["lo..hi", "lo .. hi", "lo..max", "min..hi", "single"])
        lo = E.int("lo") if k != "min..hi" else None
        hi = E.int("hi") if k in ("lo..hi", "lo .. hi", "min..hi") else None
        if k == "lo..hi":
            parts.append(E.fmt("{}..{}", lo, hi))
        elif k == "lo .. hi":
            parts.append(E.fmt("{} .. {}", lo, hi))
        elif k == "lo..max":
            parts.append(E.fmt("{}..max", lo))
        elif k == "min..hi":
            parts.append(E.fmt("min..{}", hi))
        else:
            parts.append(E.fmt("{}", lo))
            hi = lo
        spans.append((lo, hi))
    cls = yt.RestrictedClassType(base_type=M.builtin("int"), restriction_dict={"range": parts})
    v = E.int("v")
    ok, x = attempt(yt.YANGDynClass, v, base=cls, is_leaf=True, yang_name="x")
    E.prove("accepted-iff-in-range", E.Iff(ok, inset(E, v, spans)))
    if ok:
        E.prove("stored-value", x == v)
        E.reach("accepted")
    else:
        E.reach("rejected")


def nested_ranges(E, M):
    """a type derived from a restricted type obeys both restrictions, for all bounds"""
    yt = M.yt
    a, b, c, d, v = E.int("a"), E.int("b"), E.int("c"), E.int("d"), E.int("v")
    outer = yt.RestrictedClassType(base_type=M.builtin("int"), restriction_dict={"range": [E.fmt("{}..{}", a, b)]}, int_size=64)
    # the bounds of a derived type lie inside the type it derives from (RFC 7950 9.2.4)
    E.assume(E.And(a <= c, c <= b, a <= d, d <= b))
    inner = yt.RestrictedClassType(base_type=outer, restriction_dict={"range": [E.fmt("{}..{}", c, d)]})
    ok, x = attempt(yt.YANGDynClass, v, base=inner, is_leaf=True, yang_name="x")
    E.prove("accepted-iff-in-both", E.Iff(ok, E.And(v >= c, v <= d, v >= a, v <= b)))
    E.reach("built")


def generated_decimals(E, M):
    """decimal64 leaves of a generated module, all decimals with up to two digits more than fraction-digits"""
    m, leaf = E.choose("leaf", sorted(SPEC["dec"]))
    k, spans = SPEC["dec"][m, leaf]
    extra = E.choose("extra", [0, 1, 2])
    c = getattr(M.b("gd"), m)().c
    v = E.decimal("v", scale=k + extra)
    n10 = 10**extra
    from decimal import Decimal

    if spans is not None:
        D = lambda n: Decimal(n).scaleb(-k)
        check_assign(E, c, leaf, v, [(D(a), D(b)) for a, b in spans], v)
    else:
        E.assume(E.And(v >= Decimal(-(10**12)), v <= Decimal(10**12)))
        ok, _ = attempt(setattr, c, leaf, v)
        E.prove("decimal-accepted", ok)
        x = getattr(c, leaf)
        half = Decimal(5).scaleb(-k - 1)
        if extra == 0:
            E.prove("exact-value-kept", x == v)
        else:
            E.prove("rounded-to-fraction-digits", E.And(x >= v - half, x <= v + half) if not E.symbolic else near(E, x, v, k))


def near(E, x, v, k):
    from pyvc import models as m
    import z3

    d = m.real_term(x) - m.real_term(v)
    h = z3.RealVal(1) / z3.RealVal(2 * 10**k)
    return m.mkbool(z3.And(d <= h, d >= -h))


def junk_text(E, M):
    """text that is not a number is rejected by every integer leaf (bounded)"""
    leaf = E.choose("leaf", sorted(LEAVES) + ["d1", "d2"])
    c = M.b("va").va().types
    t = E.str("text", pool=["", "abc", "0x10", "1e3z", "--1", "1,2", "1.2.3", "ten", "None", "+-1", "1..2", "min", "max"])
    import re

    E.assume(not re.fullmatch(r"\s*[-+]?[0-9_]*(\.[0-9_]*)?([eE][-+]?[0-9]+)?\s*|(?i:\s*[-+]?(nan|inf|infinity|snan)\s*)", t) or t == "")
    ok, _ = attempt(setattr, c, leaf, t)
    E.prove("not-a-number-rejected", not ok)


def float_decimals(E, M):
    """a float is the decimal number it prints as (bounded)"""
    n = E.int("n", lo=-9999, hi=9999)
    c = M.b("va").va().types
    v = n / 1000
    ok, _ = attempt(setattr, c, "d2", v)
    E.prove("float-in-range", ok == (1500 <= n <= 2250 or n == 3141 or n >= 10000))


HARNESSES = [
    H(corpus_integers, covers=["accepted", "rejected"], conc=600, models=["va"]),
    H(corpus_integers_text, covers=["accepted", "rejected"], conc=300, models=["va"]),
    H(generated_integers, covers=["accepted", "rejected"], conc=600),
    H(any_range, covers=["accepted", "rejected"], conc=400),
    H(nested_ranges, covers=["built"], conc=200),
    H(generated_decimals, covers=["accepted", "rejected"], conc=600),
    H(junk_text, sym=False, conc=300, models=["va"]),
    H(float_decimals, sym=False, conc=300, models=["va"]),
]
