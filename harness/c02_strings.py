"""C02: string and binary leaves enforce every length and every pattern of their type, on the whole value."""
import random

from pyvc.runner import H
from harness import gen
from harness.common import attempt, inset

LEVEL = "proof"
SPEC = {}
ASSUME = [
    "the regular-expression engine (regex, and z3's theory of regular expressions for the proof) is trusted; patterns that use ^ or $ are outside the statement",
]

LEAVES = {
    "s1": ("string", [], []), "s2": ("string", [[(2, 4), (6, 6)]], []), "s3": ("string", [], ["a|bc"]),
    "s4": ("string", [[(3, 10)]], ["[a-z]+", ".*x.*"]), "s5": ("string", [[(1, 8)]], ["[a-z][a-z0-9-]*"]),
    "s6": ("string", [[(1, 8)], [(2, 4)]], ["[a-z][a-z0-9-]*"]),
    "bin": ("binary", [], []), "binl": ("binary", [[(2, 4)]], []),
}
POOL = ["", "a", "b", "bc", "abc", "a\n", "bc\n", "abc\n", "xabc", "ab-1", "a|bc", "aXbc", "x", "axb", "xyz", "xyzxyzxyzx", "xyzxyzxyzxy",
        "abcdefgh", "abcdefghi", "é", "éé", "日本語", "\na", "\n", "c", "cd", "e", "eee", "12", "1.5", "1.", ".5", "ab1", "a-1", "abc-123", "a" * 12, "a" * 13,
        "00:ff", "00:f", "ab:", "A1_b-", "9a", "ab\r", "ab\x00", "a b", "xab", "aabbc", "abab", "ababc"]


def prepare(tmp, seed, thorough):
    n = 24 if thorough else 8
    t, SPEC["str"] = gen.modules("gs", gen.str_module, seed, n, 7)
    return {"gs": gen.build(tmp, "gs", t)}


def check_text(E, c, leaf, spec, v):
    kind, lens, pats = spec
    b0 = getattr(c, leaf)
    ok, _ = attempt(setattr, c, leaf, v)
    n = E.len(v)
    want = E.And(*[inset(E, n, spans) for spans in lens] + [E.Not(E.matches(p[0], v)) if isinstance(p, tuple) else E.matches(p, v) for p in pats]) if (lens or pats) else True
    E.prove("accepted-iff-every-restriction-holds", E.Iff(ok, want))
    now = getattr(c, leaf)
    if ok:
        E.prove("accepted-value-kept-verbatim", now == v)
        E.reach("accepted")
    else:
        E.prove("rejected-value-leaves-the-old-one", now == b0)
        E.reach("rejected")


def draw(E, kind, pats=()):
    if kind == "binary":
        return E.bytes("octets")
    if pats and not E.symbolic and E.bool("matching"):
        r = random.Random(E.seed("sample"))
        p = r.choice(list(pats))
        return gen.sample(p[0] if isinstance(p, tuple) else p, r)
    return E.str("text", pool=POOL, alphabet=gen.ALPHABET)


def corpus_strings(E, M):
    """all texts, each string or binary leaf of the corpus (typedef chains, several patterns, several lengths)"""
    leaf = E.choose("leaf", sorted(LEAVES))
    check_text(E, M.b("va").va().types, leaf, LEAVES[leaf], draw(E, LEAVES[leaf][0], LEAVES[leaf][2]))


def generated_strings(E, M):
    """all texts, each leaf of generated modules of random typedef chains"""
    m, leaf = E.choose("leaf", sorted(SPEC["str"]))
    sp = SPEC["str"][m, leaf]
    check_text(E, getattr(M.b("gs"), m)().c, leaf, sp, draw(E, sp[0], sp[2]))


def any_length(E, M):
    """the length checker itself: all bounds, all lengths"""
    yt = M.yt
    parts, spans = [], []
    for i in range(E.choose("alternatives", [1, 2] if E.symbolic else [1, 2, 3])):
        k = E.choose("form", ["lo..hi", "lo..max", "min..hi", "single"])
        lo = E.int("lo", lo=0, hi=40) if k != "min..hi" else None
        hi = E.int("hi", lo=0, hi=40) if k in ("lo..hi", "min..hi") else None
        if k == "lo..hi":
            parts.append(E.fmt("{}..{}", lo, hi))
        elif k == "lo..max":
            parts.append(E.fmt("{}..max", lo))
        elif k == "min..hi":
            parts.append(E.fmt("min..{}", hi))
        else:
            parts.append(E.fmt("{}", lo))
            hi = lo
        spans.append((lo, hi))
    cls = yt.RestrictedClassType(base_type=M.builtin("str"), restriction_dict={"length": parts})
    v = E.str("text", pool=POOL, alphabet="ab")
    ok, x = attempt(yt.YANGDynClass, v, base=cls, is_leaf=True, yang_name="x")
    E.prove("accepted-iff-length-allowed", E.Iff(ok, inset(E, E.len(v), spans)))
    if ok:
        E.prove("stored-verbatim", x == v)
        E.reach("accepted")
    else:
        E.reach("rejected")


def binary_text(E, M):
    """text given to a binary leaf is its base64 form; the length counts octets (bounded)"""
    import base64

    b = E.bytes("octets")
    leaf = E.choose("leaf", ["bin", "binl"])
    c = M.b("va").va().types
    ok, _ = attempt(setattr, c, leaf, base64.b64encode(b).decode())
    E.prove("base64-accepted-iff-octet-count", ok == (leaf == "bin" or 2 <= len(b) <= 4))
    if ok:
        E.prove("base64-decoded", getattr(c, leaf) == b)


HARNESSES = [
    H(corpus_strings, covers=["accepted", "rejected"], conc=1200, models=["va"]),
    H(generated_strings, covers=["accepted", "rejected"], conc=1600),
    H(any_length, covers=["accepted", "rejected"], conc=400),
    H(binary_text, sym=False, conc=300, models=["va"]),
]
