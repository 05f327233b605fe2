"""Lists with keys of any text - one, two or three of them - and the draws of their keys."""
from harness import gen

MODULE = {"mk": """module mk { yang-version 1.1; namespace "urn:mk"; prefix mk;
  container c {
    list s { key "a"; leaf a { type string; } leaf v { type int32; } leaf-list t { type string; } }
    list p { key "a x-b"; leaf v { type int32; } leaf x-b { type string; } leaf a { type string; } leaf-list t { type string; } }
    list q { key "z a x-b"; leaf x-b { type string; } leaf z { type string; } leaf v { type int32; } leaf a { type string; } leaf-list t { type string; } }
  } }"""}
KEYS = {"s": ["a"], "p": ["a", "x-b"], "q": ["z", "a", "x-b"]}
WORDS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_./:@#$%&*+=<>|^~!?,;\\`"
POOL = ["a", "b", "ab", "x", "a/b", "a:b", "p=q", "@a", "/"]
SPACED = ["a", "b", "a ", " a", "a b", "  ", " ", "b ", "a  b", "ab"]


def build(tmp, flags=("--presence",)):
    return gen.build(tmp, "mk", MODULE, flags=flags)


def safe(n):
    return n.replace("-", "_")


def draw(E, kind, n, name="k", digits=False):
    """n keys of this list: any texts. Only one of the parts has spaces, so that the text that stands for all
    of the parts, which are separated with a space in it, stands for one key"""
    names = KEYS[kind]
    spaced = E.choose("spaced-part", names)
    # what could be the text of a number is tried as a number first
    words = WORDS + ("0123456789" if digits and not E.symbolic else "")
    return [tuple(E.text(name + "-" + p, words + (" " if p == spaced else ""), SPACED if p == spaced else POOL) for p in names) for _ in range(n)]


def same(E, p, q):
    return E.And(*[a == b for a, b in zip(p, q)])


def whole(E, key):
    """the text that stands for the key"""
    out = key[0]
    for k in key[1:]:
        out = E.fmt("{} {}", out, k)
    return out


def kw(kind, key):
    return {safe(n): k for n, k in zip(KEYS[kind], key)}


def leaves(kind, e):
    return [getattr(e, safe(n)) for n in KEYS[kind]]


def roundtrip(E, M, through):
    """entries with keys of any text come back, in order, with what they hold"""
    b = M.b("mk")
    kind = E.choose("list", list(KEYS))
    n = E.choose("entries", [1, 2] if E.symbolic else [1, 2, 3])
    ks = draw(E, kind, n, digits=True)
    for i in range(n):
        for j in range(i):
            E.assume(E.Not(same(E, ks[i], ks[j])))
    o = b.mk()
    vs = [E.int("v", lo=-(2**31), hi=2**31 - 1) for _ in ks]
    for k, v in zip(ks, vs):
        e = getattr(o.c, kind).add(**kw(kind, k))
        e.v = v
        e.t.append(k[-1])
    l = getattr(through(b, o).c, kind)
    E.prove("as-many-entries", len(l) == n)
    for e, k, v in zip(l.values(), ks, vs):
        E.prove("keys", E.And(*[a == c for a, c in zip(leaves(kind, e), k)]))
        E.prove("content", E.And(e.v == v, len(e.t) == 1, e.t[0] == k[-1]))
        E.prove("found-by-its-key", l[whole(E, k)] is e)
    E.reach("round-trip")
