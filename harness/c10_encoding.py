"""C10: every value is encoded in the form that its format defines for its type."""
import base64
import random
from decimal import Decimal

from pyvc.runner import H
from harness import gen, schema as S
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = ["the json module writes int, str, bool, None, list and dict as the JSON values they are"]
SETS = Sets("se", n=6, size=22, feat=("topleaf",))


def prepare(tmp, seed, thorough):
    return SETS.prepare(tmp, seed, thorough)


SMALL = ["i8", "i16", "i32", "u8", "u16", "u32", "r1", "r2", "r3", "r4"]
LARGE = ["i64", "u64", "r5"]
LL_SMALL, LL_LARGE = ["li", "lr"], ["l64"]


def encoders(E, M):
    return E.choose("format", ["default", "ietf", "xml"])


def encoder(M, f):
    s = M.ser
    return {"default": s.YangDataSerialiser, "ietf": s.IETFYangDataSerialiser, "xml": s.XmlYangDataSerialiser}[f]()


def encode(E, M, f, obj, name):
    """the encoding of the element, as the serialisers get at it"""
    v = encoder(M, f).default(getattr(obj, name))
    return v


def store(E, M, leafs, lls, v):
    """put v in a leaf or, as the second value, in a leaf-list of the corpus"""
    where = E.choose("where", ["leaf", "leaf-list"])
    va = M.b("va").va()
    if where == "leaf":
        c, n = va.types, E.choose("leaf", leafs)
        ok, _ = attempt(setattr, c, n, v)
        return ok, c, n, False
    c, n = va.lls, E.choose("leaf-list", lls)
    ok, _ = attempt(getattr(c, n).append, v)
    return ok, c, n, True


def is_int(E, x):
    return isinstance(x, int) and not isinstance(x, bool) if not E.symbolic else type(x).__name__ in ("int", "VInt")


def one(x, ll):
    return x[0] if ll else x


def small_integers(E, M):
    """integers of up to 32 bits are numbers in both JSON formats, decimal text in XML"""
    v = E.int("v")
    f = E.choose("format", ["default", "ietf", "xml"])
    ok, c, n, ll = store(E, M, SMALL, LL_SMALL, v)
    if not ok:
        return
    x = encode(E, M, f, c, n)
    if ll:
        E.prove("leaf-list-is-a-list-of-one", isinstance(x, list) and len(x) == 1)
        x = x[0]
    E.prove("is-a-number", M.is_int(x))
    E.prove("the-number", x == v)
    E.reach("encoded")


def large_integers(E, M):
    """64-bit integers are text in IETF JSON and XML, numbers in default JSON"""
    v = E.int("v")
    f = E.choose("format", ["default", "ietf", "xml"])
    ok, c, n, ll = store(E, M, LARGE, LL_LARGE, v)
    if not ok:
        return
    x = one(encode(E, M, f, c, n), ll)
    if f == "default":
        E.prove("is-a-number", M.is_int(x))
        E.prove("the-number", x == v)
    else:
        E.prove("is-text", M.is_str(x))
        E.prove("the-decimal-text", x == E.numeral(v))
    E.reach("encoded")


def strings(E, M):
    """strings are verbatim in every format"""
    v = E.str("v")
    f = E.choose("format", ["default", "ietf", "xml"])
    ok, c, n, ll = store(E, M, ["s1", "s2", "s5", "s6"], ["ls", "lp", "lo"], v)
    if not ok:
        return
    x = one(encode(E, M, f, c, n), ll)
    E.prove("is-text", M.is_str(x))
    E.prove("verbatim", x == v)
    E.reach("encoded")


def binaries(E, M):
    """octets are base64 text in every format"""
    v = E.bytes("v")
    f = E.choose("format", ["default", "ietf", "xml"])
    ok, c, n, ll = store(E, M, ["bin", "binl"], ["lbin"], v)
    if not ok:
        return
    x = one(encode(E, M, f, c, n), ll)
    E.prove("is-text", M.is_str(x))
    E.prove("base64", M.b64decode(x) == v)
    E.reach("encoded")


def decimals(E, M):
    """decimals are text without exponent in IETF JSON and XML, a number in default JSON"""
    k = E.choose("scale", [0, 2, 3])
    v = E.decimal("v", scale=k)
    f = E.choose("format", ["ietf", "xml"] if E.symbolic else ["default", "ietf", "xml"])
    ok, c, n, ll = store(E, M, ["d1", "d2", "d3", "d4"], ["ld"], v)
    if not ok:
        return
    stored = one(getattr(c, n), ll)
    x = one(encode(E, M, f, c, n), ll)
    if f == "default":
        E.prove("is-a-number", isinstance(x, float))
        E.prove("the-number", x == float(stored))
    else:
        E.prove("is-text", M.is_str(x))
        E.prove("decimal-text", M.decimal_text(x, stored))
    E.reach("encoded")


def booleans(E, M):
    v = E.choose("v", [True, False, "true", "false", "True", "False", 0, 1])
    f = E.choose("format", ["default", "ietf", "xml"])
    ok, c, n, ll = store(E, M, ["bo", "df5"], ["lb"], v)
    E.prove("accepted", ok)
    x = one(encode(E, M, f, c, n), ll)
    E.prove("is-a-boolean", x is (v in (True, "true", "True", 1)))


TEXTS = ["auto", "abc", "ab-1", "a", "zzzz", "true", "false", "True", "xyz", "éé", "one"]
IDS = {"dog": "vb", "mammal": "vb", "bird": "vb", "wolf": "vc", "cat": "va", "tiger": "va"}


def named_values(E, M):
    """enumerations, bits, identities and empties: all values of the corpus"""
    f = E.choose("format", ["default", "ietf", "xml"])
    va = M.b("va").va()
    kind = E.choose("kind", ["enumeration", "bits", "identityref", "identityref-other", "identityref-list", "enum-list", "empty", "augmented-identityref"])
    if kind == "enumeration":
        v = E.choose("v", ["one", "two", "three", "four", "five"])
        va.types.en = v
        want, x = v, encode(E, M, f, va.types, "en")
    elif kind == "bits":
        bits = [b for b in ["zulu", "alpha", "nine", "ten"] if E.choose(b, [False, True])]
        r = True
        va.types.bi = " ".join(reversed(bits) if r else bits)
        want, x = " ".join(bits), encode(E, M, f, va.types, "bi")
    elif kind == "identityref":
        v = E.choose("v", sorted(IDS))
        pre = E.choose("prefix", ["", "module", "short"])
        va.types.id = {"": "", "module": IDS[v] + ":", "short": IDS[v][1] + ":"}[pre] + v
        x = encode(E, M, f, va.types, "id")
        want = v if IDS[v] == "va" else "%s:%s" % (IDS[v], v)
        if f == "default":
            want, x = v, x.split(":")[-1]
    elif kind == "identityref-other":
        va.types.idl = "tiger"
        want, x = "tiger", encode(E, M, f, va.types, "idl")
    elif kind == "identityref-list":
        v1, v2 = E.choose("first", sorted(IDS)), E.choose("second", [None, "dog", "cat"])
        vs = [v1, v2] if v2 not in (None, v1) else [v1]
        for v in vs:
            va.lls.lid.append(v)
        x = encode(E, M, f, va.lls, "lid")
        want = vs if f == "default" else [v if IDS[v] == "va" else "%s:%s" % (IDS[v], v) for v in vs]
    elif kind == "augmented-identityref":
        v = E.choose("v", sorted(IDS))
        va.tree.augc.aid = v
        x = encode(E, M, f, va.tree.augc, "aid")
        want = v if f == "default" or IDS[v] == "vc" else "%s:%s" % (IDS[v], v)
    elif kind == "enum-list":
        vs = [v for v in ["r", "q", "p"] if E.choose(v, [False, True])]
        for v in vs:
            va.lls.le.append(v)
        want, x = vs, encode(E, M, f, va.lls, "le")
    else:
        va.types.em = True
        want, x = {"default": True, "ietf": [None], "xml": None}[f], encode(E, M, f, va.types, "em")
    E.prove("the-defined-form", x == want and type(x) is type(want) or (isinstance(want, list) and list(x) == want))


def unions(E, M):
    """a union is encoded as the member type that holds the value"""
    f = E.choose("format", ["default", "ietf", "xml"])
    leaf, kind = E.choose("leaf", [("un", "int"), ("un", "str"), ("un2", "int"), ("un2", "str"), ("un3", "int"), ("un3", "str"), ("lu", "int"), ("lu", "str")])
    v = E.int("v") if kind == "int" else E.str("v", pool=TEXTS)
    if kind == "str":
        E.assume(E.Not(E.matches(r"[ \t\n\r\x0b\x0c]*[-+]?[0-9_]+[ \t\n\r\x0b\x0c]*", v)))
    va = M.b("va").va()
    if leaf == "lu":
        ok, _ = attempt(va.lls.lu.append, v)
        c = va.lls
    else:
        c = va.types
        ok, _ = attempt(setattr, c, leaf, v)
    if not ok:
        return
    # the member that holds it: as the leaf itself reads
    stored = one(getattr(c, leaf), leaf == "lu")
    x = one(encode(E, M, f, c, leaf), leaf == "lu")
    if kind == "int" and leaf in ("un", "un2", "lu"):
        E.prove("number-member-is-a-number", M.is_int(x))
        E.prove("the-number", x == v)
        E.reach("number")
    elif kind == "str" and leaf in ("un", "un2"):
        E.prove("text-member-is-text", M.is_str(x))
        E.prove("verbatim", x == v)
        E.reach("text")
    else:
        E.prove("some-encoding-of-the-stored-value", M.is_int(x) or M.is_str(x) or x is True or x is False)


def walk(tree, obj, children):
    for c, _ in S.flatten(children):
        if c not in tree:
            continue
        o = getattr(obj, c.safe)
        if c.kind == "container":
            yield from walk(tree[c], o, c.children)
        elif c.kind == "list":
            for e, x in zip(tree[c], o.values()):
                yield from walk(e, x, c.children)
        else:
            yield c, tree[c], o


def generated(E, M):
    """every leaf and leaf-list of random modules, as default(), the JSON of the whole tree being C11"""
    b, g, t, o, r = SETS.draw(E, M)
    for c, v, x in walk(t, o, g.root.children):
        for f in ("default", "ietf", "xml"):
            got = encoder(M, f).default(x)
            enc = {"default": lambda v: S.defjson(v), "ietf": lambda v: S.ietfjson(v, c.mod), "xml": lambda v: S.ietfjson(v, c.mod) if v.tag != "empty" else None}[f]
            want = [enc(y) for y in v] if c.kind == "leaf-list" else enc(v)
            E.prove("%s-form" % f, S.jeq(list(got) if isinstance(got, list) else got, want))


HARNESSES = [
    H(named_values, conc=600, models=["va"]),
    H(unions, covers=["number", "text"], conc=300, models=["va"]),
    H(generated, sym=False, conc=240),
    H(small_integers, covers=["encoded"], conc=300, models=["va"]),
    H(large_integers, covers=["encoded"], conc=200, models=["va"]),
    H(strings, covers=["encoded"], conc=300, models=["va"]),
    H(binaries, covers=["encoded"], conc=200, models=["va"]),
    H(decimals, covers=["encoded"], conc=400, models=["va"]),
    H(booleans, conc=200, models=["va"]),
]
