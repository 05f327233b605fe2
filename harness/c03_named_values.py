"""C03: enumeration, bits, identityref and boolean leaves take exactly their named values."""
from pyvc.runner import H
from harness import gen
from harness.common import attempt

LEVEL = "proof"
SPEC = {}
ASSUME = ["the names of the values offered are compared as text: a number is not offered to an enumeration, bits or identityref leaf by the proofs (the sweeps offer them)"]

EN = ["one", "two", "three", "four", "five"]
NUM = {"one": 0, "two": 5, "three": 6, "four": 3, "five": 7}
BI = ["zulu", "alpha", "nine", "ten", "last"]  # positions 0, 1, 9, 10, 11
ANIMAL = [("vb", "b", x) for x in ("mammal", "dog", "bird")] + [("va", "a", "cat"), ("va", "a", "tiger"), ("vc", "c", "wolf")]
CAT = [("va", "a", "tiger")]


def idnames(ids):
    return sorted({x for m, p, n in ids for x in (n, "%s:%s" % (p, n), "%s:%s" % (m, n))})


CORPUS = {"en": EN, "df7": ["x", "y"], "le": ["p", "q", "r"], "id": idnames(ANIMAL), "idl": idnames(CAT), "lid": idnames(ANIMAL)}
BOOLS = {"bo": "leaf", "lb": "leaf-list"}
NEAR = ["one ", "One", "1", "ONE", "", "on", "onetwo", "x", "y", "xy", "p", "pq", "animal", "b:animal", "color", "red", "a:red", "b:cat", "c:cat", "cat", "vc:cat", "vb:cat", "z:dog", "dog:b", ":dog", "dog:", "b:dog", "vb:dog",
        "true", "false", "True", "False", "TRUE", "yes", "0", "1", "2", "no", "None", "zulu", "alpha", "zulu alpha", "zulualpha", "ten,nine", "\n", "one\n"]


def prepare(tmp, seed, thorough):
    t, SPEC["nm"] = gen.modules("gm", gen.named_module, seed, 24 if thorough else 7, 12)
    return {"gm": gen.build(tmp, "gm", t)}


def offer(c, n, ll, v):
    """-> accepted, value held, unchanged when rejected"""
    x = getattr(c, n)
    if ll:
        before = list(x)
        ok, _ = attempt(x.append, v)
        now = list(getattr(c, n))
        return ok, now[-1] if ok and len(now) > len(before) else None, ok or (now == before)
    before = x
    ok, _ = attempt(setattr, c, n, v)
    now = getattr(c, n)
    return ok, now, ok or now is before


def corpus_names(E, M):
    """all texts, each enumeration and identityref leaf and leaf-list of the corpus"""
    leaf = E.choose("leaf", sorted(CORPUS))
    names = CORPUS[leaf]
    va = M.b("va").va()
    ll = leaf[0] == "l"
    c = va.lls if ll else va.types
    v = E.str("text", pool=NEAR + names, alphabet="abcdefgonetw:")
    member = E.Or(*[v == n for n in names])
    ok, x, kept = offer(c, leaf, ll, v)
    E.prove("accepted-iff-a-declared-name", E.Iff(ok, member))
    if ok:
        E.prove("accepted-name-kept", x == v)
        E.reach("accepted")
    else:
        E.prove("rejected-name-leaves-the-old-value", kept)
        E.prove("rejected-is-not-changed", not getattr(c, leaf)._changed())
        E.reach("rejected")


def after_a_value(E, M):
    """the same for a leaf that already holds a value"""
    leaf = E.choose("leaf", ["en", "df7", "id", "idl"])
    names = CORPUS[leaf]
    c = M.b("va").va().types
    first = E.choose("first", names[-2:] if E.symbolic else names)
    setattr(c, leaf, first)
    v = E.str("text", pool=NEAR + names, alphabet="abcdefgonetw:")
    ok, x, kept = offer(c, leaf, False, v)
    E.prove("accepted-iff-a-declared-name", E.Iff(ok, E.Or(*[v == n for n in names])))
    E.prove("holds-the-value-accepted-last", getattr(c, leaf) == (v if ok else first))
    E.prove("still-changed", getattr(c, leaf)._changed())
    E.reach("accepted" if ok else "rejected")


def enum_values(E, M):
    """the number of an enumeration name (RFC 7950 9.6.4.2)"""
    c = M.b("va").va().types
    n = E.choose("name", EN)
    c.en = n
    E.prove("mapped-value", c.en.getValue(mapped=True) == NUM[n])
    E.reach("read")


def boolean_forms(E, M):
    """all texts and integers, boolean leaf and leaf-list"""
    leaf = E.choose("leaf", sorted(BOOLS))
    va = M.b("va").va()
    ll = leaf == "lb"
    c = va.lls if ll else va.types
    k = E.choose("kind", ["text", "int", "bool"])
    if k == "text":
        v = E.str("text", pool=NEAR, alphabet="01truefals")
        t = E.Or(*[v == s for s in ("true", "True", "1")])
        f = E.Or(*[v == s for s in ("false", "False", "0")])
    elif k == "int":
        v = E.int("v")
        t, f = v == 1, v == 0
    else:
        v = E.choose("b", [True, False])
        t, f = v, not v
    ok, x, kept = offer(c, leaf, ll, v)
    E.prove("accepted-iff-a-boolean-form", E.Iff(ok, E.Or(t, f)))
    if ok:
        E.prove("has-its-truth-value", E.Iff(x == 1, t))
        E.prove("prints-as-boolean", str(x) in ("True", "False"))
        E.reach("accepted")
    else:
        E.prove("rejected-form-leaves-the-old-value", kept)
        E.reach("rejected")


def bits_tokens(E, M):
    """all lists of up to two tokens (sweeps: three); a token is any non-empty text without whitespace"""
    c = M.b("va").va().types
    n = E.choose("tokens", [0, 1, 2] if E.symbolic else [0, 1, 2, 3])
    toks = []
    for i in range(n):
        if i < (2 if E.symbolic else 3) and E.choose("kind", ["any", "declared"]) == "any":
            t = E.str("token", pool=BI + ["zul", "zulualpha", "Zulu", "0", "1", "nine,ten"], alphabet="abcdz")
            if E.symbolic:
                E.assume(E.matches("[^ \\t\\n\\r\\x0b\\x0c\\x1c-\\x1f\\x85\\xa0\\u1680\\u2000-\\u200a\\u2028\\u2029\\u202f\\u205f\\u3000]+", t))
            else:
                E.assume(t != "" and t.split() == [t])
            toks.append(t)
        else:
            toks.append(E.choose("bit", BI if not E.symbolic else BI[:2] + BI[-1:]))
    sep = E.choose("separator", [" ", "\t"] if E.symbolic else [" ", "  ", "\t", " \n "])
    v = E.fmt(sep.join(["{}"] * n), *toks)
    ok, x, kept = offer(c, "bi", False, v)
    E.prove("accepted-iff-every-token-is-declared", E.Iff(ok, E.And(*[E.Or(*[t == b for b in BI]) for t in toks])))
    if ok:
        canon = str(getattr(c, "bi"))
        for b in BI:
            E.prove("has-exactly-the-given-bits", E.Iff(b in getattr(c, "bi"), E.Or(*[t == b for t in toks]) if toks else False))
        E.prove("renders-in-order-of-position", canon == " ".join(b for b in BI if b in getattr(c, "bi")))
        E.reach("accepted")
    else:
        E.prove("rejected-bits-leave-the-old-value", kept)
        E.reach("rejected")


def bits_sets(E, M):
    """every set of bits, given as a set, a text in any of several orders, or bit by bit"""
    c = M.b("va").va().types
    s = [b for b in BI if E.choose("has", [True, False])]
    how = E.choose("how", ["set", "text", "reversed", "add", "remove"])
    if how == "set":
        c.bi = set(s)
    elif how == "text":
        c.bi = " ".join(s)
    elif how == "reversed":
        c.bi = " ".join(reversed(s))
    elif how == "add":
        for b in reversed(s):
            c.bi.add(b)
    else:
        c.bi = " ".join(BI)
        for b in BI:
            if b not in s:
                c.bi.remove(b)
    E.prove("holds-exactly-the-set", set(c.bi) == set(s))
    E.prove("renders-in-order-of-position", str(c.bi) == " ".join(s))
    E.prove("changed", c.bi._changed() == (bool(s) or how != "add"))
    bad = E.choose("bad", ["Alpha", "", "zulu alpha", "5"])
    ok, _ = attempt(c.bi.add, bad, exc=(ValueError, KeyError))
    E.prove("an-undeclared-bit-is-refused", not ok)
    E.prove("refused-bit-leaves-the-set", set(c.bi) == set(s))


def generated_names(E, M):
    """all texts, every such leaf and leaf-list of generated modules"""
    m, leaf = E.choose("leaf", sorted(k for k in SPEC["nm"] if SPEC["nm"][k][0] in ("enumeration", "identityref")))
    kind, names, ll, nums = SPEC["nm"][m, leaf]
    c = getattr(M.b("gm"), m)().c
    if kind == "identityref":
        names = sorted({x for mm, n in names for x in (n, "%s:%s" % (mm, n))})
        pool = ["id%d" % i for i in range(8)] + ["%s:id%d" % (m, i) for i in range(8)] + ["x:id1", "id", "id10"]
    else:
        pool = gen.ENUMS + ["u p", "Up", "up ", "10", "-1", "1"]
    v = E.str("text", pool=pool, alphabet="upid01:")
    ok, x, kept = offer(c, leaf, ll, v)
    E.prove("accepted-iff-a-declared-name", E.Iff(ok, E.Or(*[v == n for n in names]) if names else False))
    if ok:
        E.prove("accepted-name-kept", x == v)
        if nums and not ll and not E.symbolic:
            E.prove("mapped-value", x.getValue(mapped=True) == nums[v])
        E.reach("accepted")
    else:
        E.prove("rejected-name-leaves-the-old-value", kept)
        E.reach("rejected")


def generated_bits(E, M):
    """lists of declared and other bits, every bits leaf and leaf-list of generated modules"""
    m, leaf = E.choose("leaf", sorted(k for k in SPEC["nm"] if SPEC["nm"][k][0] == "bits"))
    kind, names, ll, _ = SPEC["nm"][m, leaf]
    c = getattr(M.b("gm"), m)().c
    n = E.choose("tokens", [1, 2, 3, 4])
    toks = []
    for i in range(n):
        toks.append(E.choose("bit", names) if E.choose("declared", [True, True, True, False]) else E.choose("any", gen.BITS))
    sep = E.choose("separator", [" ", "  ", "\n "])
    v = sep.join(toks)
    if E.choose("as", ["text", "set"]) == "set":
        v = set(toks)
    ok, x, kept = offer(c, leaf, ll, v)
    E.prove("accepted-iff-every-bit-is-declared", ok == all(t in names for t in toks))
    if ok:
        E.prove("holds-exactly-the-set", set(x) == set(toks))
        E.prove("renders-in-order-of-position", str(x) == " ".join(b for b in names if b in toks))
    else:
        E.prove("rejected-bits-leave-the-old-value", kept)


def other_values(E, M):
    """values that are not text, offered to any such leaf or leaf-list (bounded)"""
    m, leaf = E.choose("leaf", sorted(SPEC["nm"]))
    kind, names, ll, _ = SPEC["nm"][m, leaf]
    c = getattr(M.b("gm"), m)().c
    v = E.choose("value", [0, 1, 7, -1, True, False, 1.5, (), {}, ["up"], ["zulu"], None, b"up", object(), 10])
    ok, x, kept = offer(c, leaf, ll, v)
    if kind == "boolean":
        want = type(v) in (int, bool) and v in (0, 1)
    elif kind == "enumeration":
        want = str(v) in names
    elif kind == "bits":
        want = False
    else:
        want = False
    E.prove("accepted-iff-it-names-a-value", ok == want)
    if not ok:
        E.prove("rejected-value-leaves-the-old-one", kept)


HARNESSES = [
    H(corpus_names, covers=["accepted", "rejected"], conc=800, models=["va"]),
    H(after_a_value, covers=["accepted", "rejected"], conc=300, models=["va"], shards=2),
    H(enum_values, covers=["read"], conc=20, models=["va"]),
    H(boolean_forms, covers=["accepted", "rejected"], conc=300, models=["va"]),
    H(bits_tokens, covers=["accepted", "rejected"], conc=400, models=["va"], shards=4),
    H(bits_sets, sym=False, conc=500, models=["va"]),
    H(generated_names, covers=["accepted", "rejected"], conc=800, shards=2),
    H(generated_bits, sym=False, conc=600),
    H(other_values, sym=False, conc=600),
]
