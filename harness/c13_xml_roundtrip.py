"""C13: XML that is serialised decodes back into an equal tree."""
from pyvc.runner import H
from harness import leaves, mapkeys, schema as S
from harness.c12_json_roundtrip import count_set, same_identity
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "contract on lxml (pyvc/xmlghost.py): elements keep namespace, name, text and order of children through tostring and parse; text is of characters that XML allows",
]
SETS = Sets("sx", n=7, size=18, feat=("topleaf",))


def prepare(tmp, seed, thorough):
    return dict(SETS.prepare(tmp, seed, thorough), mk=mapkeys.build(tmp))


def through(E, M, b, va, top="va"):
    """encode, and decode into a new tree"""
    enc, dec = M.ser.pybindIETFXMLEncoder, M.ser.pybindIETFXMLDecoder
    if E.symbolic:
        return dec.load_xml(enc.encode(va), b, top)
    return dec.decode(enc.serialise(va), b, top)


XMLCHARS = r"[\t\n -~\xa0-퟿]*"


def scalars(E, M):
    """any value of any built-in type, in a leaf or leaf-list"""
    b = M.b("va")
    va = b.va()
    k, v, leafs, lls = leaves.value(E)
    if k == "str":
        E.assume(E.matches(XMLCHARS, v))
    ok, c, n, ll = leaves.place(E, va, v, leafs, lls)
    if not ok:
        return
    o = through(E, M, b, va)
    x = getattr(getattr(o, c), n)
    E.prove("is-set-again", x._changed() if not ll else len(x) == 1)
    a = getattr(getattr(va, c), n)
    if ll:
        a, x = a[0], x[0]
    E.prove("equal-value", same_identity(a, x) if n in ("id", "idl", "lid") else a == x)
    E.prove("nothing-else-set", count_set(o) == 1)
    E.reach("round-trip")


def unions(E, M):
    """any value of a union, alone or in a leaf-list"""
    b = M.b("va")
    va = b.va()
    k, v = leaves.union_value(E)
    ok, c, n, ll = leaves.place(E, va, v, leaves.UNIONS[:2], ["lu"])
    if not ok:
        return
    a = leaves.get(va, c, n, ll)
    o = through(E, M, b, va)
    x = getattr(getattr(o, c), n)
    E.prove("is-set-again", x._changed() if not ll else len(x) == 1)
    E.prove("equal-value", a == (x[0] if ll else x))
    E.reach("round-trip")


def list_entries(E, M):
    """any keys: entries come back in order with their contents; plain, user-ordered and two-key lists"""
    b = M.b("va")
    va = b.va()
    kind = E.choose("list", ["one", "two", "uo"])
    n = E.choose("entries", [1, 2] if E.symbolic else [1, 2, 3])
    ks = [E.int("k", lo=-(2**31), hi=2**31 - 1) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.Not(ks[i] == ks[j]))
    w = E.int("w", lo=0, hi=9)
    for k in ks:
        if kind == "one":
            e = va.tree.one.add(k)
            e.c.w = w
        elif kind == "two":
            e = va.tree.two.add(a="x", b_c=k)
            e.v = "t"
        else:
            e = va.tree.uo.add(E.fmt("n{}", k))
            e.v = w
    o = through(E, M, b, va)
    l = getattr(o.tree, kind)
    E.prove("as-many-entries", len(l) == n)
    for e, k in zip(l.values(), ks):
        if kind == "one":
            E.prove("key-in-order", e.k == k)
            E.prove("content", e.c.w == w)
        elif kind == "two":
            E.prove("key-in-order", E.And(e.a == "x", e.b_c == k))
            E.prove("content", e.v == "t")
        else:
            E.prove("key-in-order", e.name == E.fmt("n{}", k))
            E.prove("content", e.v == w)
    E.reach("round-trip")


def structure(E, M):
    """containers, augmented nodes and presence, any values"""
    b = M.b("va")
    va = b.va()
    names = E.choose("nodes", [[], ["inner.x"], ["inner.x", "inner.augx"], ["augc.al", "augc.x"], ["inner.deep.z", "pres.p", "port"], ["augc.al", "inner.x", "inner.augx", "port"]])
    pres = E.choose("present", [False, True])
    v = E.int("v", lo=0, hi=65535)
    for i, n in enumerate(names):
        o = va.tree
        for s in n.split(".")[:-1]:
            o = getattr(o, s)
        setattr(o, n.split(".")[-1], v)
    if pres:
        va.tree.epres._set_present()
    o2 = through(E, M, b, va)
    for n in ["inner.x", "inner.augx", "augc.al", "augc.x", "inner.deep.z", "pres.p", "port"]:
        o = o2.tree
        for s in n.split("."):
            o = getattr(o, s)
        E.prove("same-elements-set", o._changed() == (n in names))
        if n in names:
            E.prove("equal-value", o == v)
    E.prove("presence", o2.tree.epres._present() == pres and o2.tree.pres._present() == ("pres.p" in names))
    E.reach("round-trip")


def generated(E, M):
    """random trees of random modules, through the XML text"""
    b, g, t, o, r = SETS.draw(E, M)
    enc, dec = M.ser.pybindIETFXMLEncoder, M.ser.pybindIETFXMLDecoder
    text = enc.serialise(o, pretty_print=E.choose("pretty", [True, False]))
    o2 = dec.decode(text, b, g.p)
    E.prove("equal-tree", S.diff(o2, t, g.root.children) is None)
    E.prove("same-document", enc.serialise(o2) == enc.serialise(o))


def text_keys(E, M):
    """entries with keys of any text"""
    mapkeys.roundtrip(E, M, lambda b, o: through(E, M, b, o, "mk"))


HARNESSES = [
    H(text_keys, covers=["round-trip"], conc=300, models=[], shards=6, sym_s=60),
    H(scalars, covers=["round-trip"], conc=500, models=["va"], sym_s=60, shards=3),
    H(unions, covers=["round-trip"], conc=200, models=["va"]),
    H(list_entries, covers=["round-trip"], conc=200, models=["va"]),
    H(structure, covers=["round-trip"], conc=100, models=["va"]),
    H(generated, sym=False, conc=600),
]
