"""C12: JSON that is dumped loads back into an equal tree."""
import json
import random
from collections import OrderedDict

from pyvc.runner import H
from harness import leaves, mapkeys, schema as S
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "json.loads(json.dumps(x)) == x for the trees of dict, list, str, int, bool and None that the encoders produce (stdlib)",
    "default JSON writes decimals as doubles: exact up to 15 digits; the round trip of a decimal in default JSON is checked by sweeps only",
]
SETS = Sets("sj", n=7, size=18, feat=("topleaf",))


def prepare(tmp, seed, thorough):
    return dict(SETS.prepare(tmp, seed, thorough), mk=mapkeys.build(tmp))


def has_keyless(children):
    for c, _ in S.flatten(children):
        if c.kind == "list" and not c.keys:
            return True
        if c.kind in ("container", "list") and has_keyless(c.children):
            return True
    return False


def dump(M, f, obj):
    """what the encoder hands to the json module"""
    s = M.ser
    if f == "ietf":
        return s.IETFYangDataSerialiser().preprocess_element(s.pybindIETFJSONEncoder.generate_element(obj, flt=True))
    return s.YangDataSerialiser().preprocess_element(obj.get(filter=True))


def load(M, f, doc, obj):
    d = M.ser.pybindJSONDecoder
    return (d.load_ietf_json if f == "ietf" else d.load_json)(doc, None, None, obj=obj)


def scalars(E, M):
    """any value of any built-in type, in a leaf or leaf-list"""
    b = M.b("va")
    va = b.va()
    f = E.choose("format", ["default", "ietf"])
    k, v, leafs, lls = leaves.value(E, ("int", "str", "bin", "named") if f == "default" and E.symbolic else ("int", "str", "bin", "named", "dec"))
    ok, c, n, ll = leaves.place(E, va, v, leafs, lls)
    if not ok:
        return
    if not E.symbolic and k == "dec" and f == "default":
        E.assume(len(str(leaves.get(va, c, n, ll)).replace("-", "").replace(".", "").lstrip("0")) <= 15)
    doc = dump(M, f, va)
    o = load(M, f, doc, b.va())
    x = getattr(getattr(o, c), n)
    E.prove("is-set-again", x._changed() if not ll else len(x) == 1)
    a = getattr(getattr(va, c), n)
    if ll:
        a, x = a[0], x[0]
    E.prove("equal-value", same_identity(a, x) if n in ("id", "idl", "lid") else a == x)
    E.prove("nothing-else-set", count_set(o) == 1)
    E.reach("round-trip")


def same_identity(a, x):
    """a reference may be written with or without a prefix (no two modules of the corpus share the name of an animal)"""
    return str(a).split(":")[-1] == str(x).split(":")[-1]


def count_set(va):
    n = 0
    for c in (va.types, va.lls):
        for e in c._pyangbind_elements:
            x = getattr(c, e)
            n += 1 if (len(x) if type(x).__name__ == "TypedList" or getattr(x, "_pybind_generated_by", "") == "TypedListType" else x._changed()) else 0
    return n


def unions(E, M):
    """any value of a union, alone or in a leaf-list"""
    b = M.b("va")
    va = b.va()
    f = E.choose("format", ["default", "ietf"])
    k, v = leaves.union_value(E)
    ok, c, n, ll = leaves.place(E, va, v, leaves.UNIONS[:2], ["lu"])
    if not ok:
        return
    a = leaves.get(va, c, n, ll)
    o = load(M, f, dump(M, f, va), b.va())
    x = getattr(getattr(o, c), n)
    E.prove("is-set-again", x._changed() if not ll else len(x) == 1)
    E.prove("equal-value", a == (x[0] if ll else x))
    E.reach("round-trip")


def list_entries(E, M):
    """any keys: entries come back in order with their contents; plain, user-ordered and two-key lists"""
    b = M.b("va")
    va = b.va()
    f = E.choose("format", ["default", "ietf"])
    kind = E.choose("list", ["one", "two", "uo"])
    n = E.choose("entries", [1, 2] if E.symbolic else [1, 2, 3])
    ks = [E.int("k", lo=-(2**31), hi=2**31 - 1) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.Not(ks[i] == ks[j]))
    w = E.int("w", lo=0, hi=9)
    for k in ks:
        if kind == "one":
            e = va.tree.one.add(k)
            e.c.w = w
        elif kind == "two":
            e = va.tree.two.add(a="x", b_c=k)
            e.v = "t"
        else:
            e = va.tree.uo.add(E.fmt("n{}", k))
            e.v = w
    o = load(M, f, dump(M, f, va), b.va())
    l = getattr(o.tree, kind)
    E.prove("as-many-entries", len(l) == n)
    for e, k in zip(l.values(), ks):
        if kind == "one":
            E.prove("key-in-order", e.k == k)
            E.prove("content", e.c.w == w)
        elif kind == "two":
            E.prove("key-in-order", E.And(e.a == "x", e.b_c == k))
            E.prove("content", e.v == "t")
        else:
            E.prove("key-in-order", e.name == E.fmt("n{}", k))
            E.prove("content", e.v == w)
    E.reach("round-trip")


def generated(E, M):
    """random trees of random modules, through the JSON text"""
    b, g, t, o, r = SETS.draw(E, M)
    f = E.choose("format", ["default", "ietf"])
    if f == "default" and (has_keyless(g.root.children) or long_decimal(t)):
        E.assume(False)
    text = M.pj.dumps(o, mode=f)
    via = E.choose("via", ["text", "dict", "file", "shuffled"])
    fn = M.pj.loads if f == "default" else M.pj.loads_ietf
    if via == "shuffled":
        o2 = fn(json.dumps(shuffled(r, json.loads(text, object_pairs_hook=OrderedDict), g.root.children)), b, g.p)
    elif via == "text":
        o2 = fn(text, b, g.p)
    elif via == "dict":
        o2 = fn(json.loads(text, object_pairs_hook=OrderedDict), b, g.p)
    else:
        import os
        import tempfile

        fd, p = tempfile.mkstemp()
        os.close(fd)
        try:
            M.pj.dump(o, p, mode=f)
            o2 = (M.pj.load if f == "default" else M.pj.load_ietf)(p, b, g.p)
        finally:
            os.unlink(p)
    d = S.diff(o2, t, g.root.children)
    E.prove("equal-tree", d is None)
    E.prove("same-document", json.loads(M.pj.dumps(o2, mode=f)) == json.loads(text))


def shuffled(r, doc, children):
    """the document with the members of its objects in another order, but for those that are the entries of a list which
    the system orders"""
    nodes = {c.name: c for c, _ in S.flatten(children)}
    out = OrderedDict()
    for m in r.sample(list(doc), len(doc)):
        c, x = nodes.get(m.split(":")[-1]), doc[m]
        if c is None:
            pass
        elif c.kind == "container":
            x = shuffled(r, x, c.children)
        elif c.kind == "list" and isinstance(x, list):
            x = [shuffled(r, e, c.children) for e in x]
        elif c.kind == "list":
            ks = r.sample(list(x), len(x)) if c.user else list(x)
            x = OrderedDict((k, shuffled(r, x[k], c.children)) for k in ks)
        out[m] = x
    return out


def long_decimal(t):
    for c, x in t.items():
        if c.kind in ("leaf", "leaf-list"):
            for v in x if c.kind == "leaf-list" else [x]:
                if v.tag == "dec" and len(str(v.val).replace("-", "").replace(".", "").lstrip("0")) > 15:
                    return True
        elif c.kind == "container":
            if long_decimal(x):
                return True
        elif any(long_decimal(e) for e in x):
            return True
    return False


def long_lists(E, M):
    """many entries, through the text: in the same order, whichever it is"""
    f = E.choose("format", ["default", "ietf"])
    kind = E.choose("list", ["uo", "one", "sk", "two"])
    n = E.choose("entries", [9, 10, 11, 12, 21, 101, 130])
    va = M.b("va").va()
    r = random.Random(E.seed("seed"))
    ks = r.sample(range(-500, 500), n)
    l = getattr(va.tree, kind)
    for k in ks:
        e = l.add(a="x", b_c=k) if kind == "two" else l.add(k if kind == "one" else "n%d" % k)
        e.v = str(k) if kind in ("one", "two") else k
    lls = va.lls.li
    for k in ks:
        lls.append(k)
    o = (M.pj.loads if f == "default" else M.pj.loads_ietf)(M.pj.dumps(va, mode=f), M.b("va"), "va")
    E.prove("entries-in-order", [str(e.v) for e in getattr(o.tree, kind).values()] == [str(k) for k in ks])
    E.prove("values-in-order", list(o.lls.li) == ks)


def text_keys(E, M):
    """entries with keys of any text"""
    f = E.choose("format", ["default", "ietf"])
    mapkeys.roundtrip(E, M, lambda b, o: load(M, f, dump(M, f, o), b.mk()))


HARNESSES = [
    H(text_keys, covers=["round-trip"], conc=300, models=[], shards=6, sym_s=60),
    H(scalars, covers=["round-trip"], conc=500, models=["va"], sym_s=60, shards=4),
    H(unions, covers=["round-trip"], conc=200, models=["va"]),
    H(list_entries, covers=["round-trip"], conc=200, models=["va"]),
    H(long_lists, sym=False, conc=28, models=["va"]),
    H(generated, sym=False, conc=700),
]
