"""C14: loading JSON merges, overwrites or refuses as asked."""
import copy
import json
import random
from collections import OrderedDict

from pyvc.runner import H
from harness import mapkeys, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "documents are those that json.loads makes (dict, list, str, int, float, bool, None)",
    "the order of the values of a leaf-list, and of list entries, after a merge is not part of the statement",
]
SETS = Sets("sm", n=6, size=16, feat=("topleaf",))
LO, HI = -(2**31), 2**31 - 1


def prepare(tmp, seed, thorough):
    return dict(SETS.prepare(tmp, seed, thorough), mk=mapkeys.build(tmp))


def load(M, f, doc, obj, **kw):
    d = M.ser.pybindJSONDecoder
    return (d.load_ietf_json if f == "ietf" else d.load_json)(doc, None, None, obj=obj, **kw)


def q(f, n):
    """a top-level name in this format"""
    return "va:" + n if f == "ietf" else n


def merging(E, M):
    """any values, any keys: what the document has is set, and what it has not is kept or removed"""
    va = M.b("va").va()
    f = E.choose("format", ["default", "ietf"])
    over = E.choose("overwrite", [False, True])
    what = E.choose("what", ["leaves", "list", "leaf-list", "nested"])
    v1, v2 = E.int("old", lo=-100, hi=100), E.int("new", lo=LO, hi=HI)
    t = va.tree
    va.types.u8 = 7
    if what == "leaves":
        t.inner.x = v1
        t.inner.y = "kept"
        t.inner.deep.z = 3
        load(M, f, {q(f, "tree"): {"inner": {"x": v2}}}, va, overwrite=over)
        E.prove("set-to-the-new-value", t.inner.x == v2)
        if over:
            E.prove("removed-from-the-container", not t.inner.y._changed() and not t.inner.deep.z._changed())
        else:
            E.prove("others-kept", E.And(t.inner.y == "kept", t.inner.y._changed(), t.inner.deep.z == 3))
    elif what == "list":
        k1, k2 = E.int("k1", lo=LO, hi=HI), E.int("k2", lo=LO, hi=HI)
        kind = E.choose("list", ["sk", "two"])
        n1, n2 = (E.fmt("n{}", k1), E.fmt("n{}", k2)) if kind == "sk" else ("x y", "x y")
        if kind == "sk":
            e = t.sk.add(n1)
            e.v = v1
            e.tags.append("t")
            doc = [(n2, {"name": n2, "v": v2})] if f == "default" else [{"name": n2, "v": v2}]
        else:
            e = t.two.add(a=n1, b_c=k1)
            e.v = "old"
            doc = [(E.fmt("x y {}", k2), {"a": n2, "b-c": k2, "v": "new"})] if f == "default" else [{"a": n2, "b-c": k2, "v": "new"}]
        # a model of a mapping of JSON: keys of the document are concrete or symbolic text
        load(M, f, {q(f, "tree"): {kind: M.builtin("dict")(doc) if f == "default" else doc}}, va, overwrite=over)
        l = getattr(t, kind)
        same = k1 == k2
        if same:
            E.prove("one-entry", len(l) == 1)
            x = list(l.values())[0]
            E.prove("set-to-the-new-value", x.v == (v2 if kind == "sk" else "new"))
            if kind == "sk":
                E.prove("rest-of-the-entry", len(x.tags) == (0 if over else 1))
            E.reach("the same entry")
        else:
            E.prove("entries", len(l) == (1 if over else 2))
            es = list(l.values())
            E.prove("the-new-entry", E.And(es[-1].v == (v2 if kind == "sk" else "new"), es[-1].name == n2 if kind == "sk" else es[-1].b_c == k2))
            if not over:
                E.prove("the-old-entry-is-kept", E.And(es[0].v == (v1 if kind == "sk" else "old"), es[0].name == n1 if kind == "sk" else es[0].b_c == k1))
            E.reach("another entry")
    elif what == "leaf-list":
        a, b = E.int("a", lo=LO, hi=HI), E.int("b", lo=LO, hi=HI)
        va.lls.li = [v1, 200]
        E.assume(E.Not(a == b))
        va.lls.ls = ["s"]
        load(M, f, {q(f, "lls"): {"li": [a, b]}}, va, overwrite=over)
        l = va.lls.li
        E.prove("as-many-values", len(l) == 2)
        E.prove("the-values-of-the-document", E.Or(E.And(l[0] == a, l[1] == b), E.And(l[0] == b, l[1] == a)))
        if not over:
            E.prove("others-kept", len(va.lls.ls) == 1)
    else:
        k = E.int("k", lo=0, hi=99)
        e = t.one.add(k)
        e.c.w = v1
        s = e.sub.add("s1")
        s.n = 4
        name = E.choose("name", ["s1", "s2", "x y"])
        if f == "default":
            doc = {"one": M.builtin("dict")([(E.numeral(k), {"k": k, "sub": {name: {"name": name, "n": v2}}})])}
        else:
            doc = {"one": [{"k": k, "sub": [{"name": name, "n": v2}]}]}
        load(M, f, {q(f, "tree"): doc}, va, overwrite=over)
        E.prove("one-entry", len(t.one) == 1)
        e = list(t.one.values())[0]
        E.prove("set-to-the-new-value", e.sub[name].n == v2)
        E.prove("nested-entries", len(e.sub) == (1 if over or name == "s1" else 2))
        if over:
            E.prove("rest-of-the-entry", not e.c.w._changed())
        else:
            E.prove("rest-of-the-entry", e.c.w == v1)
            if name != "s1":
                E.prove("the-old-entry-is-kept", e.sub["s1"].n == 4)
    E.prove("elsewhere-kept", va.types.u8 == 7)


def merging_text_keys(E, M):
    """entries with keys of any text, of one to three parts"""
    f = E.choose("format", ["default", "ietf"])
    over = E.choose("overwrite", [False, True])
    kind = E.choose("list", ["s", "p", "q"])
    k1, k2 = mapkeys.draw(E, kind, 2)
    o = M.b("mk").mk()
    v1, v2 = E.int("old", lo=-100, hi=100), E.int("new", lo=LO, hi=HI)
    l = getattr(o.c, kind)
    e = l.add(**mapkeys.kw(kind, k1))
    e.v = v1
    e.t.append("t")
    m = dict(zip(mapkeys.KEYS[kind], k2), v=v2)
    doc = [(mapkeys.whole(E, k2), m)] if f == "default" else [m]
    load(M, f, {"c" if f == "default" else "mk:c": {kind: M.builtin("dict")(doc) if f == "default" else doc}}, o, overwrite=over)
    l = getattr(o.c, kind)
    es = list(l.values())
    if mapkeys.same(E, k1, k2):
        E.prove("one-entry", len(l) == 1)
        E.prove("rest-of-the-entry", len(es[0].t) == (0 if over else 1))
        E.reach("the same entry")
    else:
        E.prove("entries", len(l) == (1 if over else 2))
        if not over:
            E.prove("the-old-entry-is-kept", E.And(es[0].v == v1, len(es[0].t) == 1, *[a == b for a, b in zip(mapkeys.leaves(kind, es[0]), k1)]))
        E.reach("another entry")
    E.prove("the-values-of-the-document", E.And(es[-1].v == v2, *[a == b for a, b in zip(mapkeys.leaves(kind, es[-1]), k2)]))


UNKNOWN = ["nope", "no-pe", "changed", "path", "x.y", "k2", "Inner", "inner_", "__yang_order2", "tree", "parent", "types"]


def unknown_members(E, M):
    """a member that the schema does not have: an error, or no effect at all, at every depth"""
    va = M.b("va").va()
    f = E.choose("format", ["default", "ietf"])
    skip = E.choose("skip", [False, True])
    w, v = E.int("w", lo=0, hi=9), E.int("v", lo=LO, hi=HI)
    over = E.choose("overwrite", [False, True])
    at = E.choose("at", ["top", "tree", "inner", "deep", "entry", "entry-c", "pres"])
    value = E.choose("value", ["scalar", "object", "list", "objects", "null", "text"] if not E.symbolic else ["scalar", "object", "objects"])
    n = E.choose("name", UNKNOWN if not E.symbolic else UNKNOWN[:1])
    first = E.choose("first", [False, True] if not E.symbolic else [True])
    junk = {"scalar": v, "object": {"x": v}, "list": [v], "objects": [{"k": v}], "null": None, "text": "t"}[value]
    if n == "tree" and at == "top" or n == "types" and at == "top":
        n = "nowhere"
    if f == "ietf" and not E.symbolic and E.choose("prefix", [False, True]):
        n = E.choose("module", ["va:", "vb:", "other:"]) + n

    def m(place, d):
        if place != at:
            return d
        return dict([(n, junk)] + list(d.items())) if first else dict(list(d.items()) + [(n, junk)])

    entry = m("entry", {"k": 5, "c": m("entry-c", {"w": w})})
    tree = m("tree", {"inner": m("inner", {"x": v, "deep": m("deep", {"z": 3})}), "one": {"5": entry} if f == "default" else [entry], "pres": m("pres", {"p": w})})
    doc = m("top", {q(f, "tree"): tree})
    ok, e = attempt(load, M, f, doc, va, exc=(AttributeError, TypeError, ValueError, KeyError), overwrite=over, **({"skip_unknown": True} if skip else {}))
    E.prove("accepted-iff-skipping", ok == skip)
    if ok:
        o = M.b("va").va()
        o.tree.inner.x = v
        o.tree.inner.deep.z = 3
        o.tree.one.add(5).c.w = w
        o.tree.pres.p = w
        E.prove("no-effect", {x[0] for x in state.snap(va) if x[2]} == {x[0] for x in state.snap(o) if x[2]})
        E.prove("the-rest-is-loaded", E.And(va.tree.inner.x == v, va.tree.inner.deep.z == 3, len(va.tree.one) == 1, list(va.tree.one.values())[0].c.w == w))
        E.reach("skipped")
    else:
        E.reach("refused")


def annotated(E, M):
    """annotations (RFC 7952) of a document in IETF JSON: kept with the element that they are about, no effect on the data"""
    over = E.choose("overwrite", [False, True])
    at = E.choose("at", ["leaf", "container", "in", "entry", "entry-leaf", "presence", "nested"])
    first = E.choose("first", [False, True])
    other = E.choose("other", [False, True])
    v, w, a = E.int("v", lo=LO, hi=HI), E.int("w", lo=0, hi=9), E.int("annotation")

    def m(place, d, n="@"):
        if place != at:
            return d
        notes = {"ex:note": a}
        if other:
            notes["ex:second"] = "t"
        return dict([(n, notes)] + list(d.items())) if first else dict(list(d.items()) + [(n, notes)])

    inner = m("in", m("leaf", {"x": v, "deep": m("nested", {"z": 3}, "@z")}, "@x"))
    entry = m("entry", m("entry-leaf", {"k": 5, "c": {"w": w}, "v": "u"}, "@v"))
    tree = m("container", {"inner": inner, "one": [entry], "pres": m("presence", {"p": w})}, "@inner")
    va = M.b("va").va()
    load(M, "ietf", {"va:tree": tree}, va, overwrite=over)
    o = M.b("va").va()
    o.tree.inner.x = v
    o.tree.inner.deep.z = 3
    e = o.tree.one.add(5)
    e.c.w = w
    e.v = "u"
    o.tree.pres.p = w
    E.prove("no-effect-on-the-data", state.same(E, state.snap(va), state.snap(o)))
    t = va.tree
    x = list(t.one.values())[0]
    about = {"leaf": t.inner.x, "container": t.inner, "in": t.inner, "entry": x, "entry-leaf": x.v, "presence": t.pres, "nested": t.inner.deep.z}
    for n, y in about.items():
        d = y._metadata
        if y is about[at]:
            E.prove("kept-with-the-element", sorted(d) == (["ex:note", "ex:second"] if other else ["ex:note"]))
            E.prove("kept-as-given", d["ex:note"] == a)
        else:
            E.prove("not-with-another", not len(d))
    E.reach("annotated")


def merge(tree, doc, children, over):
    """the model of loading doc onto tree (in place)"""
    where = {c: ch for c, ch in S.flatten(children)}
    for c, x in doc.items():
        for choice, case in where[c]:
            for other in choice.children:
                if other is not case:
                    for d, _ in S.flatten(other.children):
                        tree.pop(d, None)
        if c.kind in ("leaf", "leaf-list"):
            tree[c] = x
        elif c.kind == "container":
            if over or c not in tree:
                tree[c] = {}
            merge(tree[c], x, c.children, over)
        else:
            if over or c not in tree:
                tree[c] = []
            for e in x:
                old = [o for o in tree[c] if c.keys and key(c, o) == key(c, e)]
                if old:
                    merge(old[0], e, c.children, over)
                else:
                    n = {}
                    merge(n, e, c.children, over)
                    tree[c].append(n)
    return tree


def key(c, e):
    return tuple(S.keytext(e[k]) for k in c.keys)


def differs(obj, tree, children, path=""):
    """None, or where the object differs from the model, up to the order of entries and values"""
    for c, _ in S.flatten(children):
        p, o, x = path + "/" + c.name, getattr(obj, c.safe), tree.get(c)
        if c.kind == "leaf":
            if (x is not None) != bool(o._changed()) or x is not None and not S.same(o, x):
                return "%s: is %r (changed: %s), should be %r" % (p, o, o._changed(), x)
        elif c.kind == "leaf-list":
            got = list(o)
            if len(got) != len(x or []) or not all(any(S.same(a, b) for a in got) for b in x or []):
                return "%s: is %r, should be %r" % (p, got, x)
        elif c.kind == "container":
            if c.presence and o._present() is not (x is not None):
                return "%s: present is %r, should be %r" % (p, o._present(), x is not None)
            d = differs(o, x or {}, c.children, p)
            if d:
                return d
        else:
            es = list(o.values())
            if len(es) != len(x or []):
                return "%s: %d entries, should be %d" % (p, len(es), len(x or []))
            for i, b in enumerate(x or []):
                if c.keys:
                    m = [a for a in es if all(S.same(getattr(a, k.safe), b[k]) for k in c.keys)]
                    if len(m) != 1:
                        return "%s: %d entries with key %s" % (p, len(m), key(c, b))
                    a = m[0]
                else:
                    a = es[i]
                d = differs(a, b, c.children, p + "[]")
                if d:
                    return d
    return None


def idkeys(tree):
    return any(c.kind == "list" and any(k.t.kind == "identityref" for k in c.keys) or c.kind in ("list", "container") and any(idkeys(y) for y in (x if c.kind == "list" else [x])) for c, x in tree.items())


def generated(E, M):
    """random pairs of an existing tree and a document, with and without overwrite and junk members"""
    b, g, t1, o1, r = SETS.draw(E, M)
    f = E.choose("format", ["default", "ietf"])
    over = E.choose("overwrite", [False, True])
    t2 = S.rand_tree(r, g.root.children, r.choice([0.2, 0.5, 0.8]))
    if r.random() < 0.6:
        t2 = overlap(r, t1, t2, g.root.children)
    if f == "ietf" and (idkeys(t1) or idkeys(t2)):
        return  # keys with and without the name of the module: one identity in two forms
    o2 = S.apply(t2, getattr(b, g.p)(), r)
    doc = json.loads(M.pj.dumps(o2, mode="default" if f == "default" else "ietf"), object_pairs_hook=OrderedDict)
    junk = E.choose("junk", ["none", "skip", "refuse"])
    n = 0
    if junk != "none":
        n = spoil(r, doc, t2, f)
        if junk == "refuse":
            ok, _ = attempt(load, M, f, doc, o1, exc=(AttributeError, KeyError, TypeError, ValueError), overwrite=over)
            E.prove("refused-iff-unknown", ok == (n == 0))
            return
    kw = {"skip_unknown": True} if junk == "skip" else {}
    load(M, f, doc, o1, overwrite=over, **kw)
    want = merge(S_copy(t1), t2, g.root.children, over)
    d = differs(o1, want, g.root.children)
    E.prove("merged" if d is None else "merged: %s (format %s, overwrite %s, junk %s)" % (d, f, over, n), d is None)
    # and the functions of the module, which read text
    if not n:
        o3 = S.apply(t1, getattr(b, g.p)(), r)
        o4 = load(M, f, json.loads(json.dumps(doc), object_pairs_hook=OrderedDict), o3, overwrite=over)
        E.prove("returns-the-object", o4 is o3)


def S_copy(t):
    return {c: (S_copy(x) if c.kind == "container" else [S_copy(e) for e in x] if c.kind == "list" else x) for c, x in t.items()}


def overlap(r, t1, t2, children):
    """some of the entries of the existing tree, with other content"""
    out = dict(t2)
    for c, x in t1.items():
        if c.kind == "list" and c.keys and r.random() < 0.7:
            es = []
            for e in x:
                if r.random() < 0.6:
                    n = {k: e[k] for k in c.keys}
                    n.update({k: v for k, v in S.rand_tree(r, c.children, 0.5).items() if not k.iskey})
                    es.append(n)
            have = {key(c, e) for e in es}
            es += [e for e in out.get(c, []) if key(c, e) not in have]
            if es:
                drop_other_cases(out, c, children)
                out[c] = es
        elif c.kind == "container" and r.random() < 0.7:
            y = overlap(r, x, out.get(c, {}), c.children)
            if y or c.presence:
                drop_other_cases(out, c, children)
                out[c] = y
    return out


def drop_other_cases(t, c, children):
    for d, ch in S.flatten(children):
        if d is c:
            for choice, case in ch:
                for other in choice.children:
                    if other is not case:
                        for q, _ in S.flatten(other.children):
                            t.pop(q, None)


def spoil(r, doc, tree, f, p=0.5):
    """put unknown members into the document, at any depth -> how many"""
    n = 0
    for k, x in list(doc.items()):
        c = [c for c in tree if c.name == k.split(":")[-1]]
        if not c:
            continue
        c = c[0]
        if c.kind == "container":
            n += spoil(r, x, tree[c], f, p)
        elif c.kind == "list" and c.keys:
            for e, y in zip(x.values() if f == "default" else x, tree[c]):
                if isinstance(e, dict):
                    n += spoil(r, e, y, f, p)
    if r.random() < p:
        k = r.choice(["unknown-member", "zz.z", "zzz_"])
        if f == "ietf" and r.random() < 0.5:
            k = "some-module:" + k
        doc[k] = r.choice([1, "x", None, {}, {"a": {"b": 1}}, [1, 2], [{"k": 1}], [None], True, 1.5])
        if r.random() < 0.5:
            doc.move_to_end(k, last=False)
        n += 1
    return n


HARNESSES = [
    H(merging, covers=["the same entry", "another entry"], conc=300, models=["va"], shards=4, sym_s=60),
    H(merging_text_keys, covers=["the same entry", "another entry"], conc=300, models=[], shards=4, sym_s=60),
    H(unknown_members, covers=["skipped", "refused"], conc=400, models=["va"], shards=4, sym_s=60),
    H(annotated, covers=["annotated"], conc=150, models=["va"], sym_s=60),
    H(generated, sym=False, conc=500),
]
