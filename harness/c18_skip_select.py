"""C18: skipping subtrees and selecting entries removes exactly those from a dump."""
import json
import os
import tempfile
import random
from collections import OrderedDict

from pyvc.runner import H
from harness import mapkeys, schema as S, state
from harness.common import attempt
from harness.trees import Sets
from harness.c11_documents import same_doc

LEVEL = "proof"
ASSUME = [
    "json.dumps writes the tree that it is given (the proofs are about this tree, the sweeps parse the text)",
    "a path names elements as the schema does, without keys; no entry passed has a key that is the name of an element (then the path may mean the entry)",
    "a path that is the dumped element itself, or one above it, is not part of the statement",
]
SETS = Sets("ss", n=7, size=18, feat=("topleaf",))


def prepare(tmp, seed, thorough):
    return dict(SETS.prepare(tmp, seed, thorough), mk=mapkeys.build(tmp))


def document(E, M, text):
    if not E.symbolic:
        return json.loads(text, object_pairs_hook=OrderedDict)
    s = M.ser
    ser = s.IETFYangDataSerialiser() if text.cls is s.pybindIETFJSONEncoder else s.YangDataSerialiser()
    return ser.preprocess_element(text.tree)


SKIPS = [  # path -> is (mode-free) removed from the document: names
    "/tree/inner", "/tree/inner/x", "/tree/inner/deep/z", "/tree/inn", "/tree/inner/xx", "/inner/x", "/tree/inner/x/y", "/tree/sk", "/tree/sk/v", "/tree/sk/tags", "/tree", "/types/u8", "/tree/sk/v/w",
    "/tree/augc/al", "/tree/inner/augx", "/nope/tree/inner/x", "/tree/deep", "/tree/inner/deep",
]


def prune(d, path):
    """the document without the elements at the path"""
    if isinstance(d, list):
        return [prune(e, path) if isinstance(e, dict) else e for e in d]
    if not isinstance(d, dict):
        return d
    out = {}
    for k, x in d.items():
        if k.split(":")[-1] != path[0]:
            out[k] = x
        elif len(path) > 1:
            out[k] = prune(x, path[1:]) if not isinstance(x, Entries) else Entries(prune(list(x), path[1:]))
    return out


class Entries(list):
    """entries of a list of the default JSON, in the order of the document"""


def skipping(E, M):
    """any values and keys, a selection of paths, documents of the top, a container, a list and an entry of it"""
    va = M.b("va").va()
    t = va.tree
    v, w, k = E.int("v", lo=-100, hi=100), E.int("w", lo=0, hi=9), E.int("k", lo=0, hi=10**6)
    t.inner.x = v
    t.inner.augx = v
    t.inner.deep.z = w
    t.augc.al = 5
    va.types.u8 = 7
    n1, n2 = E.fmt("n{}", k), "other"
    for n in (n1, n2):
        e = t.sk.add(n)
        e.v = w
        e.tags.append("t")
    mode = E.choose("mode", ["default", "ietf"])
    entry = lambda n: {"name": n, "v": w, "tags": ["t"]}
    es = [entry(n1), entry(n2)]
    z = E.numeral(w) if mode == "ietf" else w
    whole = {"types": {"u8": 7}, "tree": {"inner": {"x": v, "deep": {"z": z}, "vc:augx": v}, "sk": Entries(es), "vc:augc": {"al": 5}}}
    at = E.choose("at", ["top", "tree", "sk", "entry"])
    o = {"top": va, "tree": t, "sk": t.sk, "entry": list(t.sk.values())[0]}[at]
    base = {"top": [], "tree": ["tree"], "sk": ["tree", "sk"], "entry": ["tree", "sk"]}[at]
    want = {"top": whole, "tree": whole["tree"], "sk": Entries(es), "entry": es[0]}[at]
    paths = [E.choose("path", SKIPS)]
    if E.choose("more", [False, True]):
        paths.append(E.choose("path2", ["/tree/inner/deep/z", "/tree/sk/v", "/tree/nope"]))
    for p in paths:
        names = p.split("/")[1:]
        E.assume(len(names) > len(base) or names != base[:len(names)])
        if names[:len(base)] == base:
            want = prune(want, names[len(base):]) if not isinstance(want, Entries) else Entries(prune(list(want), names[len(base):]))
    before = state.snap(va)
    given = list(paths)
    doc = document(E, M, M.pj.dumps(o, mode=mode, skip_subtrees=paths))
    compare(E, M, doc, want, mode, top=True)
    E.prove("dumping-changes-nothing", state.same(E, before, state.snap(va)))
    E.prove("paths-unchanged", paths == given)
    E.reach("skipped")


def compare(E, M, doc, want, mode, top=False):
    """the document of a mode is the expected one, in which names have a prefix where IETF JSON puts it"""
    if isinstance(want, Entries):
        got = list(doc) if mode == "ietf" else list(doc.values())
        E.prove("entries", len(got) == len(want) and (not want or isinstance(doc, list) == (mode == "ietf")))
        for a, b in zip(got, want):
            compare(E, M, a, b, mode, top=top and mode == "ietf")
        return
    if not isinstance(want, dict):
        if isinstance(want, list):
            E.prove("value", len(doc) == len(want) and all(a == b for a, b in zip(doc, want)))
        else:
            E.prove("value", doc == want)
        return
    names = {}
    for k in want:
        names[k.split(":")[-1] if mode == "default" else k if ":" in k or not top else "va:" + k] = want[k]
    E.prove("members", sorted(doc.keys()) == sorted(names.keys()))
    for k, x in names.items():
        compare(E, M, doc[k], x, mode)


def selecting(E, M):
    """any values and keys: the entries whose named value, possibly nested, is the one selected"""
    va = M.b("va").va()
    mode = E.choose("mode", ["default", "ietf"])
    kind = E.choose("by", ["v", "key", "nested", "deeper", "two", "absent", "unknown", "prefix"])
    a, b, s = E.int("a", lo=-50, hi=50), E.int("b", lo=-50, hi=50), E.int("s", lo=-60, hi=60)
    k = E.int("k", lo=0, hi=99)
    as_text = E.choose("as-text", [False, True])
    if kind in ("v", "key", "two", "absent", "unknown", "prefix"):
        l = va.tree.sk
        es = [l.add(E.fmt("n{}", k)), l.add("m")]
        es[0].v = a
        if kind != "absent":
            es[1].v = b
        vs = [a, b]
    else:
        l = va.tree.one
        es = [l.add(k), l.add(100)]
        es[0].c.w, es[1].c.w = a, b
        if kind == "deeper":
            es[0].augone.q, es[1].augone.q = k, 100
        vs = [a, b]
    sv = E.numeral(s) if as_text else s
    eq = lambda x: x == s
    if kind == "v":
        sel, want = {"v": sv}, [eq(a), eq(b)]
    elif kind == "key":
        sel, want = {"name": E.fmt("n{}", s)}, [k == s, False]
    elif kind == "nested":
        sel, want = {"c.w": sv}, [eq(a), eq(b)]
    elif kind == "deeper":
        sel, want = {"augone.q": sv, "c.w": a}, [k == s, E.And(s == 100, b == a)]
    elif kind == "two":
        sel, want = {"name": "m", "v": sv}, [False, eq(b)]
    elif kind == "absent":
        sel, want = {"v": sv}, [eq(a), False]
    elif kind == "unknown":
        sel, want = {"nope": sv}, [False, False]
    else:
        sel, want = {"name.v": sv, "v": sv}, [False, False]
    before = state.snap(va)
    doc = document(E, M, M.pj.dumps(l, mode=mode, select=sel))
    got = list(doc) if mode == "ietf" else list(doc.values())
    want = [bool_of(x) for x in want]
    E.prove("as-many-entries", len(got) == len([x for x in want if x]))
    i = 0
    for e, x, v in zip(es, want, vs):
        if not x:
            continue
        g = got[i]
        i += 1
        p = "va:" if mode == "ietf" else ""
        if kind in ("nested", "deeper"):
            E.prove("the-selected-entry", E.And(g[p + "k"] == e.k, g[p + "c"]["w"] == v))
        else:
            E.prove("the-selected-entry", E.And(g[p + "name"] == e.name, g[p + "v"] == v))
        E.reach("selected")
    E.prove("dumping-changes-nothing", state.same(E, before, state.snap(va)))


def entries_of_any_key(E, M):
    """paths within a list whose entries have keys of any text, brackets and quotes included: documents of the container, the list and an entry"""
    mode = E.choose("mode", ["default", "ietf"])
    kind = E.choose("list", ["s", "p"])
    of = E.choose("of", ["entry"] if E.symbolic else ["entry", "list", "container"])
    skip = E.choose("skip", ["v", "zz"] if E.symbolic else ["v", "zz", "t", "v/a", ""])
    o = M.b("mk").mk()
    l = getattr(o.c, kind)
    words = mapkeys.WORDS + "[]()'\" "
    key = tuple(E.text("k-" + n, words, ["a", "a[b", "[", "x]", "a[0]", "b['c']", "[x='1']"]) for n in mapkeys.KEYS[kind])
    for n in ("v", "t", "a", "zz"):
        E.assume(E.Not(mapkeys.whole(E, key) == n))
    e = l.add(**mapkeys.kw(kind, key))
    v = E.int("v", lo=-100, hi=100)
    e.v = v
    e.t.append("x")
    x = {"entry": e, "list": l, "container": o.c}[of]
    path = "/c/" + kind + ("/" + skip if skip else "")
    doc = document(E, M, M.pj.dumps(x, mode=mode, skip_subtrees=[path]))
    p = "mk:" if mode == "ietf" else ""
    if of == "container":
        E.prove("the-list-itself", (p + kind in doc) == (skip != ""))
        if not skip:
            return
        doc = doc[p + kind]
        p = ""
    elif not skip:
        return  # the path of the dumped element itself, or above it
    if of != "entry":
        doc = list(doc) if mode == "ietf" else list(doc.values())
        E.prove("the-entry", len(doc) == 1)
        doc = doc[0]
    want = dict(zip(mapkeys.KEYS[kind], key), v=v, t=["x"])
    want.pop(skip, None)
    if of == "list":
        p = "mk:" if mode == "ietf" else ""
    same_doc(E, doc, {p + n: y for n, y in want.items()})
    E.prove("dumping-changes-nothing", E.And(e.v == v, len(e.t) == 1))
    E.reach("an entry")


def bool_of(x):
    return True if x else False


# ------------------------------------------------------------ bounded: random schemas
def prune_doc(doc, children, path, mode):
    """remove the elements at the path of names from a document of these schema nodes (in place)"""
    for k in list(doc):
        name = k.split(":")[-1] if mode == "ietf" else k
        if name != path[0]:
            continue
        cs = [c for c, _ in S.flatten(children) if c.name == name]
        if not cs:
            continue
        c = cs[0]
        if len(path) == 1:
            del doc[k]
        elif c.kind == "container":
            prune_doc(doc[k], c.children, path[1:], mode)
        elif c.kind == "list":
            for e in doc[k].values() if mode == "default" else doc[k]:
                prune_doc(e, c.children, path[1:], mode)


def all_paths(children, prefix=()):
    for c, _ in S.flatten(children):
        yield prefix + (c.name,), c
        if c.kind in ("container", "list"):
            yield from all_paths(c.children, prefix + (c.name,))


def objects(o, children, prefix=()):
    """(object, schema node or None for an entry, children, path, is an entry)"""
    for c, _ in S.flatten(children):
        x = getattr(o, c.safe)
        p = prefix + (c.name,)
        if c.kind == "container":
            yield x, c, p, False
            yield from objects(x, c.children, p)
        elif c.kind == "list":
            yield x, c, p, False
            for e in x.values():
                if c.keys:
                    yield e, c, p, True
                yield from objects(e, c.children, p)


def generated_skip(E, M):
    """random trees, elements of them, paths: existing, near, too deep, and of other elements"""
    b, g, t, o, r = SETS.draw(E, M)
    mode = E.choose("mode", ["default", "ietf"])
    flt = E.choose("filter", [True, False])
    names = {n for p, _ in all_paths(g.root.children) for n in p}
    ps = [p for p, _ in all_paths(g.root.children)]
    cands = [(o, None, (), False)] + [x for x in objects(o, g.root.children)]
    x, c, base, entry = r.choice(cands)
    paths = []
    for _ in range(r.randint(1, 4)):
        p = list(r.choice(ps if r.random() < 0.5 else [q for q in ps if q[:len(base)] == base and len(q) > len(base)] or ps))
        q = r.random()
        if q < 0.1:
            i = r.randrange(len(p))
            p[i] = r.choice([p[i] + "x", p[i][:-1] or "z", "zz"])
        elif q < 0.2:
            p += [r.choice(sorted(names))]
        elif q < 0.25 and len(p) > 1:
            del p[r.randrange(len(p))]
        if tuple(p) == base[:len(p)]:
            continue
        paths.append(tuple(p))
    kw = dict(mode=mode, filter=flt)
    a = state.snap(o)
    full = M.pj.dumps(x, **kw)
    doc = json.loads(full)
    # an entry that has the name of an element as its key could be meant by the path
    if mode == "default":
        for y, d, _, e in cands:
            if d is not None and d.kind == "list" and not e and any(k in names or k.endswith("zz") for k in map(str, y.keys())):
                return
    for p in paths:
        if p[:len(base)] == base:
            rest = list(p[len(base):])
            if c is None:
                prune_doc(doc, g.root.children, rest, mode)
            elif c.kind == "list" and not entry:
                for e in doc.values() if mode == "default" else doc:
                    prune_doc(e, c.children, rest, mode)
            else:
                prune_doc(doc, c.children, rest, mode)
    given = ["/" + "/".join(p) for p in paths]
    arg = list(given)
    got = json.loads(M.pj.dumps(x, skip_subtrees=arg, **kw))
    E.prove("without-exactly-these" if got == doc else "without-exactly-these: %s at /%s in mode %s" % (given, "/".join(base), mode), got == doc)
    E.prove("arguments-unchanged", arg == given)
    if r.random() < 0.3:
        E.prove("the-same-in-a-file", json.loads(to_file(M, x, skip_subtrees=arg, **kw)) == doc)
    E.prove("dumping-changes-nothing", state.same(E, a, state.snap(o)) and M.pj.dumps(x, **kw) == full)


def to_file(M, x, **kw):
    fd, p = tempfile.mkstemp()
    os.close(fd)
    try:
        M.pj.dump(x, p, **kw)
        with open(p) as f:
            return f.read()
    finally:
        os.unlink(p)


def leaf_values(o, children, prefix=()):
    """the values an entry can be selected by: names through containers -> the element"""
    for c, _ in S.flatten(children):
        x = getattr(o, c.safe)
        if c.kind == "leaf" and x._changed():
            if c.t.kind == "empty":
                continue
            yield prefix + (c.name,), x
        elif c.kind == "container":
            yield from leaf_values(x, c.children, prefix + (c.name,))


def generated_select(E, M):
    """random lists of random trees, selections of one or two values of some of their entries"""
    b, g, t, o, r = SETS.draw(E, M)
    mode = E.choose("mode", ["default", "ietf"])
    ls = [(x, c) for x, c, _, e in objects(o, g.root.children) if c.kind == "list" and not e and len(x)]
    E.assume(bool(ls))
    l, c = r.choice(ls)
    es = list(l.values())
    vals = [dict((".".join(p), str(v)) for p, v in leaf_values(e, c.children)) for e in es]
    pool = [(p, v) for d in vals for p, v in d.items()]
    E.assume(bool(pool))
    sel = dict(r.sample(pool, min(len(pool), r.choice([1, 1, 2]))))
    q = r.random()
    if q < 0.15:
        sel[r.choice(sorted(sel))] = "no such value"
    elif q < 0.25:
        sel["no-such-leaf"] = "1"
    elif q < 0.35:
        k = r.choice(sorted(sel))
        sel[k] = sel[k] + "x"
    want = [all(d.get(p) == v for p, v in sel.items()) for d in vals]
    full = json.loads(M.pj.dumps(l, mode=mode), object_pairs_hook=OrderedDict)
    a = state.snap(o)
    got = json.loads(M.pj.dumps(l, mode=mode, select=dict(sel)), object_pairs_hook=OrderedDict)
    if mode == "ietf":
        exp = [e for e, w in zip(full, want) if w]
        ok = got == exp
    else:
        exp = [e for e, w in zip(full.items(), want) if w]
        for d in list(got.values()) + [x for _, x in exp]:
            d.pop("__yang_order", None)  # the position within the document
        ok = list(got.items()) == exp
    E.prove("exactly-the-selected-entries" if ok else "exactly-the-selected-entries: %s of %s in mode %s" % (sel, c.name, mode), ok)
    E.prove("dumping-changes-nothing", state.same(E, a, state.snap(o)))


HARNESSES = [
    H(skipping, covers=["skipped"], conc=400, models=["va"], shards=8),
    H(entries_of_any_key, covers=["an entry"], conc=200, models=[], shards=4, sym_s=200),
    H(selecting, covers=["selected"], conc=400, models=["va"], shards=8),
    H(generated_skip, sym=False, conc=500),
    H(generated_select, sym=False, conc=400),
]
