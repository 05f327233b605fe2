"""C11: serialised documents hold exactly the set data, correctly named."""
import json

from pyvc.runner import H
from harness import schema as S
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "json.dumps and lxml's tostring write the trees they are given; the proofs are about these trees, the sweeps parse the text",
]
SETS = Sets("sn", n=7, size=18, feat=("topleaf",))


def prepare(tmp, seed, thorough):
    return SETS.prepare(tmp, seed, thorough)


# path in the corpus, YANG names with module where it differs from the parent's
NODES = {
    "inner.x": ("va:tree", "inner", "x"), "inner.augx": ("va:tree", "inner", "vc:augx"), "augc.al": ("va:tree", "vc:augc", "al"),
    "aug": ("va:tree", "vc:aug"), "inner.deep.z": ("va:tree", "inner", "deep", "z"), "ip": ("va:tree", "ip"), "port": ("va:tree", "port"),
    "pres.p": ("va:tree", "pres", "p"), "top": ("va:tree", "top"),
}
TEXT = {"aug", "ip", "top"}
BIG = {"inner.deep.z"}


def put(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def plain(E, M, x):
    """nested plain dicts of a document tree whose leaves are elements"""
    if hasattr(x, "items") and not hasattr(x, "_yang_type"):
        return {k: plain(E, M, v) for k, v in x.items()}
    return x


def same_doc(E, got, want, tag=""):
    """the two nested documents have the same members; leaves are compared as obligations"""
    E.prove("members" + tag, sorted(map(str, got.keys())) == sorted(want.keys()))
    for k in want:
        if isinstance(want[k], dict):
            E.prove("nested" + tag, hasattr(got[k], "keys"))
            same_doc(E, got[k], want[k], tag)
        elif isinstance(want[k], list) and want[k] and isinstance(want[k][0], dict):
            E.prove("entries" + tag, isinstance(got[k], list) and len(got[k]) == len(want[k]))
            for a, b in zip(got[k], want[k]):
                same_doc(E, a, b, tag)
        elif isinstance(want[k], list):
            E.prove("values" + tag, isinstance(got[k], list) and len(got[k]) == len(want[k]))
            for a, b in zip(got[k], want[k]):
                E.prove("leaf" + tag, a == b)
        else:
            E.prove("leaf" + tag, got[k] == want[k])


def documents(E, M):
    """all values, a chosen subset of nodes of two modules: both JSON documents, with and without filtering"""
    b = M.b("va")
    va = b.va()
    names = E.choose("nodes", [
        [], ["inner.x"], ["inner.augx"], ["inner.x", "inner.augx"], ["augc.al"], ["aug", "top"], ["inner.deep.z", "augc.al"],
        ["ip", "port", "aug"], ["pres.p"], ["inner.x", "inner.augx", "augc.al", "aug", "inner.deep.z", "port", "top"],
    ])
    pres = E.choose("present", [False, True])
    ietf, plain_ = {}, {}
    for n in names:
        v = E.str(n) if n in TEXT else E.int(n)
        if n == "ip":
            v = "10.0.0.1"
        o = va.tree
        for s in n.split(".")[:-1]:
            o = getattr(o, s)
        try:
            setattr(o, n.split(".")[-1], v)
        except ValueError:
            return
        put(ietf, NODES[n], E.numeral(v) if n in BIG else v)
        put(plain_, ["tree"] + n.split("."), v)
    if pres:
        va.tree.epres._set_present()
        put(ietf, ("va:tree", "epres"), {})
        put(plain_, ("tree", "epres"), {})
    s = M.ser
    doc = s.IETFYangDataSerialiser().preprocess_element(s.pybindIETFJSONEncoder.generate_element(va, flt=True))
    same_doc(E, doc, ietf, "-ietf")
    doc = s.YangDataSerialiser().preprocess_element(va.get(filter=True))
    same_doc(E, doc, plain_, "-default")
    # a document that starts inside the tree
    doc = s.IETFYangDataSerialiser().preprocess_element(s.pybindIETFJSONEncoder.generate_element(va.tree, flt=True))
    same_doc(E, doc, {(k if ":" in k else "va:" + k): v for k, v in ietf.get("va:tree", {}).items()}, "-ietf-subtree")
    E.reach("documents")


def lists(E, M):
    """list entries: all values, up to three entries, in order of addition, in a plain, a user-ordered, and a two-key list"""
    b = M.b("va")
    va = b.va()
    n = E.choose("entries", [0, 1, 2, 3])
    kind = E.choose("list", ["one", "uo", "two"])
    ks = [E.int("k", lo=-(2**31), hi=2**31 - 1) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.Not(ks[i] == ks[j]))
    v = E.int("v", lo=0, hi=1000)
    want, names = [], []
    for k in ks:
        if kind == "one":
            e = va.tree.one.add(k)
            e.augv = "x"
            e.augone.q = v
            want.append({"k": k, "vc:augv": "x", "vc:augone": {"q": E.numeral(v)}})
        elif kind == "uo":
            e = va.tree.uo.add(E.fmt("n{}", k))
            e.v = v
            want.append({"name": E.fmt("n{}", k), "v": v})
        else:
            e = va.tree.two.add(a="x", b_c=k)
            want.append({"a": "x", "b-c": k})
    s = M.ser
    doc = s.IETFYangDataSerialiser().preprocess_element(s.pybindIETFJSONEncoder.generate_element(va, flt=True))
    same_doc(E, doc, {"va:tree": {kind: want}} if n else {}, "-ietf")
    d = s.YangDataSerialiser().preprocess_element(va.get(filter=True))
    E.prove("default-json-has-the-list", (len(d) > 0) == (n > 0))
    if n:
        es = list(d["tree"][kind].items())
        E.prove("default-json-entries", len(es) == n)
        for (k, e), w in zip(es, want):
            if kind == "one":
                E.prove("entry-key", k == w["k"])
                same_doc(E, e, {"k": w["k"], "augv": "x", "augone": {"q": v}}, "-default")
            elif kind == "uo":
                E.prove("entry-key", k == w["name"])
                E.prove("order-mark", e["__yang_order"] == want.index(w))
    E.reach("lists")


# ------------------------------------------------------------ bounded: random schemas
def generated_ietf(E, M):
    """IETF JSON text of random trees of random modules"""
    b, g, t, o, r = SETS.draw(E, M)
    doc = json.loads(M.pj.dumps(o, mode="ietf"))
    E.prove("ietf-document", S.jeq(doc, S.exp_ietf(t, g.root.children, None)))


def generated_default(E, M):
    """default JSON text of random trees of random modules"""
    b, g, t, o, r = SETS.draw(E, M)
    text = M.pj.dumps(o)
    doc = json.loads(text)
    E.prove("default-document", S.jeq(doc, S.exp_default(t, g.root.children)))
    E.prove("dumping-changes-nothing", S.diff(o, t, g.root.children) is None and M.pj.dumps(o) == text)


def generated_subtree(E, M):
    """documents of a container or list inside the tree"""
    b, g, t, o, r = SETS.draw(E, M)
    cs = [c for c, _ in S.flatten(g.root.children) if c.kind == "container" and c in t]
    E.assume(bool(cs))
    c = E.choose("container", cs)
    x = getattr(o, c.safe)
    E.prove("ietf-subtree", S.jeq(json.loads(M.pj.dumps(x, mode="ietf")), S.exp_ietf(t[c], c.children, None)))
    E.prove("default-subtree", S.jeq(json.loads(M.pj.dumps(x)), S.exp_default(t[c], c.children)))
    ls = [d for d in t[c] if d.kind == "list"]
    if ls:
        l = E.choose("list", ls)
        y = getattr(x, l.safe)
        E.prove("ietf-list", S.jeq(json.loads(M.pj.dumps(y, mode="ietf")), [S.exp_ietf(e, l.children, None) for e in t[c][l]]))


def xml_nodes(el):
    """[(namespace, name, text | [children])] of an element, as exp_xml"""
    from lxml import etree

    out = []
    for c in el:
        q = etree.QName(c)
        kids = xml_nodes(c)
        out.append((q.namespace, q.localname, kids if len(c) else c.text, c.nsmap))
    return out


def xml_same(got, want):
    """same elements; siblings of one name in the same order (lists, leaf-lists)"""
    key = lambda x: (x[0], x[1])
    got = sorted(got, key=key)
    want = sorted([("urn:" + m, n, x) for m, n, x in want], key=key)
    if [key(x) for x in got] != [key(x) for x in want]:
        return False
    for (ns, n, x, nsmap), (_, _, y) in zip(got, want):
        if isinstance(y, list):
            if not xml_same(x if isinstance(x, list) else [], y) or (not y and x):
                return False
        elif y is None or y == "":
            if x:
                return False
        elif not (S.jeq(x, y)):
            return False
        elif isinstance(y, str) and ":" in y and y.split(":")[0] in nsmap and nsmap[y.split(":")[0]] != "urn:" + y.split(":")[0]:
            return False
    return True


def generated_xml(E, M):
    """XML text of random trees of random modules"""
    from lxml import etree

    b, g, t, o, r = SETS.draw(E, M)
    doc = etree.fromstring(M.ser.pybindIETFXMLEncoder.serialise(o, pretty_print=E.choose("pretty", [True, False])), parser=etree.XMLParser(remove_blank_text=True))
    q = etree.QName(doc)
    E.prove("root-element", (q.namespace, q.localname) == ("urn:" + g.p, g.p))
    E.prove("xml-document", xml_same(xml_nodes(doc), S.exp_xml(t, g.root.children)))
    for el in doc.iter():
        if el.text and ":" in el.text and not len(el):
            p = el.text.split(":")[0]
            if p in (g.p, g.pt, g.px) and el.text.split(":")[1].startswith("ident"):
                E.prove("identity-prefix-is-declared", el.nsmap.get(p) == "urn:" + p)


HARNESSES = [
    H(documents, covers=["documents"], conc=200, models=["va"]),
    H(lists, covers=["lists"], conc=200, models=["va"]),
    H(generated_ietf, sym=False, conc=320),
    H(generated_default, sym=False, conc=240),
    H(generated_subtree, sym=False, conc=160),
    H(generated_xml, sym=False, conc=320),
]
