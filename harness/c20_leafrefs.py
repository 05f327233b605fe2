"""C20: a leafref is valid exactly when the referenced value exists."""
import json
import random

from pyvc.runner import H
from harness import gen
from harness.common import attempt

LEVEL = "proof"
ASSUME = [
    "the contract: YANGPathHelper.get as assumed from C15 (it returns the elements at a path), in the place of which stands a table of them; the sweeps use the real one",
    "values are offered in the form in which the referenced node reads, or as its text",
    "induction over histories: at most two referenced entries or values (sweeps: any number), any values, then one assignment",
]
ANY = (TypeError, ValueError, KeyError, AttributeError)
LR = """module lr { yang-version 1.1; namespace "urn:lr"; prefix lr;
  container c {
    list l { key name; leaf name { type string; } leaf v { type int32; } leaf inner { type leafref { path "../../k/n"; } } }
    list k { key n; leaf n { type int32; } leaf w { type string; } }
    leaf-list ls { type string; }
    leaf-list li { type int16; }
    leaf single { type int16 { range "-100..100"; } }
    leaf abs { type leafref { path "/lr:c/lr:l/lr:name"; } }
    leaf rel { type leafref { path "../l/name"; } }
    leaf num { type leafref { path "../k/n"; } }
    leaf texts { type leafref { path "../ls"; } }
    leaf numbers { type leafref { path "../li"; } }
    typedef lt { type leafref { path "/lr:c/lr:l/lr:name"; } }
    leaf typed { type lt; }
    leaf loose { type leafref { path "../l/name"; require-instance false; } }
    leaf loosenum { type leafref { path "../k/n"; require-instance false; } }
    leaf-list many { type leafref { path "../k/n"; } }
    list refkey { key name; leaf name { type leafref { path "../../k/n"; } } leaf z { type int8; } }
    leaf chained { type leafref { path "../refkey/name"; } }
    leaf pointer { type leafref { path "../single"; } }
    container deep { leaf up { type leafref { path "../../k/n"; } } }
  }
}"""
# leaf: (path as written, kind of target, path of the leaf itself, must it exist)
REFS = {
    "abs": ("/lr:c/lr:l/lr:name", "l", ["c", "abs"], True),
    "rel": ("../l/name", "l", ["c", "rel"], True),
    "num": ("../k/n", "k", ["c", "num"], True),
    "texts": ("../ls", "ls", ["c", "texts"], True),
    "numbers": ("../li", "li", ["c", "numbers"], True),
    "typed": ("/lr:c/lr:l/lr:name", "l", ["c", "typed"], True),
    "loose": ("../l/name", "l", ["c", "loose"], False),
    "loosenum": ("../k/n", "k", ["c", "loosenum"], False),
    "up": ("../../k/n", "k", ["c", "deep", "up"], True),
}
SETS = []


def prepare(tmp, seed, thorough):
    del SETS[:]
    SETS.extend(Gen("%s/%d" % (seed, i), "lg%d" % i) for i in range(24 if thorough else 8))
    flags = ("--use-xpathhelper", "--presence")
    return {
        "lr": gen.build(tmp, "lr", LR, flags=flags),
        "lg": gen.build(tmp, "lg", {g.name: g.text for g in SETS}, flags=flags),
    }


# ---------------------------------------------------------------- the contract


def registry(M):
    class Registry(M.mod("xpathhelper").YANGPathHelper):
        """the contract of the path helper: the elements at each path, as the harness made them"""

        def __init__(self):
            self.table, self.callers = {}, []

        def register(self, *a, **k):
            return True

        def unregister(self, *a, **k):
            return None

        def get(self, path, caller=False):
            if isinstance(path, list) or path not in self.table:
                return []
            self.callers.append((path, caller))
            return self.table[path]()

    return Registry()


def keyed(l, leaf):
    return lambda: [getattr(e, leaf) for e in l.values()]


def value(E, kind, n):
    if kind == "l" and E.choose("text", ["numbered"] if E.symbolic else ["numbered", "any"]) == "numbered":
        return E.fmt("n{}", E.int("number-" + n, lo=0, hi=10**9))
    if kind in ("l", "ls"):
        v = E.str(n, pool=["a", "b", "ab", "a b", "7"] + ([""] if kind == "ls" else []))
        if kind == "l":
            E.assume(E.Not(v == ""))  # no entry has an empty key
        return v
    if kind == "li":
        return E.int(n, lo=-(2**15), hi=2**15 - 1)
    return E.int(n, lo=-(2**31), hi=2**31 - 1)


def text(E, kind, v):
    return v if kind in ("l", "ls") else E.numeral(v)


def make(E, M):
    ph = registry(M)
    o = M.b("lr").lr(path_helper=ph)
    c = o.c
    for p in ("/lr:c/lr:l/lr:name", "../l/name"):
        ph.table[p] = keyed(c.l, "name")
    ph.table["../k/n"] = ph.table["../../k/n"] = keyed(c.k, "n")
    ph.table["../refkey/name"] = keyed(c.refkey, "name")
    ph.table["../ls"] = lambda: [c.ls]
    ph.table["../li"] = lambda: [c.li]
    ph.table["../single"] = lambda: [c.single]
    return ph, o, c


def fill(E, c, kind, vs):
    if kind == "l":
        for v in vs:
            c.l.add(v)
    elif kind == "k":
        for v in vs:
            c.k.add(v)
    else:
        setattr(c, kind, vs)


def held(E, kind, leaf, v):
    """the leafref reads as v"""
    return E.M_str(leaf) == text(E, kind, v)


def assigned(E, M):
    """any referenced values, any value assigned"""
    E.M_str = M.builtin("str")
    ph, o, c = make(E, M)
    leaf = E.choose("leaf", sorted(REFS))
    path, kind, own, must = REFS[leaf]
    n = E.choose("values", [0, 1, 2])
    vs = [value(E, kind, "w%d" % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.Not(vs[i] == vs[j]))
    fill(E, c, kind, vs)
    at = c.deep if leaf == "up" else c
    before = None
    if n and E.choose("earlier", [False, True]):
        setattr(at, leaf, vs[0])
        before = vs[0]
    v = value(E, kind, "v")
    exists = E.Or(*[v == w for w in vs]) if vs else False
    offered = v if kind in ("l", "ls") else E.choose("form", ["value", "text"])
    offered = v if kind in ("l", "ls") or offered == "value" else E.numeral(v)
    del ph.callers[:]
    ok, e = attempt(setattr, at, leaf, offered, exc=ANY)
    if must:
        E.prove("accepted-iff-the-value-exists", E.Iff(ok, exists))
        E.prove("looked-up-from-the-leaf", bool(ph.callers) and all(q == (path, own) for q in ph.callers))
    else:
        E.prove("accepted-iff-no-instance-is-required", ok)
    x = getattr(at, leaf)
    if ok:
        E.prove("reads-as-the-value", held(E, kind, x, v))
        E.prove("is-set", x._changed())
        E.reach("accepted")
    else:
        E.prove("refused-with-ValueError", isinstance(e, ValueError))
        E.prove("stays-as-it-was", x._changed() == (before is not None))
        if before is not None:
            E.prove("keeps-its-value", held(E, kind, x, before))
        E.reach("refused")
    compare(E, c, kind, vs)


def compare(E, c, kind, vs):
    """the referenced data is as it was"""
    now = [e.name for e in c.l.values()] if kind == "l" else [e.n for e in c.k.values()] if kind == "k" else list(getattr(c, kind))
    E.prove("referenced-data-is-unchanged", len(now) == len(vs) and E.And(*[a == b for a, b in zip(now, vs)]))


def lists(E, M):
    """leaf-lists and list keys which are leafrefs"""
    E.M_str = M.builtin("str")
    ph, o, c = make(E, M)
    n = E.choose("values", [0, 1, 2])
    vs = [value(E, "k", "w%d" % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.Not(vs[i] == vs[j]))
    fill(E, c, "k", vs)
    v = value(E, "k", "v")
    exists = E.Or(*[v == w for w in vs]) if vs else False
    what = E.choose("what", ["append", "assign", "assign-two", "add", "chained"])
    if what in ("append", "assign"):
        ok, e = attempt(c.many.append, v, exc=ANY) if what == "append" else attempt(setattr, c, "many", [v], exc=ANY)
        E.prove("accepted-iff-the-value-exists", E.Iff(ok, exists))
        if ok:
            E.prove("holds-the-value", len(c.many) == 1 and held(E, "k", c.many[0], v))
        else:
            E.prove("refused-with-ValueError", isinstance(e, ValueError))
            E.prove("holds-nothing", len(c.many) == 0)
    elif what == "assign-two":
        u = value(E, "k", "u")
        E.assume(E.Not(u == v))
        ok, e = attempt(setattr, c, "many", [v, u], exc=ANY)
        both = E.And(exists, E.Or(*[u == w for w in vs])) if vs else False
        E.prove("accepted-iff-both-exist", E.Iff(ok, both))
        if not ok:
            E.prove("holds-nothing", len(c.many) == 0)
        else:
            E.prove("holds-both", len(c.many) == 2 and E.And(held(E, "k", c.many[0], v), held(E, "k", c.many[1], u)))
    elif what == "add":
        ok, e = attempt(c.refkey.add, v, exc=ANY)
        E.prove("added-iff-the-value-exists", E.Iff(ok, exists))
        E.prove("holds-the-entry", len(c.refkey) == (1 if ok else 0))
        if ok:
            E.prove("the-key-leaf-reads-as-the-value", [held(E, "k", x.name, v) for x in c.refkey.values()][0])
    else:
        if n:
            c.refkey.add(vs[0])
        ok, e = attempt(setattr, c, "chained", v, exc=ANY)
        E.prove("accepted-iff-the-leafref-has-the-value", E.Iff(ok, v == vs[0] if n else False))
        if ok:
            E.prove("reads-as-the-value", held(E, "k", c.chained, v))
    E.reach(what + ("" if ok else "-refused"))
    compare(E, c, "k", vs)


def pointer(E, M):
    """a leafref to a single leaf reads as that leaf, and writes it"""
    E.M_str = M.builtin("str")
    ph, o, c = make(E, M)
    if E.choose("set", [False, True]):
        c.single = 7
    v = E.int("v")
    ok, e = attempt(setattr, c, "pointer", v, exc=ANY)
    E.prove("accepted-iff-valid-for-the-leaf", E.Iff(ok, E.And(v >= -100, v <= 100)))
    if ok:
        E.prove("reads-as-the-value", held(E, "k", c.pointer, v))
        E.prove("the-leaf-has-the-value", c.single == v)
        w = E.int("w", lo=-100, hi=100)
        c.single = w
        E.prove("reads-as-the-leaf", held(E, "k", c.pointer, w))
        E.reach("accepted")
    else:
        E.prove("refused-with-ValueError", isinstance(e, ValueError))
        E.prove("is-unset", not c.pointer._changed())
        E.reach("refused")


# ---------------------------------------------------------------- generated modules

TYPES = {
    "string": ["a", "b", "ab", "a b", "7", "x.y", "A", "0"],
    "int8": [-128, -1, 0, 5, 7, 127],
    "uint64": [0, 5, 7, 2**64 - 1],
    "enumeration { enum a; enum b; enum on-hold; }": ["a", "b", "on-hold"],
    "tdint": [1, 5, 7, 20],
}


class Node:
    def __init__(self, kind, name, parent, **k):
        self.kind, self.name, self.parent, self.kids = kind, name, parent, []
        self.keys, self.type, self.ref = [], None, None
        self.__dict__.update(k)
        if parent is not None:
            parent.kids.append(self)
        self.safe = name.replace("-", "_").replace(".", "_")

    def path(self):
        return (self.parent.path() if self.parent is not None else []) + ([self] if self.parent is not None else [])


class Gen:
    """a module of nested containers and lists, with leafrefs to the keys and leaf-lists in it"""

    def __init__(self, seed, name):
        r = self.r = random.Random("leafref/%s" % seed)
        self.name, self.n = name, 0
        self.root = Node("module", name, None)
        self.nodes = []
        top = self.node("container", self.root)
        for i in range(r.randint(3, 5)):
            self.data(top, 0)
        if not self.targets():
            self.data(top, 0, "list")
        for i in range(r.randint(7, 12)):
            self.leafref(r.choice([n for n in self.nodes if n.kind in ("container", "list")]))
        self.text = "module %s { yang-version 1.1; namespace 'urn:%s'; prefix p;\n typedef tdint { type int16 { range '1..30'; } }\n%s\n}" % (name, name, "\n".join(self.print(n) for n in self.root.kids))

    def node(self, kind, parent, **k):
        self.n += 1
        n = Node(kind, "%s%s%d" % ({"container": "c", "list": "l", "leaf": "f", "leaf-list": "s", "ref": "r"}[kind], self.r.choice(["", "-", "."]), self.n), parent, **k)
        self.nodes.append(n)
        return n

    def data(self, parent, depth, kind=None):
        r = self.r
        kind = kind or r.choice(["list", "list", "leaf-list", "container"] if depth < 2 else ["list", "leaf-list"])
        n = self.node(kind, parent)
        if kind == "leaf-list":
            n.type = r.choice(sorted(TYPES))
        elif kind == "list":
            for i in range(r.choice([1, 1, 2])):
                n.keys.append(self.node("leaf", n, type=r.choice(sorted(TYPES))))
            if r.random() < 0.5 and depth < 2:
                self.data(n, depth + 1)
        else:
            for i in range(r.randint(1, 2)):
                self.data(n, depth + 1)
        return n

    def targets(self):
        return [n for n in self.nodes if (n.kind == "leaf-list" and n.type) or (n.kind in ("leaf", "ref") and n.parent.kind == "list" and n in n.parent.keys)]

    def leafref(self, parent):
        """one leafref under parent to some target"""
        r = self.r
        t = r.choice(self.targets())
        kind = r.choice(["leaf", "leaf", "leaf", "leaf-list", "key"])
        if kind == "key":
            parent = self.node("list", parent)
        n = self.node("ref", parent, ll=kind == "leaf-list", must=r.random() < 0.85)
        if kind == "key":
            n.must = True
            parent.keys.append(n)
        n.ref, n.type = t, t.type
        n.preds = {}
        # the last list on the way may have a predicate on one key with the value of another leafref nearby
        up = [x for x in n.path()]
        down = t.path()
        common = 0
        while common < min(len(up) - 1, len(down) - 1) and up[common] is down[common]:
            common += 1
        n.abs = r.random() < 0.4
        steps = down if n.abs else down[common:]
        pre = lambda s: ("p:" if r.random() < 0.5 else "") + s
        out = []
        for s in steps:
            x = pre(s.name)
            if s.kind == "list" and len(s.keys) == 2 and t in s.keys and kind == "leaf":
                k = [q for q in s.keys if q is not t][0]
                if k.ref is None:
                    # beside it, further down, or beside what it is in
                    where, to = parent, ""
                    for _ in range(r.choice([0, 0, 1, 2])):
                        where = self.node("container", where)
                        to += pre(where.name) + "/"
                    if where is parent and parent.parent is not self.root and parent.kind == "container" and r.random() < 0.4:
                        where, to = parent.parent, "../"
                    aid = self.node("ref", where, ll=False, must=False, preds={}, abs=False, common=None)
                    aid.ref, aid.type = k, k.type
                    aid.pathtext, aid.common = self.plain(aid, k)
                    aid.place = where
                    x += "[%s=current()/../%s%s]" % (pre(k.name), to, pre(aid.name))
                    n.preds[s] = (k, aid)
            out.append(x)
        n.common = common
        n.pathtext = "/" + "/".join(out) if n.abs else "../" * (len(up) - common) + "/".join(out)

    def plain(self, n, t):
        up, down, common = n.path(), t.path(), 0
        while common < min(len(up) - 1, len(down) - 1) and up[common] is down[common]:
            common += 1
        return "../" * (len(up) - common) + "/".join(s.name for s in down[common:]), common

    def print(self, n):
        if n.kind == "ref":
            kind = "leaf-list" if n.ll else "leaf"
            return "%s %s { type leafref { path \"%s\"; %s} }" % (kind, n.name, n.pathtext, "" if n.must else "require-instance false; ")
        if n.kind in ("leaf", "leaf-list"):
            return "%s %s { type %s%s }" % (n.kind, n.name, n.type, "" if n.type.endswith("}") else ";")
        return "%s %s {%s\n%s\n}" % (n.kind, n.name, " key '%s';" % " ".join(k.name for k in n.keys) if n.kind == "list" else "", "\n".join(self.print(k) for k in n.kids))


def instances(node, obj, above):
    """(node, object that holds it, chain of (node, object) from the top) for everything in the tree"""
    for k in node.kids:
        x = getattr(obj, k.safe)
        yield k, x, above
        if k.kind == "container":
            yield from instances(k, x, above + [(k, x)])
        elif k.kind == "list":
            for e in x.values():
                yield from instances(k, e, above + [(k, e)])


def values(n, x):
    return [str(v) for v in x] if n.kind == "leaf-list" else [str(x)]


def locate(above, aid):
    """what holds the leaf that a predicate refers to"""
    chain = aid.place.path()
    at = [q for q, _ in above]
    k = 0
    while k < min(len(chain), len(at)) and chain[k] is at[k]:
        k += 1
    x = above[k - 1][1]
    for q in chain[k:]:
        x = getattr(x, q.safe)
    return x


def resolve(n, above):
    """the texts which the leafref n, with the elements above it, may have"""
    if n.abs or n.common == 0:
        start, obj, steps = None, above[0][1]._parent, n.ref.path()
    else:
        obj, steps = above[n.common - 1][1], n.ref.path()[n.common :]
    found = []
    places = [obj]
    for s in steps[:-1]:
        out = []
        for p in places:
            x = getattr(p, s.safe)
            if s.kind == "list":
                es = list(x.values())
                if s in n.preds:
                    k, aid = n.preds[s]
                    want = getattr(locate(above, aid), aid.safe)
                    es = [e for e in es if want._changed() and str(getattr(e, k.safe)) == str(want)]
                out.extend(es)
            else:
                out.append(x)
        places = out
    for p in places:
        found.extend(values(steps[-1], getattr(p, steps[-1].safe)))
    return found


def history(E, M):
    """histories on generated modules: entries and values added and removed, leafrefs assigned"""
    g = E.choose("set", SETS)
    r = random.Random("lr/%d" % E.seed("seed"))
    pj = M.mod("pybindJSON")
    o = getattr(M.b("lg"), g.name)(path_helper=M.mod("xpathhelper").YANGPathHelper())
    log = []
    for i in range(E.choose("steps", [10, 25, 40])):
        every = list(instances(g.root, o, []))
        refs = [q for q in every if q[0].kind == "ref" and q[0] not in q[0].parent.keys]
        rest = [q for q in every if q[0].kind in ("list", "leaf-list") and q[0].kind != "ref"]
        before = pj.dumps(o, mode="ietf")
        if refs and r.random() < 0.5:
            n, x, above = r.choice(refs)
            step(E, M, g, o, r, n, x, above, before, log)
            continue
        n, x, above = r.choice(rest)
        if n.kind == "leaf-list":
            v = r.choice(TYPES[n.type])
            if v in list(x):
                x.remove(v)
                log.append("%s.remove(%r)" % (n.name, v))
            else:
                x.append(v)
                log.append("%s.append(%r)" % (n.name, v))
        elif len(x) and r.random() < 0.35:
            k = r.choice(list(x.keys()))
            x.delete(k)
            log.append("%s.delete(%r)" % (n.name, k))
        else:
            ks = [r.choice(TYPES[base(k).type]) for k in n.keys]
            text = " ".join(str(k) for k in ks)
            if text in [str(q) for q in x.keys()]:
                continue
            if len(ks) == 1 and n.keys[0].kind == "ref":
                can = str(ks[0]) in resolve(n.keys[0], above + [(n, Later(n, ks))])
                ok, e = attempt(x.add, ks[0], exc=ANY)
                log.append("%s.add(%r) %s" % (n.name, ks[0], ok))
                E.prove("key-is-accepted-iff-the-value-exists: %s after %s" % (log[-1], log[-6:-1]) if ok != can else "key-is-accepted-iff-the-value-exists", ok == can)
                if not ok:
                    E.prove("a-refused-key-changes-nothing", pj.dumps(o, mode="ietf") == before)
            elif len(ks) == 1:
                x.add(ks[0])
                log.append("%s.add(%r)" % (n.name, ks[0]))
            else:
                x.add(**{k.safe: v for k, v in zip(n.keys, ks)})
                log.append("%s.add(%r)" % (n.name, ks))


class Later:
    """an entry which has yet to be made"""

    def __init__(self, n, ks):
        pass


def base(n):
    while n.ref is not None:
        n = n.ref
    return n


def step(E, M, g, o, r, n, x, above, before, log):
    pj = M.mod("pybindJSON")
    can = resolve(n, above)
    parent = above[-1][1]
    pool = TYPES[base(n).type]
    native = {str(v): v for v in pool}
    near = [native[t] for t in can if t in native]
    pick = lambda: r.choice(near) if near and r.random() < 0.5 else r.choice(pool)
    where = lambda: "/".join(q[0].name for q in above) + "/" + n.name + " -> " + n.pathtext
    if n.ll:
        how = r.choice(["append", "assign"])
        vs = [pick()] if how == "append" else list(dict.fromkeys(pick() for _ in range(r.randint(1, 3))))
        had = [str(q) for q in x]
        ok, e = attempt(x.append, vs[0], exc=ANY) if how == "append" else attempt(setattr, parent, n.safe, vs, exc=ANY)
        want = not n.must or all(str(v) in can for v in vs)
        log.append("%s %s %r %s" % (where(), how, vs, ok))
        E.prove("accepted-iff-the-values-exist" if ok == want else "accepted-iff-the-values-exist: %s after %s" % (log[-1], log[-6:-1]), ok == want)
        x = getattr(parent, n.safe)
        if ok:
            now = [str(q) for q in x]
            exp = had + [str(v) for v in vs if str(v) not in had] if how == "append" else [str(v) for v in vs]
            E.prove("holds-the-values" if now in (exp, had + [str(v) for v in vs]) else "holds-the-values: %s, not %s after %s" % (now, exp, log[-5:]), now == exp or (how == "append" and now == had + [str(v) for v in vs]))
    else:
        v = pick()
        f = str(v) if r.random() < 0.3 else v
        ok, e = attempt(setattr, parent, n.safe, f, exc=ANY)
        want = not n.must or str(v) in can
        log.append("%s = %r %s" % (where(), f, ok))
        E.prove("accepted-iff-the-value-exists" if ok == want else "accepted-iff-the-value-exists: %s (%s) after %s" % (log[-1], can, log[-6:-1]), ok == want)
        x = getattr(parent, n.safe)
        if ok:
            E.prove("reads-as-the-value", str(x) == str(v))
            E.prove("is-set", x._changed())
            if f is v and n.must:
                doc = pj.dumps(parent, mode="ietf")
                want = json.loads(doc).get("%s:%s" % (g.name, n.name), json.loads(doc).get(n.name))
                exp = str(v) if base(n).type == "uint64" else v
                E.prove("serialises-as-the-value" if want == exp else "serialises-as-the-value: %r, not %r: %s" % (want, exp, log[-1]), want == exp)
    if not ok:
        E.prove("refused-with-ValueError", isinstance(e, ValueError))
        now = pj.dumps(o, mode="ietf")
        E.prove("a-refused-value-changes-nothing" if now == before else "a-refused-value-changes-nothing: %s" % log[-1], now == before)


HARNESSES = [
    H(assigned, covers=["accepted", "refused"], models=[], conc=400, shards=4),
    H(lists, covers=["append", "append-refused", "assign-two", "add", "add-refused", "chained"], models=[], conc=300, shards=2),
    H(pointer, covers=["accepted", "refused"], models=[], conc=100),
    H(history, sym=False, conc=500, models=[]),
]
