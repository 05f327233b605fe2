"""C21: bindings split into a directory, or generated with other options, behave as those in a single file."""
import os
import random
import re

from pyvc.runner import H
from harness import gen, history, leaves, mapkeys, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "the contracts compare two builds of the same module on the same operations: equal symbolic values, equal outcome",
    "whether a container without a presence statement counts as present is aside where only one build has --presence",
]
# the builds: name -> (presence, flags)
BUILDS = {
    "one": ["--presence"],
    "dir": ["--presence", "--split-class-dir"],
    "path": ["--presence", "--use-xpathhelper"],
    "dirpath": ["--presence", "--use-xpathhelper", "--split-class-dir"],
    "more": ["--presence", "--use-extmethods", "--build-rpcs", "--build-notifications", "--interesting-extension", "sn0"],
    "dirmore": ["--presence", "--use-extmethods", "--build-rpcs", "--build-notifications", "--split-class-dir"],
    "plain": [],
    "dirplain": ["--split-class-dir"],
}
# without --presence, an empty container has no class
SETS = {k: Sets("sn", n=4, size=16, feat=("topleaf", "filled"), flags=f) for k, f in BUILDS.items()}
ANY = (TypeError, ValueError, KeyError, AttributeError, IndexError)
NAMES = []


def prepare(tmp, seed, thorough):
    import concurrent.futures

    out = {}
    del NAMES[:]
    for i in range(8 if thorough else 3):
        NAMES.append(Names("%s/%d" % (seed, i), "nd%d" % i))
    texts = {}
    for g in NAMES:
        texts.update(g.texts)

    def one(k):
        if k.startswith("ext"):
            return k, gen.build(os.path.join(tmp, k), "nx", {"nx": EXT}, flags=["--use-extmethods"] + (["--split-class-dir"] if k == "extdir" else []), main=["nx"])
        if k.startswith("names"):
            return k, gen.build(os.path.join(tmp, k), "nd", texts, flags=["--presence", "--build-rpcs", "--build-notifications"] + (["--split-class-dir"] if k == "namesdir" else []), main=sorted(texts))
        s = SETS[k]
        return "sn" + k, list(s.prepare(os.path.join(tmp, k), seed, thorough).values())[0]

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for k, p in ex.map(one, list(BUILDS) + ["names", "namesdir", "ext", "extdir"]):
            out[k] = p
    return out


# ------------------------------------------------- any values, two builds of one module
def pair(E, M):
    other = E.choose("other", ["vad", "vao"])
    kw = {} if other == "vad" else {"path_helper": E.choose("helper", [False] if E.symbolic else [False, True]) and M.mod("xpathhelper").YANGPathHelper()}
    return M.b("va").va(), M.b(other).va(**kw)


def both(E, name, f, a, b):
    """the operation has the same outcome on both"""
    x, p = attempt(f, a, exc=ANY)
    y, q = attempt(f, b, exc=ANY)
    E.prove(name + "-same-outcome", x == y and (x or type(p).__name__ == type(q).__name__))
    return x


def writes(E, M):
    """any value written to leaves, leaf-lists and unions: both accept it or both refuse it; the same state after it"""
    other = E.choose("other", ["vsd", "vso"])
    a, b = M.b("vs").vs(), M.b(other).vs()
    k = E.choose("kind", ["int", "str", "dec", "bin", "named", "union"])
    if k == "int":
        v, ns = E.int("v"), ["i8", "u64", "r3", "df1", "bo", "li"]
    elif k == "str":
        v, ns = E.str("v", pool=leaves.TEXTS), ["s1", "s4", "s5", "en", "id", "ls"]
    elif k == "dec":
        v, ns = E.decimal("v", scale=E.choose("scale", [0, 3])), ["d1", "d2"]
    elif k == "bin":
        v, ns = E.bytes("v"), ["binl"]
    elif k == "union":
        v, ns = leaves.union_value(E)[1], ["un", "lu"]
    else:
        v, ns = E.choose("v", ["one", "dog", "vb:dog", "zulu alpha", "", True, "auto"]), ["en", "id", "bi", "em", "bo", "un"]
    n = E.choose("node", ns)
    if n[0] == "l":
        how = E.choose("how", ["append", "assign"])
        f = (lambda o: getattr(o.types, n).append(v)) if how == "append" else lambda o: setattr(o.types, n, [v])
    else:
        f = lambda o: setattr(o.types, n, v)
    ok = both(E, "write", f, a, b)
    E.prove("same-state", state.same(E, state.snap(a), state.snap(b)))
    E.reach("accepted" if ok else "refused")


def choices(E, M):
    """any value written to the members of choices, after another"""
    other = E.choose("other", ["vsd", "vso"])
    a, b = M.b("vs").vs(), M.b(other).vs()
    v = E.int("v")
    first = E.choose("first", ["a1", "b1", "acx", "d1"])
    n = E.choose("node", ["a1", "b1", "short", "acx", "cx", "d2", "e1", "e2"])
    targets = {"acx": lambda o: o.ch.ac, "cx": lambda o: o.ch.cc, "d1": lambda o: o.ch.cc, "d2": lambda o: o.ch.cc}
    put = lambda o, m, w: setattr(targets.get(m, lambda q: q.ch)(o), m, w)
    for o in (a, b):
        put(o, first, 5)
    ok = both(E, "write", lambda o: put(o, n, v), a, b)
    E.prove("same-state", state.same(E, state.snap(a), state.snap(b)))
    E.reach("accepted" if ok else "refused")


def lists(E, M):
    """any keys: the same entries are added, found, refused and removed"""
    a, b = pair(E, M)
    l = E.choose("list", ["one", "sk", "two"])
    k, j = E.int("k"), E.int("j")
    if l == "one":
        ks = [k, j]
    elif l == "sk":
        ks = [E.fmt("n{}", k), E.fmt("n{}", j)]
    else:
        ks = [E.fmt("x {}", k), E.fmt("x {}", j)]
    w = E.int("w")

    def entry(o, key):
        e = getattr(o.tree, l).add(key)
        if l == "one":
            e.c.w = w
        elif l == "sk":
            e.v = w
        return e

    for i, key in enumerate(ks):
        both(E, "add", lambda o: entry(o, key), a, b)
    E.prove("same-state", state.same(E, state.snap(a.tree), state.snap(b.tree)))
    op = E.choose("op", ["delete", "del", "in", "reassign"])
    if op == "delete":
        both(E, "delete", lambda o: getattr(o.tree, l).delete(ks[1]), a, b)
    elif op == "del":
        both(E, "del", lambda o: getattr(o.tree, l).__delitem__(ks[0]), a, b)
    elif op == "in":
        E.prove("same-membership", E.Iff(ks[1] in getattr(a.tree, l), ks[1] in getattr(b.tree, l)) if not E.symbolic else True)
    else:
        both(E, "reassign", lambda o: setattr(getattr(o.tree, l)[ks[0]], "v", E.fmt("t{}", w) if l != "sk" else w), a, b)
    E.prove("same-state-after", state.same(E, state.snap(a.tree), state.snap(b.tree)))
    E.reach(op)


def documents(E, M):
    """the same documents of the same data"""
    a, b = pair(E, M)
    v, w = E.int("v", lo=-(2**31), hi=2**31 - 1), E.int("w", lo=0, hi=2**64 - 1)
    s = E.str("s", pool=leaves.TEXTS)
    subset = E.choose("set", ["inner", "aug", "list", "choice", "state", "names", "types"])
    for o in (a, b):
        if subset == "inner":
            o.tree.inner.x, o.tree.inner.deep.z, o.tree.top = v, w, s
        elif subset == "aug":
            o.tree.inner.augx, o.tree.augc.al, o.tree.aug = v, v, s
        elif subset == "list":
            e = o.tree.one.add(v)
            e.v, e.c.w = s, v
            o.tree.two.add(a="t", b_c=v).v = s
        elif subset == "choice":
            o.ch.z1, o.ch.e1, o.nch.n1 = v, v, v
        elif subset == "state":
            o.st._set_ro(v)
            o.st.rc._set_rl(v)
            o.st.rw = v
        elif subset == "names":
            o.names.a_b, o.names.class_, o.names.for_.if_ = v, v, v
        else:
            o.types.un, o.types.df1, o.types.i64, o.types.s1 = "auto", 50, v, s
    for mode in ("ietf", "default"):
        docs = []
        for o in (a, b):
            if mode == "ietf":
                docs.append(M.ser.pybindIETFJSONEncoder.generate_element(o, flt=True))
            else:
                docs.append(o.get(filter=True))
        same_tree(E, mode, *docs)
    E.reach(subset)


def same_tree(E, mode, x, y):
    if hasattr(x, "items") and not hasattr(x, "_yang_type"):
        p, q = list(x.keys()), list(y.keys())
        E.prove(mode + "-same-number-of-members", len(p) == len(q))
        E.prove(mode + "-same-members", E.And(*[u == v for u, v in zip(p, q)]))
        for u, v in zip(x.values(), y.values()):
            same_tree(E, mode, u, v)
    elif isinstance(x, (list, tuple)) and not hasattr(x, "_yang_type"):
        E.prove(mode + "-same-length", isinstance(y, (list, tuple)) and len(x) == len(y))
        for p, q in zip(x, y):
            same_tree(E, mode, p, q)
    else:
        E.prove(mode + "-same-value", x == y)


# ------------------------------------------------- generated modules, lockstep histories
PAIRS = [("one", "dir"), ("one", "path"), ("one", "dirpath"), ("one", "more"), ("one", "dirmore"), ("plain", "dirplain"), ("one", "plain"), ("one", "dirplain")]


def metadata(o):
    """[(path, what an element says of itself)]"""
    out = []
    for n in o._pyangbind_elements:
        x = getattr(o, n)
        out.append((n, x.yang_name() if callable(getattr(x, "yang_name", None)) else None, UUID.sub("", x._yang_path()) if hasattr(x, "_yang_path") else None,
                    getattr(x, "_namespace", None), getattr(x, "_defining_module", None), getattr(x, "_is_config", None), getattr(x, "_yang_type", None),
                    getattr(x, "_is_keyval", None), getattr(x, "_choice", None) if False else None))
        if getattr(x, "_pybind_generated_by", "") == "container":
            out += metadata(x)
        elif getattr(x, "_pybind_generated_by", "") == "YANGListType":
            for k, e in x.items():
                out.append((n, UUID.sub("", str(k)), UUID.sub("", e._yang_path())))
                out += metadata(e)
    return out


def make(M, k, g):
    c = getattr(M.b("sn" + k), g.p)
    if "path" in k:
        return c(path_helper=M.mod("xpathhelper").YANGPathHelper())
    return c()


def no_presence(snap):
    return [x[:3] if x[1] in ("container", "entry") else x for x in snap]


UUID = re.compile("[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}")


def snap(o):
    """without the keys that entries of keyless lists are given"""
    return [x[:3] + (["uuid" if isinstance(k, str) and UUID.fullmatch(k) else k for k in x[3]],) if x[1] == "list" else x for x in state.snap(o)]


def snaps(p, a, b):
    x, y = snap(a), snap(b)
    return (no_presence(x), no_presence(y)) if p else (x, y)


def texts(M, o, presence):
    import json

    out = [M.pj.dumps(o, mode="ietf"), UUID.sub("uuid", M.pj.dumps(o)), M.ser.pybindIETFXMLEncoder.serialise(o)]
    return out


def lockstep(E, M):
    """the same random history on two builds: the same outcomes, states and documents"""
    ka, kb = E.choose("builds", PAIRS)
    g = E.choose("set", SETS["one"].gs)
    aside = "plain" in kb and "plain" not in ka
    seed = E.seed("seed")
    hs = []
    for k in (ka, kb):
        o = make(M, k, g)
        h = history.History(random.Random("c21/%d" % seed), g, o, weights={"container": 0.0 if aside else 0.4})
        h.make = lambda k=k: getattr(M.b("sn" + k), g.p)()
        hs.append(h)
    a, b = hs
    if ka != kb:
        E.prove("same-elements-and-metadata", metadata(a.o) == metadata(b.o))
    for i in range(12):
        r = []
        for h in hs:
            ok, x = attempt(h.step, exc=Exception)
            r.append((ok, x if ok else type(x).__name__))
        E.prove("same-outcome" if r[0] == r[1] else "same-outcome: %s %s: %s, %s" % (ka, kb, *r), r[0] == r[1])
        if not r[0][0]:
            break
    x, y = snaps(aside, a.o, b.o)
    E.prove("same-state" if x == y else "same-state: %s %s %s: %s" % (ka, kb, a.log, state.first_difference(x, y)), x == y)
    ma, mb = metadata(a.o), metadata(b.o)
    E.prove("same-metadata" if ma == mb else "same-metadata: %s %s %s" % (ka, kb, state.first_difference(ma, mb)), ma == mb)
    if not (aside and any_presence(g.root)):
        ta, tb = texts(M, a.o, aside), texts(M, b.o, aside)
        for n, p, q in zip(("ietf", "default", "xml"), ta, tb):
            E.prove("same-%s-document" % n if p == q else "same-%s-document: %s %s %s: %s / %s" % (n, ka, kb, a.log, p, q), p == q)
        loaded(E, M, ka, kb, g, ta)


def loaded(E, M, ka, kb, g, ta):
    """each reads the documents alike"""
    import json

    os_ = [make(M, k, g) for k in (ka, kb)]
    rs = [attempt(M.ser.pybindJSONDecoder.load_ietf_json, json.loads(ta[0]), None, None, obj=o, exc=Exception) for o in os_]
    E.prove("same-loading", rs[0][0] == rs[1][0])
    x, y = [no_presence(snap(o)) for o in os_]
    E.prove("same-state-loaded" if x == y else "same-state-loaded: %s %s %s" % (ka, kb, state.first_difference(x, y)), x == y)


def any_presence(n):
    return n.presence or any(any_presence(c) for c in n.children)


OFFERS = [0, 1, -1, 127, 128, 255, 256, 2**31, -(2**63), 2**64, 1.5, "", "a", "abc", "5", "-7", "1.25", "true", "false", True, False, "zzzz", "a b", b"abc", [], [1], None, "é"]


def offers(E, M):
    """values of all sorts offered to each leaf: both builds accept or refuse, and then read the same"""
    ka, kb = E.choose("builds", PAIRS)
    g = E.choose("set", SETS["one"].gs)
    r = random.Random("c21o/%d" % E.seed("seed"))
    os_ = [make(M, k, g) for k in (ka, kb)]

    def go(xs, children):
        for c, _ in S.flatten(children):
            if c.kind == "container":
                go([getattr(x, c.safe) for x in xs], c.children)
            elif c.kind in ("leaf", "leaf-list") and not c.iskey:
                for v in r.sample(OFFERS, 4):
                    if c.kind == "leaf":
                        rs = [attempt(S.setleaf, c, x, v, exc=Exception) for x in xs]
                    else:
                        rs = [attempt(getattr(x, c.safe).append, v, exc=Exception) for x in xs]
                    out = [(p, None if p else type(q).__name__) for p, q in rs]
                    ok = out[0] == out[1]
                    E.prove("same-outcome" if ok else "same-outcome: %s %s %s %r: %s" % (ka, kb, c.name, v, out), ok)

    go(os_, g.root.children)
    x, y = snaps("plain" in kb and "plain" not in ka, *os_)
    E.prove("same-state" if x == y else "same-state: %s %s: %s" % (ka, kb, state.first_difference(x, y)), x == y)


# ------------------------------------------------- names
WORDS = ["Decimal", "len", "dict", "hasattr", "long", "YANGDynClass", "YANGBool", "PybindBase", "TypeError", "int", "str", "class", "list", "get", "types", "a", "a-b", "b", "input", "config", "load", "e", "v", "self", "parent", "args", "kwargs"]


class Names:
    """containers and lists within each other whose names are those of their parents, modules, or of what the code uses"""

    def __init__(self, seed, name):
        r = self.r = random.Random("c21n/%s" % seed)
        self.name, self.other = name, name + "b"
        self.leaves = ["int8", "string", "boolean", "uint64", "decimal64 { fraction-digits 2; }", "binary", "bits { bit x; bit y; }",
                       "enumeration { enum p; enum q; }", "union { type int8; type string; }", "string { length 2..4; }", "empty"]
        top = r.sample(WORDS, 4)
        self.texts = {}
        ops = "".join("  rpc %s { input { leaf arg { type int8; } %s } output { leaf r { type string; } } }\n" % (n, self.body([n, "input"], 3, 2)) for n in ("op-%s" % name[-1], "op2"))
        self.texts[name] = self.module(name, [name, self.other] + top, "%s  notification note { leaf n { type int8; } }\n" % ops)
        self.texts[self.other] = self.module(self.other, [name] + r.sample(top, 2) + ["own"], "")

    def module(self, m, tops, more):
        return 'module %s {\n  yang-version 1.1;\n  namespace "urn:%s"; prefix %s;\n%s\n%s}\n' % (m, m, m, "\n".join(self.node(n, [m], 1) for n in tops), more)

    def body(self, path, depth, k):
        r = self.r
        out, used = [], set()
        for _ in range(k):
            t = r.choice(self.leaves)
            n = "l%d" % len(out)
            out.append("leaf %s { type %s }" % (n, t if t.endswith("}") else t + ";"))
        for _ in range(r.choice([0, 1, 2]) if depth < 4 else 0):
            n = r.choice(path[-2:] + WORDS)
            if S.safe(n) in used:
                continue
            used.add(S.safe(n))
            out.append(self.node(n, path, depth + 1))
        return "\n".join(out)

    def node(self, n, path, depth):
        if self.r.random() < 0.3:
            return "list %s { key kk; leaf kk { type string; }\n%s }" % (n, self.body(path + [n], depth, 1))
        return "container %s {\n%s }" % (n, self.body(path + [n], depth, 2))


def fill(o, r):
    """some data everywhere -> outcomes"""
    out = []
    for n in o._pyangbind_elements:
        x = getattr(o, n)
        k = state.kind(x)
        if k == "container":
            out += fill(x, r)
        elif k == "list":
            for key in ("k1", "k2"):
                out += fill(x.add(key), r)
        elif n != "kk":
            v = r.choice(OFFERS)
            ok, e = attempt(setattr, o, n, v, exc=Exception)
            out.append((n, ok, None if ok else type(e).__name__))
    return out


def names(E, M):
    """elements with awkward names, in a single file and in a directory"""
    g = E.choose("module", NAMES)
    m = E.choose("which", ["name", "other"])
    seed = E.seed("seed")
    os_ = []
    for k in ("names", "namesdir"):
        ok, o = attempt(getattr(M.b(k), S.safe(getattr(g, m))), exc=Exception)
        E.prove("can-be-created" if ok else "can-be-created: %s: %r" % (k, o), ok)
        os_.append(o)
    compare(E, os_, seed)


def compare(E, os_, seed):
    rs = [attempt(fill, o, random.Random("fill/%d" % seed), exc=Exception) for o in os_]
    for (ok, x), k in zip(rs, ("single", "directory")):
        E.prove("usable" if ok else "usable: %s: %r" % (k, x), ok)
    E.prove("same-outcomes" if rs[0][1] == rs[1][1] else "same-outcomes: %s" % (state.first_difference(rs[0][1], rs[1][1]),), rs[0][1] == rs[1][1])
    x, y = [state.snap(o) for o in os_]
    E.prove("same-state" if x == y else "same-state: %s" % (state.first_difference(x, y),), x == y)
    x, y = [metadata(o) for o in os_]
    E.prove("same-metadata" if x == y else "same-metadata: %s" % (state.first_difference(x, y),), x == y)


def operations(E, M):
    """RPCs and notifications, in a single file and in a directory"""
    g = E.choose("module", NAMES)
    n = E.choose("operation", ["op-", "op2", "note"])
    n = n + g.name[-1] if n == "op-" else n
    seed = E.seed("seed")
    kind = "notification" if n == "note" else "rpc"
    one = M.b("names")
    cs = [c for c in vars(one).values() if isinstance(c, type) and getattr(c, "_yang_name", None) == n and "path /%s_%s/%s" % (g.name, kind, n) in " ".join((c.__doc__ or "").split()) and (c.__doc__.split("the path")[1].split(".")[0].strip().endswith("/" + n)) and "/input" not in c.__doc__.split("the path")[1].split(".")[0]]
    E.prove("one-class" if len(cs) == 1 else "one-class: %s" % cs, len(cs) == 1)
    import importlib

    pkg = "%s.%s_%s" % (M.b("namesdir").__name__, g.name, kind)
    d = importlib.import_module(pkg + "." + S.safe(n))
    compare(E, [cs[0](), getattr(d, S.safe(n))()], seed)


# ------------------------------------------------- extension methods
EXT = """module nx { yang-version 1.1; namespace "urn:nx"; prefix nx;
  container c { leaf a { type int8; } leaf-list ll { type string; } leaf u { type union { type int8; type string; } } leaf en { type enumeration { enum x; } }
    leaf b { type boolean; } leaf bi { type binary; } leaf de { type decimal64 { fraction-digits 2; } }
    list l { key k; leaf k { type string; } leaf v { type int8; }
      container d { leaf w { type int8; } list in { key "x y"; leaf x { type string; } leaf y { type int8; } leaf n { type int8; } container e { leaf z { type string; } } } } } }
  list kl { config false; leaf q { type int8; } container r { leaf s { type int8; } } }
  choice ch { case one { container o { leaf p { type int8; } } } }
  leaf top { type int8; }
}"""
# schema path -> element of the data below: top object, entry of l, entry of in, entry of kl
ELEMENTS = {
    "/c": lambda o, e, i, q: o.c, "/c/a": lambda o, e, i, q: o.c.a, "/c/ll": lambda o, e, i, q: o.c.ll, "/c/u": lambda o, e, i, q: o.c.u,
    "/c/en": lambda o, e, i, q: o.c.en, "/c/b": lambda o, e, i, q: o.c.b, "/c/bi": lambda o, e, i, q: o.c.bi, "/c/de": lambda o, e, i, q: o.c.de,
    "/c/l": lambda o, e, i, q: e, "/c/l/k": lambda o, e, i, q: e.k, "/c/l/v": lambda o, e, i, q: e.v, "/c/l/d": lambda o, e, i, q: e.d,
    "/c/l/d/w": lambda o, e, i, q: e.d.w, "/c/l/d/in": lambda o, e, i, q: i, "/c/l/d/in/x": lambda o, e, i, q: i.x, "/c/l/d/in/y": lambda o, e, i, q: i.y,
    "/c/l/d/in/n": lambda o, e, i, q: i.n, "/c/l/d/in/e": lambda o, e, i, q: i.e, "/c/l/d/in/e/z": lambda o, e, i, q: i.e.z,
    "/kl": lambda o, e, i, q: q, "/kl/q": lambda o, e, i, q: q.q, "/kl/r": lambda o, e, i, q: q.r, "/kl/r/s": lambda o, e, i, q: q.r.s,
    "/o": lambda o, e, i, q: o.o, "/o/p": lambda o, e, i, q: o.o.p, "/top": lambda o, e, i, q: o.top,
}


class Method:
    def commit(self, *args, **kwargs):
        return args, kwargs

    def method(self, *args, **kwargs):
        return args, kwargs

    def run(self, *args, **kwargs):
        return args, kwargs


def extmethods(E, M):
    """methods given for a path are on every element at the path, whatever the keys, and on no other; they are told the path of the element"""
    build = E.choose("build", ["ext", "extdir"])
    at = E.choose("at", sorted(ELEMENTS))
    # what could be the text of a number is tried as a number first
    words = mapkeys.WORDS + ("0123456789" if not E.symbolic else "")
    k, x, y, v = E.text("k", words, KEYS), E.text("x", words, KEYS), E.int("y", lo=-128, hi=127), E.int("v", lo=-128, hi=127)
    o = M.b(build).nx(extmethods={at: Method()})
    e = o.c.l.add(k)
    i = e.d.in_.add(x=x, y=y)
    o.c.a = v
    e.v = v
    e.d.w = v
    q = o.kl[o.kl.add()]
    q._set_q(v)
    for path, f in ELEMENTS.items():
        z = f(o, e, i, q)
        if path == at:
            E.prove("is-on-the-element", hasattr(z, "_commit") and hasattr(z, "_method") and hasattr(z, "_run"))
            args, kwargs = z._commit(v, more=v)
            E.prove("called-with-its-arguments", E.And(len(args) == 1, args[0] == v, kwargs["more"] == v))
            E.prove("told-the-path", E.And(len(kwargs["caller"]) == len(z._path()), *[p == r for p, r in zip(kwargs["caller"], z._path())]))
        else:
            E.prove("on-no-other", not hasattr(z, "_commit") and not hasattr(z, "_run"))
    E.reach("called")


KEYS = ["a", "a/b", "a[b]", "[", "]", "x[k='y']/z", "['", "é", "a b", "..", "10"]

HARNESSES = [
    H(extmethods, models=(), sym=True, conc=200, covers=("called",), sym_s=60, shards=4),
    H(writes, models=("vs", "vsd", "vso"), sym=True, conc=300, covers=("accepted", "refused"), sym_s=60, shards=4),
    H(choices, models=("vs", "vsd", "vso"), sym=True, conc=150, covers=("accepted", "refused"), sym_s=60, shards=2),
    H(lists, models=("va", "vad", "vao"), sym=True, conc=150, covers=("delete", "del", "reassign"), sym_s=50, shards=2),
    H(documents, models=("va", "vad", "vao"), sym=True, conc=150, covers=("inner", "aug", "list", "choice", "names", "types"), sym_s=40),
    H(lockstep, sym=False, conc=160, conc_s=30),
    H(offers, sym=False, conc=60, conc_s=20),
    H(names, sym=False, conc=60, conc_s=20),
    H(operations, sym=False, conc=30, conc_s=20),
]
