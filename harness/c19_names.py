"""C19: generated elements have the schema's names, paths and metadata."""
import builtins
import keyword
import random
import re

from pyvc.runner import H
from harness import gen, history, mapkeys, schema as S
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "names that begin with an underscore, and siblings whose names differ only in . - _, are aside (statement)",
    "the entries of keyless lists, and what is below them, have no path of their own",
]
SETS = Sets("sn", n=6, size=18, feat=("topleaf", "topchoice", "choices"))
GENS = []


def prepare(tmp, seed, thorough):
    out = dict(SETS.prepare(tmp, seed, thorough), mk=mapkeys.build(tmp))
    del GENS[:]
    texts = {}
    for i in range(16 if thorough else 6):
        g = Gen("%s/%d" % (seed, i), "ng%d" % i)
        GENS.append(g)
        texts.update(g.texts)
    # the module itself, or the module and those that augment it
    out["ng"] = gen.build(tmp, "ng", texts, main=[n for g in GENS for n in (g.name, g.name + "x")])
    out["eg"] = extended(tmp, seed, thorough)
    return out


EXTS = []
LABELS = ["mark", "x-order", "note", "one.two", "Type"]


class Extended:
    """a module whose statements have extension statements of three modules, two of which are of interest"""

    TYPES = [("int8", 3), ("string", "s"), ("boolean", True), ("union { type int8; type string; }", "u"), ("enumeration { enum a; enum b; }", "b"),
             ("leafref { path \"/%s:target\"; }", "5"), ("decimal64 { fraction-digits 2; }", 1), ("bits { bit a; bit b; }", "a"), ("identityref { base idb; }", "idone"), ("empty", True), ("tt", 4)]

    def __init__(self, seed, name):
        self.r, self.name, self.n = random.Random(seed), name, 0
        self.pre = {m: self.r.choice([m, "p" + m[2:], name + "p"]) if m == "ex-one" else self.r.choice([m, "q" + m[2:]]) for m in ("ex-one", "ext", "ex-other")}
        self.items = []  # (path, of what kind, value, extensions)
        body = "".join(self.node((), 3) for _ in range(7))
        aug = self.node(("c",), 2, plain=True)
        self.text = 'module %s { yang-version 1.1; namespace "urn:%s"; prefix %s; %s identity idb; identity idone { base idb; } typedef tt { type int8; %s:mark "of the type"; } leaf target { type int8; } container c { leaf cl { type int8; } } %s augment "/%s:c" { %s %s } }' % (
            name, name, name, "".join("import %s { prefix %s; }" % (m, p) for m, p in self.pre.items()), self.pre["ext"], body, name, self.statements()[0], aug)

    def statements(self):
        r, out, exp = self.r, [], {}
        for m in self.pre:
            for l in LABELS:
                if r.random() < 0.13:
                    arg = r.choice(["a", "", "it's", "two words", "100", "a\\nb", "a:b", "\u00e9", "True"])
                    if l == "note":
                        out.append("%s:note;" % self.pre[m])
                        arg = None
                    else:
                        out.append('%s:%s "%s"%s' % (self.pre[m], l, arg, r.choice([";", ' { description "d"; }'])))
                        arg = arg.replace("\\n", "\n")
                    if m != "ex-other":
                        exp.setdefault(m, {})[l] = arg
        return " ".join(out), exp or None

    def node(self, path, depth, plain=False):
        r = self.r
        self.n += 1
        n = r.choice(["n%d", "x-%d", "Mark%d"]) % self.n
        st, exp = self.statements()
        kind = r.choice(["leaf"] * 3 + ["leaf-list"] + (["container", "list", "choice"] if depth and not plain else []))
        path_ = path + (n.replace("-", "_"),)
        t, v = r.choice([x for x in self.TYPES if kind == "leaf" or x[0] != "empty"])
        of = "type " + (t if "%s" not in t else t % self.name) + ("" if t.endswith("}") else ";")
        if r.random() < 0.2 and t in ("int8", "string"):
            of = 'type %s { %s:mark "of the type"; }' % (t, self.pre["ext"])
        if kind == "leaf":
            self.items.append((path_, kind, v, exp))
            return "leaf %s { %s %s }\n" % (n, of, st)
        if kind == "leaf-list":
            self.items.append((path_, kind, [v], exp))
            return "leaf-list %s { %s %s }\n" % (n, st, of)
        if kind == "choice":
            kids = self.node(path, depth - 1), self.node(path, 0)
            return "choice %s { %s case a%d { %s %s } case b%d { %s } }\n" % (n, st, self.n, self.statements()[0], kids[0], self.n, kids[1])
        if kind == "list":
            self.items.append((path_, kind, None, exp))
            kst, kexp = self.statements()
            key = "k%d" % self.n
            self.items.append((path_ + ("[]", key), "key", None, kexp))
            path_ += ("[]",)
            st += ' key %s; leaf %s { type string; %s }' % (key, key, kst)
        else:
            self.items.append((path_, kind, None, exp))
        return "%s %s { %s %s }\n" % (kind, n, st, "".join(self.node(path_, depth - 1) for _ in range(r.choice([1, 2, 3]))))


def extended(tmp, seed, thorough):
    del EXTS[:]
    texts = {m: 'module %s { namespace "urn:%s"; prefix %s; %s }' % (m, m, m[:3], "".join("extension %s { %s }" % (l, "" if l == "note" else "argument a;") for l in LABELS)) for m in ("ex-one", "ext", "ex-other")}
    for i in range(12 if thorough else 4):
        g = Extended("%s/ext/%d" % (seed, i), "eg%d" % i)
        EXTS.append(g)
        texts[g.name] = g.text
    flags = ("--interesting-extension=ex-one", "--interesting-extension=ext") + random.Random(seed).choice([(), ("--presence",), ("--use-xpathhelper",)])
    return gen.build(tmp, "eg", texts, flags=flags, main=[g.name for g in EXTS])


def extensions(E, M):
    """each element reports the statements of the extension modules that are of interest, as the schema has them on it"""
    g = E.choose("module", EXTS)
    o = getattr(M.b("eg"), g.name)()
    o.target = 5
    items = list(g.items)
    random.Random(E.seed("order")).shuffle(items)
    for path, kind, v, exp in items:
        x = o
        for n in path[:-1]:
            x = (x["key"] if "key" in x else x.add("key")) if n == "[]" else getattr(x, n)
        p = "/".join(path)

        def same(y, when):
            got = y._extensions()
            E.prove("the-statements-" + when if got == exp else "the-statements-%s: %s (%s): %s" % (when, p, kind, got), got == exp)

        n = path[-1]
        same(getattr(x, n), "at-first")
        if v is not None:
            setattr(x, n, v)
            same(getattr(x, n), "when-set")
            getattr(x, "_unset_" + n)()
            same(getattr(x, n), "when-unset")
        elif kind == "list":
            for k in ("key", "other"):
                if k not in getattr(x, n):
                    getattr(x, n).add(k)
                same(getattr(x, n)[k], "of-entries")


# ------------------------------------------------------------- the functions
WORDS = ["class", "for", "get", "list", "in", "elements", "default", "add", "property", "None"]


def names(E, M):
    """safe_name, for any name: a legal one, the same but for - and ., and an underscore after reserved names"""
    safe_name, reserved = M.yt.safe_name, list(M.yt.reserved_name)
    k = E.choose("parts", [1, 2, 3])
    seps = [E.choose("separator", ["-", ".", "_"]) for _ in range(k - 1)]
    parts = []
    for i in range(k):
        p = E.str("p%d" % i, pool=WORDS + ["a", "Z9", "x", "import", "yang", "name", "Ordered", "Dict", "not", "if_", ""], alphabet="abcdefghijklmnopqrstuvwxyzABCZ0123456789_")
        E.assume(E.matches("[a-zA-Z_][a-zA-Z0-9_]*" if i == 0 else "[a-zA-Z0-9_]*", p))
        parts.append(p)
    given, want = parts[0], parts[0]
    for s, p in zip(seps, parts[1:]):
        given, want = E.fmt("{}%s{}" % s, given, p), E.fmt("{}_{}", want, p)
    got = safe_name(given)
    hit = None
    for w in sorted(set(reserved) | set(keyword.kwlist)):
        if got == w:
            hit = w
            break
    E.prove("never-a-reserved-name", hit is None)
    if want in reserved:
        E.prove("an-underscore-after-reserved-names", got == E.fmt("{}_", want))
        E.reach("reserved")
    else:
        E.prove("the-name-with-legal-characters", got == want)
        E.reach("free")
    if not E.symbolic:
        E.prove("legal", got.isidentifier() and not keyword.iskeyword(got))


def paths(E, M):
    """the paths in and below list entries with any keys"""
    va = M.b("va").va()
    t = va.tree
    k, j = E.int("k", lo=-(2**31), hi=2**31 - 1), E.int("j", lo=-(2**31), hi=2**31 - 1)
    n, m = E.fmt("n{}", k), E.fmt("m{}", j)
    case = E.choose("list", ["one", "two", "sk", "nested", "none"])
    how = E.choose("how", ["add", "item"]) if case in ("one", "sk") else "add"
    plain = lambda *ps: list(ps)
    if case in ("one", "sk"):
        l, key = getattr(t, case), k if case == "one" else n
        if how == "item":
            l.add(key)
            l[key] = l[key]
            e = l[key]
        else:
            e = l.add(key)
        step = E.fmt("%s[%s='{}']" % (case, "k" if case == "one" else "name"), key)
        check(E, e, plain("tree", step))
        check(E, e.v, plain("tree", step, "v"))
        if case == "one":
            check(E, e.c.w, plain("tree", step, "c", "w"))
            check(E, e.sub, plain("tree", step, "sub"))
        e.v = E.fmt("x{}", j) if case == "one" else j
        check(E, e.v, plain("tree", step, "v"))
        check(E, l, plain("tree", case))
    elif case == "two":
        e = t.two.add(a=n, b_c=j)
        step = E.fmt("two[a='{}' b-c='{}']", n, j)
        check(E, e, plain("tree", step))
        check(E, e.b_c, plain("tree", step, "b-c"))
        check(E, e.v, plain("tree", step, "v"))
    elif case == "nested":
        e = t.one.add(k).sub.add(m)
        p = plain("tree", E.fmt("one[k='{}']", k), E.fmt("sub[name='{}']", m))
        check(E, e, p)
        check(E, e.n, p + ["n"])
    else:
        t.inner.deep.z = 5
        check(E, t.inner.deep.z, plain("tree", "inner", "deep", "z"))
        check(E, t.inner.deep, plain("tree", "inner", "deep"))
        check(E, va.tree, plain("tree"))
        check(E, va.names.a_b, plain("names", "a-b"))
    E.reach(case)


def text_paths(E, M):
    """the paths in list entries with keys of any text: one, two or three of them, in the order of the key statement"""
    o = M.b("mk").mk()
    kind = E.choose("list", list(mapkeys.KEYS))
    k = mapkeys.draw(E, kind, 1, digits=True)[0]
    l = getattr(o.c, kind)
    e = l.add(**mapkeys.kw(kind, k)) if kind != "s" or E.choose("how", ["by name", "alone"]) == "by name" else l.add(k[0])
    e.v = 7
    e.t.append("x")
    step = E.fmt(kind + "[" + " ".join("%s='{}'" % n for n in mapkeys.KEYS[kind]) + "]", *k)
    check(E, e, ["c", step])
    check(E, e.v, ["c", step, "v"])
    check(E, e.t, ["c", step, "t"])
    for n in mapkeys.KEYS[kind]:
        check(E, getattr(e, mapkeys.safe(n)), ["c", step, n])
    E.reach(kind)


def check(E, x, want):
    got = x._path()
    E.prove("path-has-the-length", len(got) == len(want))
    E.prove("path", E.And(*[a == b for a, b in zip(got, want)]))
    p = want[0]
    for q in want[1:]:
        p = E.fmt("{}/{}", p, q)
    E.prove("path-as-text", x._yang_path() == E.fmt("/{}", p))


# ------------------------------------------------------------- generated data
def walk(E, o, children, mod, path, where):
    """every element below o, against the schema"""
    want = [c for c, _ in S.flatten(children)]
    els = list(o.elements())
    ok = sorted(els) == sorted(c.safe for c in want)
    E.prove("exactly-the-elements" if ok else "exactly-the-elements: %s: %s" % (where, els), ok)
    own = [c for c in want if c.mod == mod]
    ok = [e for e in els if e in {c.safe for c in own}] == [c.safe for c in own]
    E.prove("in-the-order-of-the-schema" if ok else "in-the-order-of-the-schema: %s: %s" % (where, els), ok)
    for c in want:
        x = getattr(o, c.safe)
        p = None if path is None else path + [c.name]
        one(E, x, c, p)
        if c.kind == "container":
            walk(E, x, c.children, c.mod, p, where + "/" + c.name)
        elif c.kind == "list":
            for e in x.values():
                ep = None
                if c.keys and p is not None:
                    ep = p[:-1] + ["%s[%s]" % (c.name, " ".join("%s='%s'" % (k.name, getattr(e, k.safe)) for k in c.keys))]
                    ok = e._path() == ep
                    E.prove("path-of-an-entry" if ok else "path-of-an-entry: %s, not %s" % (e._path(), ep), ok)
                walk(E, e, c.children, c.mod, ep, where + "/" + c.name)


def one(E, x, c, p):
    ok = x.yang_name() == c.name
    E.prove("yang-name" if ok else "yang-name: %s: %s" % (c.name, x.yang_name()), ok)
    ok = x._namespace == "urn:" + c.mod
    E.prove("namespace" if ok else "namespace: %s: %s" % (c.name, x._namespace), ok)
    ok = x._defining_module == c.mod
    E.prove("defining-module" if ok else "defining-module: %s: %s" % (c.name, x._defining_module), ok)
    if p is not None:
        ok = x._path() == p and x._yang_path() == "/" + "/".join(p)
        E.prove("path" if ok else "path: %s, not %s" % (x._path(), p), ok)


def generated(E, M):
    """random modules with augments and groupings, after random histories"""
    steps = E.choose("steps", [0, 3, 8, 20])
    b, g, t, o, r = SETS.draw(E, M, build=not steps)
    o = o or getattr(b, g.p)()
    walk(E, o, g.root.children, g.p, [], "")
    h = history.History(r, g, o)
    h.make = lambda: getattr(b, g.p)()
    for i in range(steps):
        h.step()
    walk(E, o, g.root.children, g.p, [], "after %s " % h.log[-4:])


# ------------------------------------------------------------ generated names
AWKWARD = sorted(
    (set(keyword.kwlist) | {n for n in dir(builtins)} | set(
        "self cls args kwargs keys values items get add pop append itervalues new_item yang_name default elements delete remove insert extend index count sort update clear "
        "filter has_key path parent load obj v t k e helper extmethods choice unset long Decimal regex YANGDynClass PybindBase OrderedDict collections copy match type case "
        "A Z9 a-b x.y a1-2.3_4 on-off as-path set-value list-item True-1 10x".split()))
)
AWKWARD = [n for n in AWKWARD if re.fullmatch(r"[A-Za-z][A-Za-z0-9._-]*", n) and not n.lower().startswith("xml")]
DESCS = ["plain", 'with "quotes"', 'three """ quotes', "a back\\slash", 'ends in "', "non-ascii \u00e9\u65e5", "%s %(x)s {0}", "line\n  break", "# hash", "'''", "ends in \\", "tab\there", "\\n \\x \\u12 \\N{x}"]


class Gen:
    """a module <p> with a submodule <p>s, a library <p>l of groupings, and augments by <p>x"""

    def __init__(self, seed, p):
        r = self.r = random.Random("names/%s" % seed)
        self.name, self.n = p, 0
        self.bodies = {p: [], p + "s": [], p + "l": [], p + "x": []}
        self.groups = {p: [], p + "l": [], p + "s": []}
        self.root = S.N("root", p, p)
        used = set()
        for i in range(r.randint(2, 3)):
            self.root.children.append(self.container(p, p, 0, used))
        sub = [self.container(p, p + "s", 0, used) for i in range(r.randint(1, 2))]
        own = list(self.root.children)
        self.root.children += sub
        self.augs = []
        for host in [n for n in self.all(self.root) if n.kind in ("container", "list")]:
            if r.random() < 0.3:
                self.augment(host, r.choice([p, p + "x", p + "x"]))
        for n in own:
            self.bodies[p].append(self.stmt(n, p))
        for n in sub:
            self.bodies[p + "s"].append(self.stmt(n, p + "s"))
        for host, ks, where in self.augs:
            self.bodies[where].append('augment "%s" {\n%s\n}' % (self.schema_path(host, where), "\n".join(self.stmt(k, where) for k in ks)))
        self.texts = {}
        for m in self.bodies:
            head = "submodule %s { yang-version 1.1; belongs-to %s { prefix %s; } import %s { prefix lib; }\n" % (m, p, p, p + "l") if m == p + "s" else (
                "module %s { yang-version 1.1; namespace 'urn:%s'; prefix %s;\n" % (m, m, m if m != p + "l" else "lib"))
            if m == p:
                head += "import %sl { prefix lib; } include %ss;\n" % (p, p)
            if m == p + "x":
                head += "import %s { prefix %s; } import %sl { prefix lib; }\n" % (p, p, p)
            self.texts[m] = head + self.desc() + "\n" + "\n".join(self.groups.get(m, []) + self.bodies[m]) + "\n}\n"

    def all(self, n):
        for c in n.children:
            yield c
            yield from self.all(c)

    def desc(self):
        r = self.r
        d = r.choice(DESCS)
        if r.random() < 0.4:
            return ""
        return "description %s;" % S.ystr(d)

    def pick(self, used):
        while True:
            n = self.r.choice(AWKWARD) if self.r.random() < 0.6 else "%s%s%d" % (self.r.choice("abcxyz"), self.r.choice(["", "-", ".", "_"]), self.r.randint(1, 30))
            s = n.replace("-", "_").replace(".", "_")
            if s not in used and n != "self" and s + "_" not in used:
                used.add(s)
                return n

    def container(self, mod, where, depth, used):
        n = S.N("container", self.pick(used), mod)
        n.where = where
        n.children = self.kids(mod, where, depth + 1)
        return n

    def kids(self, mod, where, depth, used=None, k=None):
        r, used, out = self.r, set() if used is None else used, []
        for i in range(k or r.randint(2, 4)):
            x = r.random()
            if depth < 3 and x < 0.25:
                c = self.container(mod, where, depth, used)
            elif depth < 3 and x < 0.45:
                c = S.N("list", self.pick(used), mod)
                mine = set()
                c.keys = [self.leaf(mod, mine, "string") for _ in range(r.choice([1, 1, 2]))]
                for k in c.keys:
                    k.iskey = True
                c.children = c.keys + self.kids(mod, where, depth + 1, mine)
            elif depth < 3 and x < 0.55:
                c = S.N("choice", self.pick(used), mod)
                cu = set()
                for _ in range(2):
                    case = S.N("case", self.pick(cu), mod)
                    case.children = self.kids(mod, where, depth + 1, used, r.randint(1, 2))
                    c.children.append(case)
            else:
                c = self.leaf(mod, used)
            out.append(c)
        return out

    def leaf(self, mod, used, t=None):
        n = S.N(self.r.choice(["leaf", "leaf", "leaf-list"]) if t is None else "leaf", self.pick(used), mod)
        n.ty = t or self.r.choice(["string", "int32", "boolean", "uint64"])
        return n

    def augment(self, host, where):
        mod = where if where.endswith("x") else self.name
        used = {c.name.replace("-", "_").replace(".", "_") for c, _ in S.flatten(host.children)}
        used |= {c.name for c in host.children}
        depth = 2
        ks = [k for k in self.kids(mod, where, depth, used, self.r.randint(1, 2)) if k.kind != "choice"]
        if ks:
            self.augs.append((host, ks, where))
            for k in ks:
                k.augmented = True
            host.children = host.children + ks

    def schema_path(self, n, where):
        out = []
        p = self.parents()
        while n is not self.root:
            out.append("%s:%s" % (n.mod, n.name))
            n = p[n]
        return "/" + "/".join(reversed(out))

    def parents(self):
        return {c: n for n in [self.root] + list(self.all(self.root)) for c in n.children}

    def stmt(self, n, where):
        r = self.r
        if n.kind in ("leaf", "leaf-list"):
            return "%s %s { type %s; %s }" % (n.kind, n.name, n.ty, self.desc())
        ks = [c for c in n.children if not hasattr(c, "augmented")]
        lines = []
        if n.kind == "list":
            lines.append('key "%s";' % " ".join(k.name for k in n.keys))
        i = 0
        while i < len(ks):
            # a run of children through a grouping, of this module or of the library
            if n.kind != "choice" and r.random() < 0.3:
                run = ks[i : i + r.randint(1, 2)]
                self.n += 1
                g = "g%d" % self.n
                at = r.choice([self.name + "l", where if where in self.groups else self.name + "l"])
                if run and not any(hasattr(q, "augmented") for k in run for q in self.all(k)):
                    inner = "\n".join(self.stmt(k, at) for k in run)
                    self.groups[at].append("grouping %s { %s\n%s }" % (g, self.desc(), inner))
                    lines.append("uses %s;" % (g if at == where else "lib:" + g))
                    i += len(run)
                    continue
            lines.append(self.stmt(ks[i], where))
            i += 1
        return "%s %s {\n%s\n%s\n}" % (n.kind, n.name, self.desc(), "\n".join(lines))


def legal(name):
    """the attribute for a name: the name with legal characters, an underscore after it only if it is reserved"""
    return name.replace("-", "_").replace(".", "_")


def find(E, o, c):
    n = legal(c.name)
    els = list(o.elements())
    got = [e for e in els if e in (n, n + "_")]
    E.prove("one-attribute-per-node" if len(got) == 1 else "one-attribute-per-node: %s: %s" % (c.name, els), len(got) == 1)
    s = got[0]
    ok = s.isidentifier() and not keyword.iskeyword(s)
    E.prove("a-legal-attribute-name" if ok else "a-legal-attribute-name: %s" % s, ok)
    may = keyword.iskeyword(n) or n in dir(builtins) or n in MAY
    ok = s == n or may
    E.prove("underscore-only-if-reserved" if ok else "underscore-only-if-reserved: %s" % s, ok)
    return s


MAY = set(AWKWARD) | {"global", "decimal", "local", "yang_name"}


def awkward(E, M):
    """names which Python, its builtins or the library use; submodules, nested groupings, augments of all of these"""
    g = E.choose("set", GENS)
    r = random.Random("an/%d" % E.seed("seed"))
    b = M.b("ng")
    cls = getattr(b, M.yt.safe_name(g.name))
    o = cls()
    visit(E, M, r, o, g.root.children, g, [], "")


def visit(E, M, r, o, children, g, path, where):
    want = [c for c, _ in S.flatten(children)]
    els = list(o.elements())
    E.prove("as-many-elements" if len(els) == len(want) else "as-many-elements: %s: %s" % (where, els), len(els) == len(want))
    at = {}
    for c in want:
        at[c] = find(E, o, c)
    own = [c for c in want if not hasattr(c, "augmented")]
    if where:
        ok = [e for e in els if e in {at[c] for c in own}] == [at[c] for c in own]
        E.prove("in-the-order-of-the-schema" if ok else "in-the-order-of-the-schema: %s: %s" % (where, els), ok)
    listed = [k for k, _ in o] if hasattr(o, "__iter__") else els
    E.prove("iterated-in-order", listed == els)
    for c in want:
        x = getattr(o, at[c])
        p = path + [c.name]
        one(E, x, c, p)
        if c.kind in ("leaf", "leaf-list"):
            v = {"string": "a b", "int32": r.randint(-9, 9), "boolean": True, "uint64": 2**63}[c.ty]
            ok, e = (True, None) if c.iskey else attempt(setattr, o, at[c], [v] if c.kind == "leaf-list" else v, exc=(Exception,))
            E.prove("can-be-assigned" if ok else "can-be-assigned: %s: %r" % (c.name, e), ok)
            x = getattr(o, at[c])
            one(E, x, c, p)
        elif c.kind == "container":
            visit(E, M, r, x, c.children, g, p, where + "/" + c.name)
        else:
            ks = ["k%d" % i for i in range(len(c.keys))]
            e = x.add(" ".join(ks))
            ep = p[:-1] + ["%s[%s]" % (c.name, " ".join("%s='%s'" % (k.name, v) for k, v in zip(c.keys, ks)))]
            ok = e._path() == ep
            E.prove("path-of-an-entry" if ok else "path-of-an-entry: %s, not %s" % (e._path(), ep), ok)
            visit(E, M, r, e, c.children, g, ep, where + "/" + c.name)


HARNESSES = [
    H(names, covers=["reserved", "free"], conc=500),
    H(paths, covers=["one", "two", "sk", "nested", "none"], conc=200, models=["va"]),
    H(text_paths, covers=["s", "p", "q"], models=[], conc=300, shards=3),
    H(generated, sym=False, conc=200, models=[]),
    H(awkward, sym=False, conc=120, models=[]),
    H(extensions, sym=False, conc=16, models=[]),
]
