"""C22: the default of a leaf is the one its schema gives it."""
import base64
import json
import random
from decimal import Decimal

from pyvc.runner import H
from harness import gen, schema as S, unions
from harness.common import attempt
from harness.schema import mkv
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "defaults in hexadecimal or octal form, and defaults of the member types of a union (which the test suite requires to be those of the union), are outside the statement",
    "the generator of bindings (which default the schema gives, how it is quoted) is decided by bounded sweeps over generated modules",
]
SETS = Sets("sd", n=6, size=22, feat=("topleaf", "topchoice", "cfg"))
MODS, UMODS = [], []


def prepare(tmp, seed, thorough):
    out = SETS.prepare(tmp, seed, thorough)
    k = 4 if thorough else 1
    MODS[:] = [Chains("dc%d" % i, "%s/%d" % (seed, i)) for i in range(8 * k)]
    UMODS[:] = [unions.Gen("du%d" % i, "d%s/%d" % (seed, i), 14) for i in range(8 * k)]
    for name, mods in (("dc", MODS), ("du", UMODS)):
        texts = {}
        for g in mods:
            texts.update(g.texts)
        out[name] = gen.build(tmp, name, texts, main=[n for n in texts if not n.endswith("s")])
    return out


TEXTS = ["", "a", "x y", " lead", "trail ", "it's", 'say "hi"', "back\\slash", "\\", "\\n", "line\nbreak", "tab\there", "é日本", "None", "False", "0", "'", '"', "'''", '"""', "%s %d",
         "{}", "{0}", "#not a comment", "a;b", "\\'", "$x", "u'x'", "]]>", "<&>", "//", "/* c */", "+", "true"]


class Chains:
    """leaves of chains of typedefs through a module, a module it imports, and a submodule; each with or without a default of its own"""

    def __init__(self, name, seed):
        r = self.r = random.Random("defaults/%s" % seed)
        self.name, self.far, self.sub = name, name + "t", name + "s"
        self.spec, self.lists = {}, set()
        tds = {self.name: [], self.far: [], self.sub: []}
        ids = ["red", "green", "blue"]
        types = []  # (typedef, module, base, default or None)
        n = 0
        for _ in range(r.randint(8, 12)):
            base = self.base()
            d, where = None, r.choice([self.far, self.far, self.name, self.sub])
            head = None
            for depth in range(r.choice([1, 2, 3, 3, 4, 5])):
                own = None
                if r.random() < (0.45 if head is None else 0.25):
                    own = base["value"](r)
                    d = own
                t = "td%d" % n
                n += 1
                tds[where].append("  typedef %s { %s%s }" % (t, self.ref(head, where, base), self.stmt(own, where)))
                types.append((t, where, base, d))
                head = (t, where)
                if where == self.far:
                    where = r.choice([self.far, self.name, self.sub])
        leaves = {"top": [], "c": [], "l": [], "g": [], "ch": []}
        refine = []
        for i in range(26):
            if r.random() < 0.75:
                t, m, base, d = r.choice(types)
                head = (t, m)
            else:
                head, base, d = None, self.base(), None
            x = "leaf%d" % i
            own = base["value"](r) if r.random() < 0.4 else None
            where = r.choice(["top", "c", "c", "l", "g", "g", "ch"])
            if i % 5 == 4:
                self.lists.add(x)
            leaves[where].append("    %s %s { %s%s }" % ("leaf-list" if x in self.lists else "leaf", x, self.ref(head, self.name, base), self.stmt(own, self.name)))
            if where == "g" and r.random() < 0.5:
                own = base["value"](r)
                refine.append("refine %s {%s }" % (x, self.stmt(own, self.name)))
            self.spec[x] = (where, base, own if own is not None else d)
        for m in tds:
            r.shuffle(tds[m])
        idt = "  identity colour;\n" + "".join("  identity %s { base colour; }\n" % i for i in ids)
        j = "\n".join
        head = '  yang-version 1.1;\n  namespace "urn:%s"; prefix %s;\n'
        self.texts = {
            self.far: "module %s {\n%s%s%s\n}\n" % (self.far, head % ((self.far,) * 2), idt, j(tds[self.far])),
            self.sub: "submodule %s {\n  yang-version 1.1;\n  belongs-to %s { prefix %s; }\n  import %s { prefix %s; }\n%s\n}\n" % (self.sub, self.name, self.name, self.far, self.far, j(tds[self.sub])),
            self.name: "module %s {\n%s  import %s { prefix %s; }\n  include %s;\n%s\n  grouping g {\n%s\n  }\n%s\n  container c {\n%s\n    uses g { %s }\n    choice ch {\n%s\n    }\n"
            "    list l { key k; leaf k { type string; }\n%s\n    }\n  }\n}\n"
            % (self.name, head % ((self.name,) * 2), self.far, self.far, self.sub, j(tds[self.name]), j(leaves["g"]), j(leaves["top"]), j(leaves["c"]), " ".join(refine), j(leaves["ch"]), j(leaves["l"])),
        }

    def ref(self, head, where, base):
        if head is None:
            return base["text"](where)
        t, m = head
        more = base.get("more") if self.r.random() < 0.5 else None
        return "type %s%s" % ("%s:%s" % (m, t) if m == self.far and where != self.far else t, " { %s }" % more(self.r) if more else ";")

    def stmt(self, own, ctx):
        if own is None:
            return ""
        return " default %s;" % S.ystr(self.lex(own, ctx))

    def lex(self, v, ctx):
        r = self.r
        if v.tag == "id":
            return v.val[1] if ctx == self.far else "%s:%s" % v.val
        if v.tag == "bits":
            w = list(v.val)
            r.shuffle(w)
            return r.choice([" ", "  "]).join(w)
        if v.tag == "dec":
            t = format(v.val, "f")
            return t + "0" * r.randint(0, v.size - len(t.partition(".")[2])) if "." in t else t
        if v.tag == "int" and v.val > 0 and r.random() < 0.1:
            return "+%d" % v.val
        return S.lexical(v, ctx)

    def base(self):
        r = self.r
        k = r.choice(["int", "int", "string", "string", "string", "boolean", "enumeration", "bits", "decimal64", "binary", "identityref"])
        if k == "int":
            t = r.choice(sorted(gen.INTS))
            lo, hi = gen.INTS[t]
            st = ";"
            if r.random() < 0.4:
                lo, hi = max(lo, -50), min(hi, 100)
                st = ' { range "%d .. %d"; }' % (lo, hi)
            return {"text": lambda m: "type %s%s" % (t, st), "more": lambda r: 'range "%s";' % r.choice(["min..max", "%d..%d" % (lo, hi), "min .. max"]), "value": lambda r: mkv("int", r.choice([0, lo, hi, r.randint(lo, hi), max(lo, min(hi, 7))]))}
        if k == "string":
            if r.random() < 0.7:
                return {"text": lambda m: "type string;", "more": lambda r: r.choice(["length '0..200';", "length 'min..max';", "pattern '(.|\\n)*';"]), "value": lambda r: mkv("str", r.choice(TEXTS))}
            p = r.choice(gen.PATTERNS)

            def value(r):
                import re

                for _ in range(100):
                    s = gen.sample(p, r)
                    if re.fullmatch(p, s) and "\n" not in s:
                        return mkv("str", s)
                return None

            return {"text": lambda m: "type string { pattern '%s'; }" % p, "more": lambda r: r.choice(["length '0..200';", "pattern '.*';"]), "value": value}
        if k == "boolean":
            return {"text": lambda m: "type boolean;", "value": lambda r: mkv("bool", r.random() < 0.5)}
        if k == "enumeration":
            ns = r.sample(gen.ENUMS, r.randint(1, 5))
            return {"text": lambda m: "type enumeration { %s }" % " ".join('enum "%s";' % n for n in ns), "more": lambda r: " ".join('enum "%s";' % n for n in ns), "value": lambda r: mkv("enum", r.choice(ns))}
        if k == "bits":
            ns = r.sample(gen.BITS, r.randint(1, 5))
            return {"text": lambda m: "type bits { %s }" % " ".join("bit %s;" % n for n in ns), "more": lambda r: " ".join("bit %s;" % n for n in ns), "value": lambda r: mkv("bits", tuple(n for n in ns if r.random() < 0.5))}
        if k == "decimal64":
            fd = r.randint(1, 5)
            return {"text": lambda m: "type decimal64 { fraction-digits %d; }" % fd, "more": lambda r: 'range "min..max";', "value": lambda r: mkv("dec", Decimal(r.choice([0, 1, -1, 15, -250, r.randint(-99999, 99999)])).scaleb(-fd), fd)}
        if k == "binary":
            return {"text": lambda m: "type binary;", "more": lambda r: "length '0..20';", "value": lambda r: mkv("bin", bytes(r.randrange(256) for _ in range(r.randrange(6))))}
        return {"text": lambda m: "type identityref { base %s; }" % ("colour" if m == self.far else self.far + ":colour"), "value": lambda r: mkv("id", (self.far, r.choice(["red", "green", "blue"])))}


def no_default(x):
    d = x.default()
    return d is False or d is None


def agrees(x, v):
    """the leaf reports this default"""
    if v is None:
        return no_default(x)
    d = x.default()
    return d is not None and (v.tag == "bool" or not (d is False)) and S.same(d, v)


def owner(o, where):
    return o if where == "top" else o.c.l["k"] if where == "l" else o.c


def brings_back(E, r, o, n, get, agree, values):
    """writes, then unset: not changed, not in filtered output, and the default is there again"""
    x = get()
    E.prove("default-alone-is-not-changed", not x._changed())
    for v in values:
        ok, _ = attempt(setattr, o, n, v)
        if ok:
            E.prove("has-its-default-while-set", agree(get()))
    getattr(o, "_unset_" + n)()
    x = get()
    E.prove("unset-is-not-changed", not x._changed())
    E.prove("unset-brings-back-the-default", agree(x))


def chains(E, M):
    """typedef chains through modules and a submodule, with defaults at any level, refined ones, and any text in them"""
    g = E.choose("module", MODS)
    r = random.Random("dc/%d" % E.seed("seed"))
    o = getattr(M.b("dc"), g.name)()
    o.c.l.add("k")
    for n in r.sample(sorted(g.spec), 6):
        where, base, v = g.spec[n]
        p = owner(o, where)
        get = lambda: getattr(p, n)
        ok = agrees(get(), v)
        E.prove("default-of-the-schema" if ok else "default-of-the-schema: %s.%s reports %r, should be %r" % (g.name, n, get().default(), v), ok)
        values = [S.forms(base["value"](r))[0] for _ in range(2)]
        if v is not None:
            values.append(S.forms(v)[0])
        if n in g.lists:
            values = [[x] for x in values]
        brings_back(E, r, p, n, get, lambda x: agrees(x, v), values)
    E.prove("defaults-are-not-in-filtered-output", o.get(filter=True) == {"c": {"l": {"k": {"k": "k"}}}})


def union_defaults(E, M):
    """defaults of unions: the value of the first member that accepts it"""
    g = E.choose("module", UMODS)
    r = random.Random("du/%d" % E.seed("seed"))
    o = getattr(M.b("du"), g.name)().c
    o.l.add("k")
    for n, (where, ll, mem, d) in r.sample(sorted(g.spec.items()), min(5, len(g.spec))):
        if ll or (d is None and getattr(mem, "tainted", False)):
            continue
        p = o.l["k"] if where == "l" else o
        want = unions.store(mem, d) if d is not None else None
        if want is unions.UNKNOWN:
            continue

        def agree(x):
            return no_default(x) if d is None else unions.is_held(x.default(), want[1])

        ok = agree(getattr(p, n))
        E.prove("default-of-the-first-member" if ok else "default-of-the-first-member: %s.%s %r reports %r, should be %r of %s" % (g.name, n, d, getattr(p, n).default(), want, [m.kind for m in mem]), ok)
        brings_back(E, r, p, n, lambda: getattr(p, n), agree, [m.samples(r) for m in mem])


def all_leaves(o, children, path=""):
    for c, _ in S.flatten(children):
        x = getattr(o, c.safe)
        if c.kind == "leaf":
            yield path + "/" + c.name, c, o
        elif c.kind == "container":
            yield from all_leaves(x, c.children, path + "/" + c.name)
        elif c.kind == "list":
            for e in x.values():
                yield from all_leaves(e, c.children, path + "/" + c.name)


def has_member_default(t):
    return t.kind == "union" and any(m.default is not None or has_member_default(m) for m in t.members)


def generated(E, M):
    """every leaf of random trees of random modules, set or not"""
    b, g, t, o, r = SETS.draw(E, M)
    es = list(all_leaves(o, g.root.children))
    for p, c, e in es:
        if c.iskey or has_member_default(c.t) and c.default is None:
            continue  # the default of a key means nothing
        x = getattr(e, c.safe)
        E.prove("default-of-the-schema" if agrees(x, c.default) else "default-of-the-schema: %s reports %r, should be %r" % (p, x.default(), c.default), agrees(x, c.default))
    p, c, e = r.choice(es) if es else (None, None, None)
    if c is not None and not c.iskey and c.config and not has_member_default(c.t):
        getattr(e, "_unset_" + c.safe)()
        brings_back(E, r, e, c.safe, lambda: getattr(e, c.safe), lambda x: agrees(x, c.default), [S.forms(c.t.value(r))[0] for _ in range(2)])
        E.reach("unset")


LEAVES = {"df1": 42, "df3": 19, "df9": 0, "r1": None, "i8": None, "u64": None, "s1": None, "df4": "abc", "df6": 'q"uo\'te\\d'}


def corpus(E, M):
    """any values written to a leaf and taken back: its default, if it has one, is as it was"""
    va = M.b("va").va()
    n = E.choose("leaf", sorted(LEAVES))
    d = LEAVES[n]
    x = getattr(va.types, n)

    def agree(x):
        y = x.default()
        return (y is False) if d is None else E.And(y == d, y is not False)

    E.prove("default-of-the-schema", agree(x))
    v = E.str("v", pool=["abc", "x", ""]) if n in ("s1", "df4", "df6") else E.int("v")
    ok, _ = attempt(setattr, va.types, n, v)
    E.prove("has-its-default-while-set", agree(getattr(va.types, n)))
    if ok:
        E.prove("changed", getattr(va.types, n)._changed())
        E.reach("written")
    how = E.choose("how", ["unset", "clear-by-default"])
    getattr(va.types, "_unset_" + n)()
    x = getattr(va.types, n)
    E.prove("unset-is-not-changed", not x._changed())
    E.prove("unset-brings-back-the-default", agree(x))
    E.prove("defaults-are-not-in-filtered-output", va.get(filter=True) == {})
    if d is not None and how == "clear-by-default":
        setattr(va.types, n, d)
        E.prove("the-default-can-be-written-as-a-value", E.And(getattr(va.types, n) == d, getattr(va.types, n)._changed()))


def any_default(E, M):
    """the function that makes a leaf: any default of its type, any value"""
    yt = M.yt
    k = E.choose("type", ["int", "text"])
    if k == "int":
        lo, hi = E.int("lo", lo=-1000, hi=1000), E.int("hi", lo=-1000, hi=1000)
        E.assume(lo <= hi)
        cls = yt.RestrictedClassType(base_type=M.builtin("int"), restriction_dict={"range": [E.fmt("{}..{}", lo, hi)]})
        d, v = E.int("d", lo=-1000, hi=1000), E.int("v", lo=-2000, hi=2000)
        E.assume(E.And(d >= lo, d <= hi))
    else:
        cls = M.builtin("str")
        d, v = E.str("d", pool=TEXTS), E.str("v", pool=TEXTS)
    x = yt.YANGDynClass(base=cls, default=cls(d), is_leaf=True, yang_name="x")
    E.prove("default-is-reported", E.And(x.default() == d, x.default() is not False))
    E.prove("default-alone-is-not-changed", not x._changed())
    ok, y = attempt(yt.YANGDynClass, v, base=cls, default=cls(d), is_leaf=True, yang_name="x")
    if ok:
        E.prove("value-and-default", E.And(y == v, y.default() == d, y._changed()))
        E.reach("value")
    else:
        E.prove("refused-outside-of-the-range", E.Or(v < lo, v > hi))
        E.reach("refused")
    z = yt.YANGDynClass(base=cls, is_leaf=True, yang_name="x")
    E.prove("no-default", E.And(z.default() is False, not z._changed()))


HARNESSES = [
    H(corpus, covers=["written"], conc=200, models=["va"], shards=4),
    H(any_default, covers=["value", "refused"], conc=200),
    H(chains, sym=False, conc=300, models=[]),
    H(union_defaults, sym=False, conc=300, models=[]),
    H(generated, sym=False, conc=200, models=[], covers=[]),
]
