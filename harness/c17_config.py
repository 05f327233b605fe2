"""C17: elements that are config false cannot be assigned."""
import random

from pyvc.runner import H
from harness import gen, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = ["the element reports whether it is configuration by _is_config, which is how the library itself reads it"]
SETS = Sets("sf", n=8, size=22, feat=("topleaf", "topchoice", "cfg"))
LO, HI = -(2**31), 2**31 - 1
ANY = (TypeError, ValueError, KeyError, AttributeError)


REFS = []


def prepare(tmp, seed, thorough):
    del REFS[:]
    for i in range(12 if thorough else 4):
        REFS.append(Refs("%s/%d" % (seed, i), "rf%d" % i))
    texts = {g.name: g.text for g in REFS}
    return dict(SETS.prepare(tmp, seed, thorough), rf=gen.build(tmp, "rf", texts, flags=["--presence", "--use-xpathhelper"], main=sorted(texts)))


class Refs:
    """leaves and leaf-lists of every sort, leafrefs among them, with config statements on any of them and above them"""

    TYPES = {"leafref { path '/%(m)s:t'; }": "a", "leafref { path '/%(m)s:k/%(m)s:n'; }": "n", "leafref { path '/%(m)s:one'; require-instance false; }": 3, "string;": "a", "int8;": 4,
             "union { type int8; type string; }": "u", "enumeration { enum e; }": "e", "bits { bit x; bit y; }": "x", "decimal64 { fraction-digits 2; }": "1.5", "binary;": b"xy", "boolean;": True,
             "identityref { base i; }": "j"}

    def __init__(self, seed, name):
        self.r, self.name = random.Random("c17r/%s" % seed), name
        self.items = []  # (path of python names and "[]", whether it is configuration, a value)
        body = "".join(self.node([n], True, 0) for n in ("c1", "c2", "c3"))
        self.text = """module %(m)s { yang-version 1.1; namespace "urn:%(m)s"; prefix %(m)s; identity i; identity j { base i; }
  leaf-list t { type string; } list k { key n; leaf n { type string; } } leaf one { type int8; }
%(b)s}""" % {"m": name, "b": body}

    def node(self, path, cfg, depth):
        r = self.r
        kind = r.choice(["container", "container", "choice", "list"]) if depth else "container"
        own = r.choice([None, None, False, True if cfg else None])
        cfg = cfg if own is None else own
        st = "" if own is None else "config %s; " % str(own).lower()
        n = path[-1]
        here = path[:-1] if kind == "choice" else path + ["[]"] if kind == "list" else path
        out = []
        if kind == "list":
            out.append("key kk; leaf kk { type string; }")
        for i in range(r.choice([3, 4, 5])):
            t = r.choice(list(self.TYPES))
            lk = r.choice(["leaf", "leaf-list"])
            o = r.choice([None, None, False, True if cfg else None])
            q = "%s%s%d" % (n, lk[4:6].replace("-", "l"), i)
            c = cfg if o is None else o
            out.append("%s %s { type %s %s }" % (lk, q, t % {"m": self.name}, "" if o is None else "config %s;" % str(o).lower()))
            self.items.append((here + [q], c, [self.TYPES[t]] if lk == "leaf-list" else self.TYPES[t]))
        if depth < 3:
            out += [self.node(here + ["%s%s" % (n, x)], cfg, depth + 1) for x in "xy"[: r.choice([1, 2])]]
        if kind == "choice":
            return "choice %s { %s case only { %s } }\n" % (n, st, "\n".join(out))
        return "%s %s { %s %s }\n" % (kind, n, st, "\n".join(out))


def references(E, M):
    """every leaf and leaf-list, leafrefs included, of bindings with a path helper"""
    g = E.choose("module", REFS)
    o = getattr(M.b("rf"), g.name)(path_helper=M.mod("xpathhelper").YANGPathHelper())
    o.t = ["a", "b"]
    o.k.add("n")
    o.one = 3
    for path, cfg, v in g.items:
        x = o
        for n in path[:-1]:
            if n == "[]":
                x = x["key"] if "key" in x else x.add("key")
            else:
                x = getattr(x, n)
        n = path[-1]
        p = "/".join(path)
        y = getattr(x, n)
        E.prove("reports-whether-it-is-configuration" if y._is_config == cfg else "reports-whether-it-is-configuration: %s" % p, y._is_config == cfg)
        ok, e = attempt(setattr, x, n, v, exc=ANY)
        E.prove("assignable-iff-configuration" if ok == cfg else "assignable-iff-configuration: %s = %r: %r" % (p, v, e), ok == cfg)
        if not ok:
            E.prove("refused-with-AttributeError", isinstance(e, AttributeError))
            E.prove("unchanged-when-refused", getattr(x, n) is y)
        ok, e = attempt(getattr(x, "_set_" + n), v, exc=ANY)
        E.prove("private-setter-sets" if ok else "private-setter-sets: %s = %r: %r" % (p, v, e), ok)
        E.prove("still-reports-it", getattr(x, n)._is_config == cfg)


PLACES = {  # the leaf, whether it is configuration
    "st.rw": True, "st.ro": False, "st.rc.rl": False, "cl.cv": True, "cl.sv": False, "st.scl": False, "rk.v": False, "kl.a": False, "tree.inner.x": True, "ch.a1": True, "ch.cc.d1": True,
}


def corpus(E, M):
    """any value offered to each leaf of the corpus that is, or is not, configuration"""
    va = M.b("va").va()
    p = E.choose("leaf", sorted(PLACES))
    if p in ("st.scl",):
        o = va.st
    elif p.startswith("cl."):
        o = va.st.cl.add("k")
    elif p.startswith("rk."):
        o = va.st.rc.rk.add("k")
    elif p.startswith("kl."):
        l = va.st.rc.kl
        o = l[l.add()]
    else:
        o = va
        for n in p.split(".")[:-1]:
            o = getattr(o, n)
    n = p.split(".")[-1]
    v = E.int("v")
    valid = E.And(v >= LO, v <= HI)
    cfg = PLACES[p]
    x = getattr(o, n)
    E.prove("reports-whether-it-is-configuration", x._is_config == cfg)
    ok, e = attempt(setattr, o, n, v, exc=ANY)
    E.prove("assignable-iff-configuration-and-valid", E.Iff(ok, E.And(cfg, valid)))
    if not ok:
        E.prove("unchanged-when-refused", getattr(o, n) is x)
        if not cfg:
            E.prove("refused-with-AttributeError", isinstance(e, AttributeError))
    w = E.int("w")
    wvalid = E.And(w >= LO, w <= HI)
    before = getattr(o, n)
    ok, e = attempt(getattr(o, "_set_" + n), w, exc=ANY)
    E.prove("private-setter-accepts-iff-valid", E.Iff(ok, wvalid))
    now = getattr(o, n)
    if ok:
        E.prove("private-setter-sets", E.And(now == w, now._changed(), now._is_config == cfg))
        E.reach("populated")
    else:
        E.prove("private-setter-refuses-with-ValueError", isinstance(e, ValueError))
        E.prove("unchanged-when-refused", now is before)
        E.reach("refused")


OTHERS = {"st.rc": False, "st.rc.rcc": False, "st.rc.rll": False, "st.rc.kl": False, "st.rc.rk": False, "st": True, "st.cl": True, "lls.li": True, "tree.one": True}


def corpus_others(E, M):
    """containers, lists and leaf-lists"""
    va, vb = M.b("va").va(), M.b("va").va()
    p = E.choose("element", sorted(OTHERS))
    o, q = va, vb
    for n in p.split(".")[:-1]:
        o, q = getattr(o, n), getattr(q, n)
    n = p.split(".")[-1]
    E.prove("reports-whether-it-is-configuration", getattr(o, n)._is_config == OTHERS[p])
    a = state.snap(va)
    ok, e = attempt(setattr, o, n, getattr(q, n), exc=ANY)
    E.prove("assignable-iff-configuration", ok == OTHERS[p])
    if not ok:
        E.prove("refused-with-AttributeError", isinstance(e, AttributeError))
        E.prove("unchanged-when-refused", state.same(E, a, state.snap(va)))
    v = E.int("v", lo=0, hi=99)
    if p == "st.rc.rll":
        ok, _ = attempt(o._set_rll, [E.numeral(v)], exc=ANY)
        E.prove("private-setter-sets", E.And(ok, len(o.rll) == 1, o.rll[0] == E.numeral(v)))
    else:
        ok, _ = attempt(getattr(o, "_set_" + n), getattr(q, n), exc=ANY)
        E.prove("private-setter-accepts-its-own-kind", ok)
    E.prove("still-reports-it", getattr(o, n)._is_config == OTHERS[p])


def generated(E, M):
    """every element of random modules with config statements anywhere, in random trees"""
    b, g, t, o, r = SETS.draw(E, M)
    b2 = getattr(b, g.p)()
    visit(E, o, b2, g.root.children, r, "")


def visit(E, o, donor, children, r, path):
    for c, _ in S.flatten(children):
        p = path + "/" + c.name
        x = getattr(o, c.safe)
        E.prove("reports-whether-it-is-configuration" if x._is_config == c.config else "reports-whether-it-is-configuration: %s" % p, x._is_config == c.config)
        if c.iskey:
            continue
        if c.kind in ("leaf", "leaf-list"):
            v = c.t.value(r)
            if v is None:
                continue
            v = S.form(v, r)
            v = [v] if c.kind == "leaf-list" else v
            j = [object(), 10**40, {}, "\\x00", 1.5]
            bad = r.choice(j[:1])
        else:
            v = getattr(donor, c.safe) if donor is not None else None
            bad = None
        if v is not None and (c.kind in ("leaf", "leaf-list") or r.random() < 0.3):
            ok, e = attempt(setattr, o, c.safe, v, exc=ANY)
            E.prove("assignable-iff-configuration" if ok == c.config else "assignable-iff-configuration: %s = %r: %r" % (p, v, e), ok == c.config)
            if not ok:
                E.prove("refused-with-AttributeError", isinstance(e, AttributeError))
                E.prove("unchanged-when-refused", getattr(o, c.safe) is x)
            ok, e = attempt(getattr(o, "_set_" + c.safe), v, exc=ANY)
            E.prove("private-setter-sets" if ok else "private-setter-sets: %s: %r" % (p, e), ok)
            x = getattr(o, c.safe)
            E.prove("still-reports-it" if x._is_config == c.config else "still-reports-it: %s" % p, x._is_config == c.config)
        if bad is not None and c.t.kind in ("int", "dec", "enumeration", "identityref", "leafref-none", "bits"):
            before = getattr(o, c.safe)
            ok, e = attempt(getattr(o, "_set_" + c.safe), bad if c.kind == "leaf" else [bad], exc=ANY)
            E.prove("private-setter-validates" if not ok else "private-setter-validates: %s" % p, not ok)
            E.prove("unchanged-when-refused", getattr(o, c.safe) is before)
        if c.kind == "container":
            visit(E, getattr(o, c.safe), getattr(donor, c.safe) if donor is not None else None, c.children, r, p)
        elif c.kind == "list":
            if not len(x):
                es = S.rand_node(r, c, 0.3)
                if es:
                    x = getattr(o, c.safe)
                    S.apply(es[0], S.add_entry(c, es[0], x, r), r)
            for e in list(getattr(o, c.safe).values())[:2]:
                visit(E, e, None, c.children, r, p + "[]")


HARNESSES = [
    H(corpus, covers=["populated", "refused"], conc=200, models=["va"], shards=4),
    H(corpus_others, conc=100, models=["va"]),
    H(references, sym=False, conc=12, conc_s=20),
    H(generated, sym=False, conc=300),
]
