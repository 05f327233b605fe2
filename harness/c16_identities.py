"""C16: an identityref knows exactly the identities that are derived from its base."""
import itertools
import random

from pyvc import loader
from pyvc.runner import H
from harness import gen
from harness.common import attempt
from harness.identities import Ids

LEVEL = "proof"
ASSUME = [
    "bounded shape in the proof: up to three identities in two modules, in any graph and order; their names are any (sweeps: more of both)",
    "the prefixes and names of modules are distinct; whether a value with a prefix that only an importing module gives a module is accepted is not stated",
    "pyang resolves prefixes to modules",
]
GROUPS = {}


def prepare(tmp, seed, thorough):
    out = {}
    for j in range(12 if thorough else 4):
        gs = [Ids("g%d%s" % (j, c), seed, mods=2 + i % 4, count=6 + 3 * (i % 3), shared_alias=j % 2 == 1) for i, c in enumerate("abcdef")]
        texts = {}
        for g in gs:
            texts.update(g.text)
        GROUPS["id%d" % j] = gs
        # in any order of the modules on the command line
        names = [n for n in texts if not n.endswith("-sub")]
        random.Random("order/%s/%d" % (seed, j)).shuffle(names)
        out["id%d" % j] = gen.build(tmp, "id%d" % j, texts, main=names)
    return out


def safe(m):
    return m.replace("-", "_")


def generated(E, M):
    """each identityref leaf of random sets of modules, with each name of each identity"""
    k = E.choose("group", sorted(GROUPS))
    g = E.choose("set", GROUPS[k])
    b = M.b(k)
    o = {m: getattr(b, safe(m))() for m in g.mods}
    cands = g.candidates()
    r = random.Random(E.seed("seed"))
    for m, l, base, td, ll in g.leaves:
        c = o[m].c
        for t in r.sample(cands, min(len(cands), 60)):
            want = g.accepts(base, t)
            if want is None:
                continue
            c2 = getattr(c, l)
            if ll:
                n = len(c2)
                ok, _ = attempt(c2.append, t)
                if ok and any(q == t for q in list(c2)[:n]):
                    want = True
            else:
                ok, _ = attempt(setattr, c, l, t)
            E.prove("accepted-iff-derived" if ok == want else "accepted-iff-derived: %s:%s (base %s:%s) %s %r" % (m, l, base[0], base[1], "accepts" if ok else "refuses", t), ok == want)


def small(E, M):
    """all graphs of up to four identities in two modules: the class map of the generator"""
    from pyang import context, repository

    P = loader.native("pyangbind.plugin.pybind")
    misc = M.mod("misc")
    n = E.choose("identities", [1, 2, 3, 4])
    bases = [[]]
    for i in range(1, n):
        bases.append(list(E.choose("bases", [c for k in (0, 1, 2) for c in itertools.combinations(range(i), k)])))
    at = [E.choose("module", [0, 1]) for _ in range(n)]
    E.assume(all(at[j] <= at[i] for i in range(n) for j in bases[i]))
    order = E.choose("order", list(itertools.permutations(range(n))))
    shared = E.choose("shared-name", [False, True])
    names = ["i%d" % i for i in range(n)]
    if shared and n > 1 and at[0] != at[n - 1]:
        names[n - 1] = names[0]
    mods, pfx = ["ma", "mb"], ["a", "b"]

    def text(m):
        body = ""
        for i in order:
            if at[i] == m:
                body += " identity %s {%s}" % (names[i], "".join(" base %s%s;" % ("" if at[j] == m else "a:", names[j]) for j in bases[i]))
        return "module %s { yang-version 1.1; namespace \"urn:%s\"; prefix %s; %s %s }" % (mods[m], mods[m], pfx[m], "import ma { prefix a; }" if m else "", body)

    ctx = context.Context(repository.FileRepository("/nonexistent", no_path_recurse=True, use_env=False))
    ms = [ctx.add_module(mods[i], text(i)) for i in (0, 1)]
    ctx.validate()
    defn = {}
    seq = [0, 1] if E.choose("modules", [0, 1]) == 0 else [1, 0]
    for i in seq:
        for k, v in misc.find_definitions("identity", ctx, ms[i], pfx[i]).items():
            defn.setdefault(k, v)
    old = dict(P.class_map)
    try:
        P.build_identities(ctx, defn)
        for i in range(n):
            d, more = set(), True
            while more:
                more = False
                for j in range(n):
                    if j not in d and any(q == i or q in d for q in bases[j]):
                        d.add(j)
                        more = True
            arg = P.class_map["%s:%s" % (pfx[at[i]], names[i])]["restriction_argument"]
            want = {x for j in d for x in (names[j], "%s:%s" % (mods[at[j]], names[j]), "%s:%s" % (pfx[at[j]], names[j]))}
            E.prove("exactly-the-derived-identities" if set(arg) == want else "exactly-the-derived-identities: %s, should be %s in %s" % (sorted(arg), sorted(want), [text(0), text(1)]), set(arg) == want)
            for j in d:
                for x in (names[j], "%s:%s" % (mods[at[j]], names[j]), "%s:%s" % (pfx[at[j]], names[j])):
                    if x == names[j] and names.count(x) > 1:
                        continue
                    E.prove("module-of-the-identity", arg[x]["@module"] == mods[at[j]] and arg[x]["@namespace"] == "urn:" + mods[at[j]])
    finally:
        P.class_map.clear()
        P.class_map.update(old)


# ---------------------------------------------------------------- the store, any names


class Ident:
    """an identity statement: what the store reads of it"""

    pos = None

    def __init__(self, module, arg, bases):
        self.module, self.arg, self.bases = module, arg, bases

    def main_module(self):
        return self.module

    def search(self, k):
        assert k == "base"
        return list(self.bases)


class Base:
    pos = None

    def __init__(self, arg):
        self.arg = arg


NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."


def shapes(n):
    return itertools.product(*[[c for k in (0, 1, 2) for c in itertools.combinations(range(i), k)] for i in range(n)])


def graph(E, M, orders, owns=(False, True)):
    """identities in two modules, any graph, any names: (statements, bases, module of each, names)"""
    from pyang import context, repository

    n = E.choose("identities", [1, 2, 3] if E.symbolic else [1, 2, 3, 4])
    bases = [list(b) for b in E.choose("bases", list(shapes(n)))]
    at = [E.choose("module", [0, 1]) for _ in range(n)]
    E.assume(all(at[j] <= at[i] for i in range(n) for j in bases[i]))
    order = E.choose("order", orders(n))
    own = E.choose("own-prefix", list(owns))
    names = [E.text("name", NAME, ["a", "b", "ab", "a-b", "a_b", "x"]) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if at[i] == at[j]:
                E.assume(E.Not(names[i] == names[j]))
    ctx = context.Context(repository.FileRepository("/nonexistent", no_path_recurse=True, use_env=False))
    ms = [
        ctx.add_module("ma", 'module ma { namespace "urn:ma"; prefix a; }'),
        ctx.add_module("mb", 'module mb { namespace "urn:mb"; prefix b; import ma { prefix pa; } }'),
    ]
    ctx.validate()

    def ref(i, j):
        if at[i] != at[j]:
            return E.fmt("pa:{}", names[j])
        return E.fmt("{}:{}", "ab"[at[j]], names[j]) if own else names[j]

    stmts = [Ident(ms[at[i]], names[i], [Base(ref(i, j)) for j in bases[i]]) for i in range(n)]
    defn = M.builtin("dict")([(E.fmt("{}:{}", "ab"[at[i]], names[i]), stmts[i]) for i in order])
    return ctx, defn, bases, at, names


def store(E, M):
    """IdentityStore.build_store_from_definitions: graphs of up to three identities (concretely four), any names"""
    ctx, defn, bases, at, names = graph(E, M, lambda n: list(itertools.permutations(range(n))))
    n = len(names)
    st = M.mod("identity").IdentityStore()
    st.build_store_from_definitions(ctx, defn)
    ids = list(st)
    E.prove("one-of-each", len(ids) == n)
    mine = []
    for i in range(n):
        found = [s for s in ids if s.source_module == MODS[at[i]] and bool(s.name == names[i])]
        E.prove("found-by-module-and-name", len(found) == 1)
        mine.append(found[0])
        E.prove("namespace-and-prefix", E.And(found[0].source_namespace == "urn:" + MODS[at[i]], found[0].source_prefix == "ab"[at[i]]))
        E.prove("prefixes", sorted(str(p) for p in found[0].prefixes()) == sorted(PREFIXES[at[i]]))
    for i in range(n):
        d = derived(i, bases)
        E.prove("exactly-the-derived", sorted({id(x) for x in mine[i].children}) == sorted(id(mine[j]) for j in d))
        if d:
            E.reach("derived")


MODS = ["ma", "mb"]
PREFIXES = [["ma", "a", "pa"], ["mb", "b"]]


def accepted(E, M):
    """build_identities: the values that an identityref accepts, and the module each stands for"""
    ctx, defn, bases, at, names = graph(E, M, lambda n: list(itertools.permutations(range(n))))
    n = len(names)
    P = M.mod("pybind")
    old = P.class_map
    P.class_map = M.builtin("dict")([])
    try:
        P.build_identities(ctx, defn)
        for i in range(n):
            d = derived(i, bases)
            want = [(j, w) for j in sorted(d) for w in [names[j]] + [E.fmt("{}:{}", p, names[j]) for p in PREFIXES[at[j]]]]
            for p in PREFIXES[at[i]]:
                k = E.fmt("{}:{}", p, names[i])
                E.prove("base-is-known", k in P.class_map if not E.symbolic else P.class_map.__contains__(k))
                arg = P.class_map[k]["restriction_argument"]
                for j, w in want:
                    E.prove("a-derived-identity-is-accepted", w in arg if not E.symbolic else arg.__contains__(w))
                    E.reach("derived")
                for key in list(arg):
                    E.prove("only-derived-identities-are-accepted", E.Or(*[key == w for _, w in want]))
                for j, w in want:
                    if w is names[j] and any(q != j and bool(names[q] == names[j]) for q in d):
                        continue  # which of two of the same name a bare name stands for is not stated
                    E.prove("module-of-the-identity", E.And(arg[w]["@module"] == MODS[at[j]], arg[w]["@namespace"] == "urn:" + MODS[at[j]]))
    finally:
        P.class_map = old


def derived(i, bases):
    d, more = set(), True
    while more:
        new = {j for j in range(len(bases)) if j not in d and any(q == i or q in d for q in bases[j])}
        d |= new
        more = bool(new)
    return d


HARNESSES = [
    H(accepted, conc=300, models=[], covers=["derived"], sym_s=60, shards=8),
    H(store, conc=300, models=[], covers=["derived"], sym_s=60, shards=8),
    H(generated, sym=False, conc=200, models=[]),
    H(small, sym=False, conc=1500, models=[]),
]
