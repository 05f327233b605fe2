"""C05: changed tracking; filtered output holds exactly what was set."""
import json

from pyvc.runner import H
from harness import leaves, history, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
SETS = Sets("sc", n=7, size=16, feat=("lldef", "topleaf",))


def prepare(tmp, seed, thorough):
    return SETS.prepare(tmp, seed, thorough)


def flags(o, path=""):
    """paths of all elements that report themselves as changed"""
    return {x[0] for x in state.snap(o) if x[2]}


def scalar_written(E, M):
    """all values of all types: one write makes the leaf and what is above it, and nothing else, changed"""
    va = M.b("va").va()
    k, v, leafs, lls = leaves.value(E)
    E.prove("nothing-is-changed-initially", flags(va) == set())
    ok, c, n, ll = leaves.place(E, va, v, leafs, lls)
    p = "/%s/%s" % (c, n)
    E.prove("changed-iff-accepted", flags(va) == ({p, "/" + c} if ok else set()))
    d = va.get(filter=True)
    if ok:
        E.prove("filtered-holds-exactly-it", set(d) == {c} and set(d[c]) == {n})
        x = d[c][n]
        E.prove("filtered-holds-its-value", (x[0] if ll else x) == leaves.get(va, c, n, ll))
        E.reach("accepted")
        getattr(getattr(va, c), "_unset_" + n)()
        E.prove("unset-is-not-changed", p not in flags(va))
        E.prove("unset-is-not-in-filtered", va.get(filter=True) == {})
    else:
        E.prove("filtered-is-empty", d == {})
        E.reach("rejected")


DEF = [("df1", 42), ("df2", 17), ("df3", 19), ("df4", "abc"), ("df5", True), ("df7", "y"), ("df9", 0), ("df10", False), ("i8", 0), ("s1", ""), ("bo", False), ("bi", ""), ("bin", b"")]


def default_values(E, M):
    """a value equal to the default, or to the zero value of the type, is a value as any other"""
    va = M.b("va").va()
    n, v = E.choose("leaf", DEF)
    E.prove("default-alone-is-not-changed", not getattr(va.types, n)._changed())
    E.prove("default-alone-is-not-in-filtered", va.get(filter=True) == {})
    setattr(va.types, n, v)
    E.prove("changed", getattr(va.types, n)._changed())
    d = va.get(filter=True)
    E.prove("in-filtered", set(d) == {"types"} and set(d["types"]) == {n})
    w = E.int("w", lo=0, hi=9)
    va.types.u8 = w
    E.prove("still-changed", getattr(va.types, n)._changed())
    E.prove("both-in-filtered", set(va.get(filter=True)["types"]) == {n, "u8"})
    E.reach("set")


PLACES = ["inner.x", "inner.deep.z", "inner.deep.zz", "pres.p", "one.c.w", "one.sub.n", "two.v", "en.v", "augc.al", "one.augone.q"]


def write_at(va, p, w, first=True):
    """a write of w at this place -> the paths that must be changed"""
    t = va.tree
    if p == "inner.x":
        t.inner.x = w
        return {"/tree/inner", "/tree/inner/x"}
    if p == "inner.deep.z":
        t.inner.deep.z = w
        return {"/tree/inner", "/tree/inner/deep", "/tree/inner/deep/z"}
    if p == "inner.deep.zz":
        t.inner.deep.zz.append("q")
        return {"/tree/inner", "/tree/inner/deep", "/tree/inner/deep/zz"}
    if p == "pres.p":
        t.pres.p = w
        return {"/tree/pres", "/tree/pres/p"}
    if p == "augc.al":
        t.augc.al = w
        return {"/tree/augc", "/tree/augc/al"}
    if p in ("one.c.w", "one.sub.n", "one.augone.q"):
        e = t.one[4] if len(t.one) else t.one.add(4)
        out = {"/tree/one", "/tree/one[0]", "/tree/one[0]/k"}
        if p == "one.c.w":
            e.c.w = w
            return out | {"/tree/one[0]/c", "/tree/one[0]/c/w"}
        if p == "one.augone.q":
            e.augone.q = w
            return out | {"/tree/one[0]/augone", "/tree/one[0]/augone/q"}
        s = e.sub["n"] if len(e.sub) else e.sub.add("n")
        s.n = w
        return out | {"/tree/one[0]/sub", "/tree/one[0]/sub[0]", "/tree/one[0]/sub[0]/name", "/tree/one[0]/sub[0]/n"}
    if p == "two.v":
        e = list(t.two.values())[0] if len(t.two) else t.two.add(a="x", b_c=3)
        e.v = "v"
        return {"/tree/two", "/tree/two[0]", "/tree/two[0]/a", "/tree/two[0]/b_c", "/tree/two[0]/v"}
    e = list(t.en.values())[0] if len(t.en) else t.en.add("q")
    e.v = w
    return {"/tree/en", "/tree/en[0]", "/tree/en[0]/e", "/tree/en[0]/v"}


def depth(E, M):
    """two writes anywhere in nested containers and lists, also augmented ones: exactly these and what is above is changed"""
    va = M.b("va").va()
    w = E.int("w", lo=0, hi=100)
    a, b = E.choose("first", PLACES), E.choose("second", PLACES)
    want = {"/tree"} | write_at(va, a, w)
    E.prove("first-and-above-changed", flags(va) == want)
    want |= write_at(va, b, w)
    E.prove("both-and-above-changed", flags(va) == want)
    E.reach("written")


def generated(E, M):
    """histories of writes, unsets and replacements on random trees of random modules"""
    b, g, t, o, r = SETS.draw(E, M, build=False)
    h = history.History(r, g, getattr(b, g.p)())
    h.make = lambda: getattr(b, g.p)()
    for i in range(E.choose("steps", [3, 10, 25])):
        h.step()
    d = S.diff(h.o, h.tree, g.root.children)
    E.prove("changed-iff-set" if d is None else "changed-iff-set: %s after %s" % (d, h.log[-6:]), d is None)
    tree = history.prune(h.tree)
    d = history.changed_above(h.o, tree, g.root.children)
    E.prove("above-is-changed" if d is None else "above-is-changed: %s after %s" % (d, h.log[-6:]), d is None)
    d = history.get_filtered(h.o.get(filter=True), tree, g.root.children)
    E.prove("filtered-holds-what-is-set" if d is None else "filtered-holds-what-is-set: %s" % d, d is None)
    d = history.get_all(h.o.get(), h.tree, g.root.children, h.o)
    E.prove("unfiltered-holds-everything" if d is None else "unfiltered-holds-everything: %s" % d, d is None)
    j = json.loads(M.pj.dumps(h.o, mode="ietf"))
    w = S.exp_ietf(tree, g.root.children, None)
    ok = S.jeq(j, w)
    E.prove("serialised-holds-what-is-set" if ok else "serialised-holds-what-is-set: %s, should be %s" % (json.dumps(j)[:1500], str(w)[:1500]), ok)


HARNESSES = [
    H(scalar_written, covers=["accepted", "rejected"], conc=300, models=["va"], shards=4),
    H(default_values, covers=["set"], conc=50, models=["va"]),
    H(depth, covers=["written"], conc=100, models=["va"], shards=4),
    H(generated, sym=False, conc=600),
]
