"""C04: a rejected write changes nothing."""
import random

from pyvc.runner import H
from harness import leaves, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = ["the error that a rejected write raises is any exception; which one is the matter of the properties of the types"]
SETS = Sets("sr", n=5, size=16, feat=("topleaf",))
PSETS = Sets("sq", n=4, size=14, feat=("topleaf",), flags=("--presence", "--use-xpathhelper"))
ANY = (TypeError, ValueError, KeyError, AttributeError, IndexError)


def prepare(tmp, seed, thorough):
    out = SETS.prepare(tmp, seed, thorough)
    out.update(PSETS.prepare(tmp, seed, thorough))
    return out


def before(E, va, w):
    """some state around the element to be written: symbolic values, so any values of these leaves"""
    k = E.choose("state", ["fresh", "used"])
    if k == "used":
        va.types.i8 = 5
        va.types.s2 = "abc"
        va.types.d2 = 2
        va.types.en = "two"
        va.types.un = "auto"
        va.types.bi = "zulu"
        va.lls.li = [w, 7]
        va.lls.lr.append(25)
        va.ch.outside = w
    return k


def leaf_writes(E, M):
    """all values that a leaf refuses, in a fresh tree and in one with values"""
    va = M.b("va").va()
    w = E.int("w", lo=-100, hi=100)
    E.assume(E.Not(w == 7))
    before(E, va, w)
    k = E.choose("kind", ["int", "text", "dec", "bin", "name", "union"])
    if k == "int":
        leaf = E.choose("leaf", ["i8", "u64", "r1", "r2", "r3", "r5", "df1", "df9", "bo"])
        v = E.int("v")
    elif k == "text":
        leaf = E.choose("leaf", ["s2", "s4", "s6"])
        v = E.str("v", pool=leaves.TEXTS)
    elif k == "dec":
        leaf = E.choose("leaf", ["d2", "d3"])
        v = E.decimal("v", scale=E.choose("scale", [0, 3]))
    elif k == "bin":
        leaf = "binl"
        v = E.bytes("v")
    elif k == "union":
        leaf = E.choose("leaf", ["un", "un2"])
        v = leaves.union_value(E)[1]
    else:
        leaf = E.choose("leaf", ["en", "id", "idl", "df7"])
        v = E.str("v", pool=leaves.TEXTS)
    a = state.snap(va)
    ok, _ = attempt(setattr, va.types, leaf, v)
    if ok:
        return
    E.prove("refused-value-changes-nothing", state.same(E, a, state.snap(va)))
    E.reach("refused")


def leaf_list_writes(E, M):
    """all values that a leaf-list refuses: appended, inserted, extended by, assigned"""
    va = M.b("va").va()
    w = E.int("w", lo=-100, hi=100)
    E.assume(E.Not(w == 7))
    s = before(E, va, w)
    n = E.choose("leaf-list", ["li", "lr", "l64", "lp", "le"])
    v = E.int("v") if n in ("li", "lr", "l64") else E.str("v", pool=leaves.TEXTS)
    good = {"li": 3, "lr": 21, "l64": 4, "lp": "ok", "le": "p"}[n]
    ll = getattr(va.lls, n)
    op = E.choose("op", ["append", "insert", "setitem", "extend", "assign", "assign-one"])
    a = state.snap(va)
    if op == "append":
        ok, _ = attempt(ll.append, v, exc=ANY)
    elif op == "insert":
        ok, _ = attempt(ll.insert, 0, v, exc=ANY)
    elif op == "setitem":
        ok, _ = attempt(ll.__setitem__, 0, v, exc=ANY)
    elif op == "extend":
        ok, _ = attempt(ll.extend, [good, v], exc=ANY)
    elif op == "assign":
        ok, _ = attempt(setattr, va.lls, n, [good, v], exc=ANY)
    else:
        ok, _ = attempt(setattr, va.lls, n, v, exc=ANY)
    if ok:
        return
    E.prove("refused-value-changes-nothing", state.same(E, a, state.snap(va)))
    E.reach("refused")


def choice_writes(E, M):
    """refused writes to members of a choice leave the selected case, at both nestings"""
    va = M.b("va").va()
    w = E.int("w", lo=-100, hi=100)
    sel = E.choose("selected", ["none", "a1", "acx", "b1", "bl", "cd1", "cx", "list", "short", "z1"])
    if sel == "a1":
        va.ch.a1 = w
    elif sel == "acx":
        va.ch.ac.acx = w
    elif sel == "b1":
        va.ch.b1 = w
    elif sel == "bl":
        va.ch.bl.append("x")
    elif sel == "cd1":
        va.ch.cc.d1 = w
    elif sel == "cx":
        va.ch.cc.cx = w
    elif sel == "list":
        va.ch.cl.add("k").v = w
    elif sel == "short":
        va.ch.short = w
    elif sel == "z1":
        va.ch.z1 = w
    va.ch.e2 = w
    v = E.int("v")
    E.assume(E.Or(v < -(2**31), v > 2**31 - 1))
    op = E.choose("write", ["a1", "acx", "b1", "d2", "cx", "short", "z1", "e1", "entry", "bl"])
    a = state.snap(va)
    if op in ("a1", "b1", "short", "z1", "e1"):
        ok, _ = attempt(setattr, va.ch, op, v)
    elif op == "acx":
        ok, _ = attempt(setattr, va.ch.ac, "acx", v)
    elif op in ("d2", "cx"):
        ok, _ = attempt(setattr, va.ch.cc, op, v)
    elif op == "bl":
        ok, _ = attempt(va.ch.bl.insert, 0, "x", exc=ANY) if sel == "bl" else (False, None)
    else:
        ok, _ = attempt(setattr, va.ch, "cl", v, exc=ANY)
    E.prove("out-of-range-is-refused", not ok)
    E.prove("refused-value-changes-nothing", state.same(E, a, state.snap(va)))
    E.reach("refused")


def list_writes(E, M):
    """refused keys (all values), duplicates and absent entries"""
    va = M.b("va").va()
    w = E.int("w", lo=-100, hi=100)
    if E.choose("state", ["fresh", "used"]) == "used":
        va.tree.one.add(w).c.w = 3
        va.tree.two.add(a="x", b_c=w).v = "t"
        va.tree.en.add("p").v = w
        va.tree.one[w].sub.add("s").n = w
    op = E.choose("op", ["one", "two", "two-bad-key", "en", "dup-one", "dup-two", "delete-one", "key-leaf", "key-leaf-2"])
    v = E.int("v")
    a = state.snap(va)
    if op == "one":
        E.assume(E.Or(v < -(2**31), v > 2**31 - 1))
        ok, _ = attempt(va.tree.one.add, v, exc=ANY)
    elif op == "two":
        E.assume(E.Or(v < -(2**31), v > 2**31 - 1))
        ok, _ = attempt(lambda: va.tree.two.add(a="x", b_c=v), exc=ANY)
    elif op == "two-bad-key":
        ok, _ = attempt(lambda: va.tree.two.add(a="x"), exc=ANY)
    elif op == "en":
        t = E.str("t", pool=["p", "q", "r", "", "P"])
        E.assume(E.And(E.Not(t == "p"), E.Not(t == "q")))
        ok, _ = attempt(va.tree.en.add, t, exc=ANY)
    elif op == "dup-one":
        E.assume(w in va.tree.one if not E.symbolic else len(va.tree.one) == 1)
        ok, _ = attempt(va.tree.one.add, w, exc=ANY)
    elif op == "dup-two":
        E.assume(len(va.tree.two) == 1)
        ok, _ = attempt(lambda: va.tree.two.add(a="x", b_c=w), exc=ANY)
    elif op == "delete-one":
        E.assume(E.Not(v == w))
        ok, _ = attempt(va.tree.one.delete, v, exc=ANY)
    elif op == "key-leaf":
        E.assume(len(va.tree.one) == 1)
        ok, _ = attempt(setattr, va.tree.one[w], "k", v, exc=ANY)
    else:
        E.assume(len(va.tree.two) == 1)
        ok, _ = attempt(setattr, list(va.tree.two.values())[0], "b_c", v, exc=ANY)
    E.prove("write-is-refused", not ok)
    E.prove("refused-write-changes-nothing", state.same(E, a, state.snap(va)))
    E.reach("refused")


JUNK = [None, -1, 0, 1, 5, 10**30, 1.5, "", "x", "true", "zzz zzz", "9" * 30, b"\x00", [], ["x", "x"], [1, 1], [None], {}, {"a": 1}, True, object(), (), "up", "é" * 40, [[]], "2", [1, "zz", -5], float("nan"), float("inf"), "nan"]


def elements(o, g, children, path=()):
    """(schema node, parent object, path) of everything that can be written to, including inside entries"""
    out = []
    for c, _ in S.flatten(children):
        out.append((c, o, path + (c.name,)))
        x = getattr(o, c.safe)
        if c.kind == "container":
            out += elements(x, g, c.children, path + (c.name,))
        elif c.kind == "list":
            for i, e in enumerate(x.values()):
                out += elements(e, g, c.children, path + (c.name, i))
    return out


def random_write(r, c, o):
    """one write with some value, through any operation of that kind of element"""
    junk = r.choice(JUNK)
    if r.random() < 0.25 and c.kind in ("leaf", "leaf-list"):
        v = c.t.value(r)
        junk = S.form(v, r) if v is not None else junk
    setter = getattr(o, "_set_" + c.safe) if r.random() < 0.4 else (lambda v: setattr(o, c.safe, v))
    x = getattr(o, c.safe)
    if c.kind == "leaf":
        if c.t.kind == "bits" and r.random() < 0.4:
            return getattr(x, r.choice(["add", "remove", "discard"]))("no-such-bit")
        return setter(junk)
    if c.kind == "leaf-list":
        op = r.choice(["append", "insert", "setitem", "extend", "assign", "assign", "remove", "pop", "del", "setone"])
        if op == "append":
            return x.append(junk)
        if op == "insert":
            return x.insert(r.randrange(3), junk)
        if op == "setitem":
            return x.__setitem__(r.randrange(3), junk)
        if op == "extend":
            good = [S.form(v, r) for v in (c.t.value(r), c.t.value(r)) if v is not None]
            return x.extend(good + [junk])
        if op == "assign":
            good = [S.form(v, r) for v in (c.t.value(r),) if v is not None]
            return setter(good + [junk])
        if op == "remove":
            return x.remove(junk)
        if op == "pop":
            return x.pop(7)
        if op == "del":
            return x.__delitem__(7)
        return setter(junk)
    if c.kind == "container":
        return setter(junk)
    op = r.choice(["add", "add", "addkw", "addkw-part", "delete", "del", "assign", "dup", "setitem", "append", "get"])
    if op == "add":
        return x.add(junk)
    if op == "addkw" and c.keys:
        kw = {k.safe: S.form(k.t.value(r), r) for k in c.keys}
        kw[r.choice(c.keys).safe] = junk
        return x.add(**kw)
    if op == "addkw-part" and c.keys:
        kw = {k.safe: S.form(k.t.value(r), r) for k in c.keys[:-1]}
        return x.add(**kw) if kw else x.add()
    if op == "delete":
        return x.delete(junk)
    if op == "del":
        del x[junk]
        return None
    if op == "assign":
        return setter(junk)
    if op == "dup" and c.keys and len(x):
        return x.add(r.choice(list(x.keys())))
    if op == "setitem":
        x[junk] = r.choice(JUNK)
        return None
    if op == "append":
        return x.append(junk)
    if op == "get":
        return x[junk]
    return None


def history(E, M, sets, ph=None):
    b, g, t, o, r = sets.draw(E, M, build=False)
    helper = None
    if ph:
        helper = M.mod("xpathhelper").YANGPathHelper()
        o = getattr(b, g.p)(path_helper=helper)
    else:
        o = getattr(b, g.p)()
    S.apply(t, o, r)
    keep = []
    for _ in range(12):
        els = elements(o, g, g.root.children)
        c, parent, path = r.choice(els)
        a = state.snap(o)
        l0 = state.lookups(helper, g.root.children) if ph else None
        keep.append(l0)
        try:
            random_write(r, c, parent)
            continue
        except Exception as e:
            what = "%s: %r" % ("/".join(map(str, path)), e)
        b2 = state.snap(o)
        E.prove("refused-write-changes-nothing" if state.same(E, a, b2) else "refused-write-changes-nothing %s %s" % (what[:120], str(state.first_difference(a, b2))[:200]), state.same(E, a, b2))
        if ph:
            l1 = state.lookups(helper, g.root.children)
            E.prove("refused-write-changes-no-lookup" if state.same_lookups(l0, l1) else "refused-write-changes-no-lookup %s" % what[:200], state.same_lookups(l0, l1))


def generated(E, M):
    """random histories of writes with random values on random trees of random modules"""
    history(E, M, SETS)


def with_path_helper(E, M):
    """the same with a path helper: lookups of every path of the schema, too"""
    history(E, M, PSETS, True)


HARNESSES = [
    H(leaf_writes, covers=["refused"], conc=300, models=["va"], shards=6),
    H(leaf_list_writes, covers=["refused"], conc=300, models=["va"], shards=4),
    H(choice_writes, covers=["refused"], conc=200, models=["va"], shards=6),
    H(list_writes, covers=["refused"], conc=200, models=["va"], shards=2),
    H(generated, sym=False, conc=500),
    H(with_path_helper, sym=False, conc=300),
]
