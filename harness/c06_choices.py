"""C06: at most one case of a choice holds data."""
from pyvc.runner import H
from harness import gen, history, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "induction over histories: every state that satisfies the invariant (at most one case of each choice holds data) is over-approximated by the data set in it, "
    "any subset of the members of one case, with any values; one more operation re-establishes the invariant",
]
SETS = Sets("sh", n=6, size=16, feat=("lldef", "topleaf", "topchoice", "choices"))
TSETS = Sets("st", n=3, size=6, feat=("lldef", "topchoice", "choices"))


def prepare(tmp, seed, thorough):
    out = SETS.prepare(tmp, seed, thorough)
    out["ck"] = gen.build(tmp, "ck", CK)
    out.update(TSETS.prepare(tmp, seed, thorough))
    return out


# the data nodes of va's container ch and nch, with the (choice, case) pairs they are under
CH = {
    "a1": [("c1", "a")], "a2": [("c1", "a")], "ac.acx": [("c1", "a")], "b1": [("c1", "b")], "bl": [("c1", "b")], "cc.cx": [("c1", "c")],
    "cc.d1": [("c1", "c"), ("c2", "d1")], "cc.d2": [("c1", "c"), ("c2", "d2")], "cl": [("c1", "l")], "short": [("c1", "short")], "z1": [("c1", "z")],
    "e1": [("c3", "e1")], "e2": [("c3", "e2")], "outside": [],
}
NCH = {"o1l": [("outer", "o1")], "n1": [("outer", "o1"), ("nested", "n1")], "n2": [("outer", "o1"), ("nested", "n2")], "o2l": [("outer", "o2")]}


def compatible(spec, a, b):
    return all(x == y for x, y in zip(spec[a], spec[b]) if x[0] == y[0]) or not same_choice(spec[a], spec[b])


def same_choice(p, q):
    return any(x[0] == y[0] and x[1] != y[1] for x in p for y in q)


def present(c, n):
    """does this node hold data"""
    x = c
    for part in n.split("."):
        x = getattr(x, part)
    k = state.kind(x)
    return x._changed() if k == "leaf" else len(x) > 0


def value_of(c, n):
    x = c
    for part in n.split("."):
        x = getattr(x, part)
    k = state.kind(x)
    if k == "leaf":
        return x
    return [v for v in x] if k == "leaf-list" else [e.v for e in x.values()]


def write(c, n, w, how="assign"):
    if n == "bl":
        if how == "assign":
            c.bl = ["p"]
        else:
            c.bl.append("p")
    elif n == "cl":
        if len(c.cl):
            c.cl["k"].v = w
        else:
            e = c.cl.add("k")
            if how == "assign":
                e.v = w
    elif n == "a2":
        c.a2 = "text"
    elif "." in n:
        a, b = n.split(".")
        setattr(getattr(c, a), b, w)
    else:
        setattr(c, n, w)


def step(E, c, spec):
    """any state with the invariant, any write -> the invariant, with the others kept"""
    names = sorted(spec)
    # the state: members of one combination of cases
    first = E.choose("in-the-case-of", names)
    w = E.int("w", lo=-1000, hi=1000)
    u = E.int("u", lo=-1000, hi=1000)
    sub = [n for n in names if not same_choice(spec[first], spec[n])]
    chosen = [first]
    for n in sub:
        if n != first and all(not same_choice(spec[n], spec[m]) for m in chosen):
            if E.choose("also", [False, True]):
                chosen.append(n)
    for n in chosen:
        write(c, n, w)
    for n in names:
        if n in chosen:
            E.assume(present(c, n))  # the writes of the state do not clear one another (itself part of what is proved below)
    what = E.choose("write", names)
    how = E.choose("how", ["assign", "append"]) if what in ("bl", "cl") else "assign"
    kept = {n: value_of(c, n) for n in chosen}
    write(c, what, u, how)
    for n in names:
        if n == what:
            E.prove("written-member-holds-data", present(c, n))
        elif n not in chosen:
            E.prove("nothing-else-appears", not present(c, n))
        elif same_choice(spec[what], spec[n]):
            E.prove("other-cases-are-unset", not present(c, n))
        else:
            E.prove("same-case-and-outside-are-kept", present(c, n))
            a, b = kept[n], value_of(c, n)
            if isinstance(a, list):
                E.prove("kept-with-its-values", len(a) == len(b) and E.And(*[x == y for x, y in zip(a, b)]))
            else:
                E.prove("kept-with-its-value", a == b)
    E.reach("written")


def nested(E, M):
    """choices one within another, directly"""
    step(E, M.b("va").va().nch, NCH)


def pairs(E, M):
    """each pair of members: the second written after the first, then the first again"""
    c = M.b("va").va().ch
    names = sorted(CH)
    a, b = E.choose("first", names), E.choose("second", names)
    w, u = E.int("w", lo=-1000, hi=1000), E.int("u", lo=-1000, hi=1000)
    write(c, a, w, E.choose("how", ["assign", "append"]) if a in ("bl", "cl") else "assign")
    write(c, b, u, E.choose("how", ["assign", "append"]) if b in ("bl", "cl") else "assign")
    for n in names:
        E.prove("holds-data-iff-written-and-not-excluded", present(c, n) == (n == b or (n == a and not same_choice(CH[a], CH[b]))))
    write(c, a, w)
    for n in names:
        E.prove("holds-data-iff-written-and-not-excluded-again", present(c, n) == (n == a or (n == b and not same_choice(CH[a], CH[b]))))
    if a != "bl" and a != "a2":
        x = value_of(c, a)
        E.prove("written-value-is-held", (x[0] if a == "cl" else x) == w)
    E.reach("written")


def states(E, M):
    """container ch: any members of one combination of cases, then any write"""
    step(E, M.b("va").va().ch, CH)


CK = """module ck { yang-version 1.1; namespace "urn:ck"; prefix ck;
  container c {
    choice outer {
      case o1 { leaf a { type int32; } container pe { presence "x"; }
        choice inner {
          case i1 { container pi { presence "x"; } leaf b { type int32; } }
          case i2 { list l { key k; leaf k { type string; } leaf v { type int32; } } leaf-list ll { type int32; } }
          leaf i3 { type int32; } } }
      case o2 { container pf { presence "x"; leaf x { type int32; } } container np { leaf x { type int32; } container deep { presence "x"; } } }
      leaf short { type int32; }
    }
    container po { presence "x"; }
    leaf lo { type int32; default 3; }
    choice apart { leaf p1 { type int32; } container p2 { presence "x"; } leaf-list p3 { type int32; } }
  } }"""
O1, O2 = ("outer", "o1"), ("outer", "o2")
KINDS = {
    "a": [O1], "pe": [O1], "pi": [O1, ("inner", "i1")], "b": [O1, ("inner", "i1")], "l": [O1, ("inner", "i2")], "ll": [O1, ("inner", "i2")], "i3": [O1, ("inner", "i3")],
    "pf": [O2], "pf.x": [O2], "np.x": [O2], "np.deep": [O2], "short": [("outer", "short")], "po": [], "lo": [],
    "p1": [("apart", "p1")], "p2": [("apart", "p2")], "p3": [("apart", "p3")],
}
SETTING = ("pe", "pi", "pf", "np.deep", "po", "p2")


def put(E, c, n, v):
    x, at = c, c
    for part in n.split("."):
        at, x = x, getattr(x, part)
    if n in SETTING:
        x._set_present()
    elif n == "l":
        x.add(E.fmt("n{}", v)).v = v
    elif n in ("ll", "p3"):
        x.append(v)
    else:
        setattr(at, n.split(".")[-1], v)


def there(E, c, n, v=None):
    """is it set (to this value)"""
    x = c
    for part in n.split("."):
        x = getattr(x, part)
    if n in SETTING:
        return bool(x._present())
    if n in ("l", "ll", "p3"):
        if v is None or len(x) != 1:
            return len(x) > 0
        return [e.v for e in x.values()][0] == v if n == "l" else x[0] == v
    return x._changed() if v is None else E.And(x._changed(), x == v)


def kinds(E, M):
    """elements of every kind - presence containers, with and without contents, leaves, lists and leaf-lists - as the members
    of cases of nested choices, of one beside them, and of none: two of them set, then a third"""
    c = M.b("ck").ck().c
    names = sorted(KINDS)
    w, u = E.int("w", lo=-1000, hi=1000), E.int("u", lo=-1000, hi=1000)
    one, two = E.choose("first", names), E.choose("second", [None] + names)
    want = {}

    def do(n, v):
        if n in want and n in ("l", "ll", "p3"):
            return  # one entry in each
        put(E, c, n, v)
        for m in list(want):
            if same_choice(KINDS[n], KINDS[m]):
                del want[m]
        if n == "pf.x" or n == "pf":
            want["pf"] = None
        want[n] = v

    do(one, w)
    if two is not None:
        do(two, u)
    check(E, c, names, want)
    do(E.choose("third", names), u)
    check(E, c, names, want)
    E.reach("written")


def check(E, c, names, want):
    for n in names:
        if n == "pf" and "pf.x" in want:
            continue  # what is in it says that it is there
        if n in want:
            E.prove("what-was-written-is-kept", there(E, c, n, want[n] if n not in SETTING else None))
        else:
            E.prove("nothing-of-another-case", not there(E, c, n))


def run(E, M, sets, steps):
    b, g, t, o, r = sets.draw(E, M, build=False)
    h = history.History(r, g, getattr(b, g.p)())
    h.make = lambda: getattr(b, g.p)()
    for i in range(E.choose("steps", steps)):
        h.step()
        d = S.diff(h.o, h.tree, g.root.children)
        E.prove("holds-the-model" if d is None else "holds-the-model: %s after %s" % (d, h.log[-6:]), d is None)


def generated(E, M):
    """histories on random modules full of choices: nested, augmented, short cases, containers, lists, leaf-lists, at the top level"""
    run(E, M, SETS, [4, 12, 30])


def top_level(E, M):
    """the same with a choice at the top level of the module as most of it"""
    run(E, M, TSETS, [4, 12, 30])


HARNESSES = [
    H(nested, covers=["written"], conc=150, models=["va"], shards=2),
    H(pairs, covers=["written"], conc=300, models=["va"], shards=8, sym_s=90),
    H(states, sym=False, conc=500, models=["va"]),
    H(kinds, covers=["written"], conc=500, models=[], shards=12, sym_s=90),
    H(generated, sym=False, conc=500),
    H(top_level, sym=False, conc=300),
]
