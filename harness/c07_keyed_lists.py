"""C07: a keyed list is an ordered map from key values to entries."""
from pyvc.runner import H
from harness import history, mapkeys, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "the text of a number is its canonical decimal one (a key given as 05 or +5 is another text)",
    "induction over histories: a list with at most two entries (sweeps: any number) with any keys, then one operation",
]
SETS = Sets("sl", n=6, size=16, feat=("topleaf", "nochoice"))
ANY = (TypeError, ValueError, KeyError, AttributeError)
LO, HI = -(2**31), 2**31 - 1


def prepare(tmp, seed, thorough):
    return dict(SETS.prepare(tmp, seed, thorough), mk=mapkeys.build(tmp))


def content(kind, e):
    return e.c.w if kind == "one" else e.v


def setup(E, va, kind, ks, ws):
    for k, w in zip(ks, ws):
        if kind == "one":
            va.tree.one.add(k).c.w = w
        elif kind == "two":
            va.tree.two.add(a=E.fmt("n{}", k), b_c=k).v = E.fmt("v{}", w)
        elif kind == "sk":
            va.tree.sk.add(E.fmt("n{}", k)).v = w
        else:
            va.tree.uo.add(E.fmt("n{}", k)).v = w


def compare(E, kind, l, model):
    """the entries, in order, are those of the model"""
    E.prove("as-many-entries", len(l) == len(model))
    for e, (k, w) in zip(l.values(), model):
        if kind == "one":
            E.prove("key-leaf-equals-key", e.k == k)
        elif kind == "two":
            E.prove("key-leaves-equal-keys", E.And(e.a == E.fmt("n{}", k), e.b_c == k))
        else:
            E.prove("key-leaf-equals-key", e.name == E.fmt("n{}", k))
        if w is not None:
            E.prove("content-kept", content(kind, e) == (E.fmt("v{}", w) if kind == "two" else w))
        else:
            E.prove("a-new-entry-is-empty", not (e.c.w if kind == "one" else e.v)._changed())


def key(E, kind, k):
    return k if kind == "one" else E.fmt("n{} {}", k, k) if kind == "two" else E.fmt("n{}", k)


def operations(E, M):
    """any list of up to two entries, any operation with any key"""
    va = M.b("va").va()
    kind = E.choose("list", ["one", "two", "sk", "uo"])
    l = getattr(va.tree, kind)
    n = E.choose("entries", [0, 1, 2] if E.symbolic else [0, 1, 2, 3, 4])
    ks = [E.int("k", lo=LO, hi=HI) for _ in range(n)]
    ws = [E.int("w", lo=-100, hi=100) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.Not(ks[i] == ks[j]))
    setup(E, va, kind, ks, ws)
    model = list(zip(ks, ws))
    compare(E, kind, l, model)
    op = E.choose("op", ["add", "delete", "del", "get", "item", "contains", "assign-key", "new-item", "append"])
    k = E.int("key")
    if kind != "one":
        E.assume(E.And(k >= LO, k <= HI))
    at = None
    for i, q in enumerate(ks):
        if q == k:
            at = i
    kk = key(E, kind, k)
    if op == "add":
        if kind == "two":
            ok, e = attempt(lambda: l.add(a=E.fmt("n{}", k), b_c=k), exc=ANY)
        else:
            ok, e = attempt(l.add, kk, exc=ANY)
        valid = E.And(k >= LO, k <= HI)
        E.prove("added-iff-absent-and-valid", E.Iff(ok, E.And(valid, at is None)))
        if ok:
            model.append((k, None))
            E.prove("add-returns-the-entry", e is list(l.values())[-1])
            E.reach("added")
        else:
            E.prove("refused-with-KeyError", isinstance(e, KeyError))
            E.reach("add-refused")
    elif op in ("delete", "del"):
        if op == "delete":
            ok, e = attempt(l.delete, kk, exc=ANY) if kind != "two" else attempt(lambda: l.delete(a=E.fmt("n{}", k), b_c=k), exc=ANY)
        else:
            ok, e = attempt(l.__delitem__, kk, exc=ANY)
        E.prove("deleted-iff-present", ok == (at is not None))
        if ok:
            model.pop(at)
            E.reach("deleted")
        else:
            E.prove("refused-with-KeyError", isinstance(e, KeyError))
    elif op in ("get", "item"):
        if op == "get":
            ok, e = attempt(l.__getitem__, kk, exc=ANY)
        else:
            named = {"one": {"k": k}, "two": {"a": E.fmt("n{}", k), "b_c": k}}.get(kind, {"name": kk})
            ok, e = attempt(lambda: l._item(**named), exc=ANY)
        E.prove("found-iff-present", ok == (at is not None))
        if ok:
            E.prove("finds-its-entry", e is list(l.values())[at])
            E.reach("found")
        else:
            E.prove("refused-with-KeyError", isinstance(e, KeyError))
    elif op == "contains":
        E.prove("contains-iff-present", (kk in l) == (at is not None) if not E.symbolic else E.Iff(l.__contains__(kk), at is not None))
        E.prove("length", len(l) == n)
        E.prove("iterates-keys-in-order", [x for x in l] == list(l.keys()) if not E.symbolic else len(list(l)) == n)
        for q, x in zip(ks, l.keys()):
            E.prove("keys-in-order", x == key(E, kind, q))
    elif op == "assign-key":
        E.assume(n > 0)
        e = list(l.values())[0]
        leaf = {"one": "k", "two": "b_c", "sk": "name", "uo": "name"}[kind]
        ok, _ = attempt(setattr, e, leaf, k if kind in ("one", "two") else kk, exc=ANY)
        E.prove("key-leaf-cannot-be-assigned", not ok)
    elif op == "append":
        # an entry that was made elsewhere
        E.assume(E.And(k >= LO, k <= HI))
        other = getattr(M.b("va").va().tree, kind)
        x = other.add(a=E.fmt("n{}", k), b_c=k) if kind == "two" else other.add(kk)
        if kind == "one":
            x.c.w = 55
        else:
            x.v = "v55" if kind == "two" else 55
        l.append(x)
        if at is None:
            model.append((k, 55))
        else:
            model[at] = (k, 55)
        E.prove("found-by-its-key", l[kk] is list(l.values())[at if at is not None else -1])
        E.reach("appended")
    else:
        E.assume(E.And(k >= LO, k <= HI))
        v = l._new_item()
        if kind == "one":
            v.c.w = 55
        else:
            v.v = "v55" if kind == "two" else 55
        ok, _ = attempt(l.__setitem__, kk, v, exc=ANY)
        E.prove("item-assigned", ok)
        if at is None:
            model.append((k, 55))
        else:
            model[at] = (k, 55)
        E.reach("item-assigned")
    compare(E, kind, l, model)


def keys_of_types(E, M):
    """a key is accepted exactly when the type of the key leaf accepts it"""
    va = M.b("va").va()
    kind = E.choose("list", ["en", "one-text", "sk"])
    t = E.str("t", pool=["p", "q", "r", "", "P", "x", "7", "-3", "2147483648", "p q", "é", "a/b"])
    if kind == "en":
        l, want = va.tree.en, E.Or(t == "p", t == "q")
    elif kind == "one-text":
        v = E.int("v")
        t = E.numeral(v)
        l, want = va.tree.one, E.And(v >= LO, v <= HI)
    else:
        l, want = va.tree.sk, E.Not(t == "")
        E.assume(E.matches("[a-zA-Z0-9é ]*", t))
    ok, e = attempt(l.add, t, exc=ANY)
    E.prove("accepted-iff-the-key-leaf-accepts-it", E.Iff(ok, want))
    E.prove("entries", len(l) == (1 if ok else 0))
    if ok:
        leaf = {"en": "e", "one-text": "k", "sk": "name"}[kind]
        E.prove("key-leaf-equals-key", getattr(e, leaf) == (v if kind == "one-text" else t))
        E.prove("found-by-its-key", l[t] is e)
        E.reach("accepted")
    else:
        E.reach("refused")


def histories(E, M):
    """random histories of list operations on one list of the corpus against a model, long"""
    import random

    va = M.b("va").va()
    r = random.Random(E.seed("seed"))
    kind = E.choose("list", ["one", "two", "sk", "uo", "en"])
    l = getattr(va.tree, kind)
    model = []
    pool = {"one": [1, 2, 0, 17, -4, 2**31 - 1], "two": [("x", 1), ("x", 2), ("x", 0), ("y", 1), ("x y", 1), ("z", -5), (" x", 1), ("y ", 1), ("", 2)], "sk": ["a", "b", "a b", "0", "é", "a/b", "a ", " a"],
            "uo": ["a", "b", "a b", "0", "é", "b "], "en": ["p", "q"]}[kind]
    bad = {"one": [2**31, "zz", -(2**31) - 1, 1.5], "two": [("x", 2**31), ("x", "q")], "sk": [], "uo": [], "en": ["r", "P", 0]}[kind]
    other = None

    def args(k):
        return ((), {"a": k[0], "b_c": k[1]}) if kind == "two" else ((k,), {})

    def native(k):
        return "%s %s" % k if kind == "two" else k

    def keyof(e):
        return {"one": lambda: e.k, "two": lambda: (e.a, e.b_c), "sk": lambda: e.name, "uo": lambda: e.name, "en": lambda: e.e}[kind]()

    for _ in range(E.choose("steps", [5, 20, 60])):
        op = r.choice(["add", "add", "add", "delete", "del", "get", "bad", "setitem", "append", "content", "copy"])
        k = r.choice(pool)
        a, kw = args(k)
        at = [i for i, (q, _) in enumerate(model) if q == k]
        if op == "add":
            ok, e = attempt(l.add, *a, exc=ANY, **kw)
            E.prove("added-iff-absent", ok == (not at))
            if ok:
                model.append((k, None))
        elif op == "bad" and bad:
            a, kw = args(r.choice(bad))
            ok, e = attempt(l.add, *a, exc=ANY, **kw)
            E.prove("invalid-key-is-refused", not ok)
        elif op == "delete":
            ok, e = attempt(l.delete, *a, exc=ANY, **kw)
            E.prove("deleted-iff-present", ok == bool(at))
            if ok:
                model.pop(at[0])
        elif op == "del":
            ok, e = attempt(l.__delitem__, native(k), exc=ANY)
            E.prove("deleted-iff-present", ok == bool(at))
            if ok:
                model.pop(at[0])
        elif op == "get":
            ok, e = attempt(l.__getitem__, native(k), exc=ANY)
            E.prove("found-iff-present", ok == bool(at))
            if ok:
                E.prove("finds-its-entry", keyof(e) == k)
            if kind != "en":
                ok, e = attempt(l._item, exc=ANY, **(kw or {"k" if kind == "one" else "name": k}))
                E.prove("found-by-its-keys-iff-present", ok == bool(at))
                if ok:
                    E.prove("finds-the-entry-of-its-keys", keyof(e) == k)
        elif op == "content" and at:
            v = r.randint(0, 99)
            e = l[native(k)]
            e.v = str(v) if kind in ("one", "two") else v
            model[at[0]] = (k, v)
        elif op in ("setitem", "append"):
            v = r.randint(0, 99)
            if op == "setitem" and kind == "two" and " " in k[0]:
                continue  # one text for two keys, one of which contains a space
            if op == "setitem":
                x = l._new_item()
            else:
                o2 = M.b("va").va()
                x = getattr(o2.tree, kind).add(*a, **kw)
            x.v = str(v) if kind in ("one", "two") else v
            if op == "setitem":
                l[native(k)] = x
            else:
                l.append(x)
            if at:
                model[at[0]] = (k, v)
            else:
                model.append((k, v))
        elif op == "copy":
            o2 = M.b("va").va()
            setattr(o2.tree, kind, l)
            l = getattr(o2.tree, kind)
            va = o2
        got = [(keyof(e), e.v._changed(), str(e.v)) for e in l.values()]
        want = [(q, w is not None, None if w is None else str(w)) for q, w in model]
        E.prove("entries-in-order" if len(got) == len(want) and all(g[0] == w[0] and g[1] == w[1] and (not w[1] or g[2] == w[2]) for g, w in zip(got, want)) else "entries-in-order: %s, should be %s" % (got, want),
                len(got) == len(want) and all(g[0] == w[0] and g[1] == w[1] and (not w[1] or g[2] == w[2]) for g, w in zip(got, want)))
        E.prove("length-and-membership", len(l) == len(model) and all((native(q) in l) == any(q == m for m, _ in model) for q in pool))
        for e in l.values():
            leaf = {"one": "k", "two": r.choice(["a", "b_c"]), "sk": "name", "uo": "name", "en": "e"}[kind]
            ok, _ = attempt(setattr, e, leaf, getattr(e, leaf), exc=ANY)
            E.prove("key-leaf-cannot-be-assigned", not ok)


def generated(E, M):
    """histories on random modules with many lists, nested and augmented"""
    b, g, t, o, r = SETS.draw(E, M, build=False)
    h = history.History(r, g, getattr(b, g.p)(), weights={"leaf": 0.2, "leaf-list": 0.1, "container": 0.3})
    h.make = lambda: getattr(b, g.p)()
    for i in range(E.choose("steps", [5, 15, 40])):
        h.step()
        d = S.diff(h.o, h.tree, g.root.children)
        E.prove("holds-the-model" if d is None else "holds-the-model: %s after %s" % (d, h.log[-6:]), d is None)


def two_forms(E, M):
    """a key that is given as a number or as its text is one key"""
    va = M.b("va").va()
    kind = E.choose("list", ["one", "two"])
    l = getattr(va.tree, kind)
    k, q = E.int("k", lo=LO, hi=HI), E.int("q", lo=LO, hi=HI)
    first, second = E.choose("first", ["number", "text"]), E.choose("second", ["number", "text"])
    k1, q1 = k if first == "number" else E.numeral(k), q if second == "number" else E.numeral(q)

    def call(f, x):
        return attempt(f, x, exc=ANY) if kind == "one" else attempt(lambda: f(a="x", b_c=x), exc=ANY)

    e = call(l.add, k1)[1]
    same = k == q
    if E.choose("op", ["add", "delete"]) == "add":
        ok, e2 = call(l.add, q1)
        E.prove("added-iff-another-key", ok == (not same))
        E.prove("entries", len(l) == (1 if same else 2))
        E.prove("the-entry-stays", list(l.values())[0] is e)
        if kind == "one":
            E.prove("found-in-either-form", E.And(l[k] is e, l[E.numeral(k)] is e))
    else:
        ok, _ = call(l.delete, q1)
        E.prove("deleted-iff-the-same-key", E.And(ok == same, len(l) == (0 if same else 1)))
    if same:
        E.reach("the same key")


def any_texts(E, M):
    """keys of any text, of one to three parts: each operation, with the key as its parts or as one text"""
    kind = E.choose("list", ["s", "p", "q"])
    n = E.choose("entries", [0, 1, 2] if E.symbolic else [0, 1, 2, 3, 4])
    op = E.choose("op", ["add", "delete", "del", "get", "item", "contains", "append", "copy"])
    parts = E.choose("as-parts", [False, True]) if op == "delete" or op == "add" and kind == "s" else True
    *ks, k = mapkeys.draw(E, kind, n + 1, digits=True)
    o = M.b("mk").mk()
    l = getattr(o.c, kind)
    model = []
    for j, q in enumerate(ks):
        for r, _ in model:
            E.assume(E.Not(mapkeys.same(E, r, q)))
        w = E.int("w", lo=-100, hi=100)
        (l.add(**mapkeys.kw(kind, q)) if parts or kind != "s" else l.add(q[0])).v = w
        model.append((q, w))
    at = None
    for i, (q, _) in enumerate(model):
        if mapkeys.same(E, q, k):
            at = i
    one, kws = mapkeys.whole(E, k), mapkeys.kw(kind, k)
    e = None
    if op == "add":
        ok, e = attempt(lambda: l.add(**kws) if parts or kind != "s" else l.add(one), exc=ANY)
        E.prove("added-iff-absent", ok == (at is None))
        if ok:
            E.prove("add-returns-the-entry", e is list(l.values())[-1])
            model.append((k, None))
            E.reach("added")
    elif op in ("delete", "del"):
        ok, e = attempt(lambda: l.delete(**kws) if op == "delete" and parts else l.delete(one) if op == "delete" else l.__delitem__(one), exc=ANY)
        E.prove("deleted-iff-present", ok == (at is not None))
        if ok:
            model.pop(at)
            E.reach("deleted")
    elif op in ("get", "item"):
        ok, e = attempt(lambda: l._item(**kws) if op == "item" else l[one], exc=ANY)
        E.prove("found-iff-present", ok == (at is not None))
        if ok:
            E.prove("finds-its-entry", e is list(l.values())[at])
    elif op == "contains":
        E.prove("contains-iff-present", (one in l) == (at is not None))
    elif op == "append":
        # an entry that was made elsewhere
        other = getattr(M.b("mk").mk().c, kind)
        x = other.add(**kws)
        w = E.int("w2", lo=-100, hi=100)
        x.v = w
        l.append(x)
        if at is None:
            model.append((k, w))
        else:
            model[at] = (k, w)
            E.reach("replaced")
    elif op == "copy":
        o2 = M.b("mk").mk()
        setattr(o2.c, kind, l)
        l = getattr(o2.c, kind)
    if e is not None and not isinstance(e, Exception) and op == "add":
        E.prove("a-new-entry-is-empty", not e.v._changed())
    E.prove("as-many-entries", len(l) == len(model))
    for (name, x), (q, w) in zip(l.items(), model):
        for part, leaf, value in zip(mapkeys.KEYS[kind], mapkeys.leaves(kind, x), q):
            E.prove("key-leaf-equals-key:" + part, leaf == value)
        E.prove("stored-under-its-key", name == mapkeys.whole(E, q))
        if w is not None:
            E.prove("content-kept", x.v == w)


def text_parts(E, M):
    """a key of a list with two keys, as one text: a part for each of them, no more and no less"""
    va = M.b("va").va()
    l = va.tree.two
    old = E.int("old", lo=LO, hi=HI)
    l.add(a=E.fmt("n{}", old), b_c=old)
    parts = E.choose("parts", [1, 2, 3] if E.symbolic else [1, 2, 3, 4])
    ks = [E.int("k", lo=LO, hi=HI) for _ in range(parts)]
    text = E.fmt(" ".join(["n{}"] + ["{}"] * (parts - 1)), *ks)
    fits = parts == 2 and ks[0] == old and ks[1] == old
    op = E.choose("op", ["add", "item"])
    if op == "add":
        ok, e = attempt(l.add, text, exc=ANY)
        E.prove("added-iff-a-part-for-each-key", ok == (parts == 2 and not fits))
    else:
        ok, e = attempt(l.__setitem__, text, l._new_item(), exc=ANY)
        E.prove("assigned-iff-a-part-for-each-key", ok == (parts == 2))
    if ok and not fits:
        E.prove("as-many-entries", len(l) == 2)
        e = list(l.values())[1]
        E.prove("key-leaves-equal-their-parts", E.And(e.a == E.fmt("n{}", ks[0]), e.b_c == ks[1]))
        E.reach("two parts")
    else:
        E.prove("as-many-entries", len(l) == 1)
        if not ok:
            E.prove("refused-with-KeyError", isinstance(e, KeyError))
            E.reach("refused")
    e = list(l.values())[0]
    E.prove("other-entry-untouched", E.And(e.a == E.fmt("n{}", old), e.b_c == old))


HARNESSES = [
    H(text_parts, covers=["two parts", "refused"], conc=200, models=["va"], shards=2),
    H(any_texts, covers=["added", "deleted", "replaced"], conc=500, models=[], shards=9, sym_s=60),
    H(operations, covers=["added", "add-refused", "deleted", "found", "item-assigned", "appended"], conc=300, models=["va"], shards=8, sym_s=60),
    H(keys_of_types, covers=["accepted", "refused"], conc=200, models=["va"], shards=3),
    H(two_forms, covers=["the same key"], conc=200, models=["va"], shards=4),
    H(histories, sym=False, conc=180, models=["va"]),
    H(generated, sym=False, conc=300),
]
