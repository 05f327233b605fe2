"""C08: a leaf-list holds distinct values of its type in the order given."""
import random
from decimal import Decimal

from pyvc.runner import H
from harness import history, schema as S
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "induction over histories: a leaf-list with at most two values (sweeps: any number), any values, then one operation",
]
SETS = Sets("sll", n=6, size=14, feat=("lldef", "nochoice",))
ANY = (TypeError, ValueError, KeyError, AttributeError, IndexError)


def prepare(tmp, seed, thorough):
    return SETS.prepare(tmp, seed, thorough)


D = Decimal
KINDS = ["li", "lr", "ls", "ld", "lbin"]


def draw(E, kind, n):
    """-> (what is offered, what is then held, is it valid)"""
    if kind in ("li", "lr"):
        v = E.int(n)
        f = E.choose("form-" + n, ["number", "text"]) if not E.symbolic or n == "v" else "number"
        ok = E.And(v >= -(2**31), v <= 2**31 - 1) if kind == "li" else E.Or(E.And(v >= -10, v <= 10), E.And(v >= 20, v <= 30))
        return (v if f == "number" else E.numeral(v)), v, ok
    if kind == "ls":
        v = E.str(n, pool=["a", "b", "", "1", "a b", "é", "ab"])
        return v, v, True
    if kind == "lbin":
        v = E.bytes(n)
        return v, v, True
    v = E.decimal(n, scale=2)
    E.assume(E.And(v >= D("-92233720368547758.08"), v <= D("92233720368547758.07")))
    return v, v, True


def index_of(model, x):
    """branches on equality with each value"""
    for i, q in enumerate(model):
        if q == x:
            return i
    return None


def compare(E, ll, model, what="holds-the-values-in-order"):
    E.prove("as-many-values", len(ll) == len(model))
    for i, (a, b) in enumerate(zip(ll, model)):
        E.prove(what, E.And(a == b, ll[i] == b))


def operations(E, M):
    """any leaf-list of up to two values, any operation with any value"""
    va = M.b("va").va()
    kind = E.choose("list", KINDS)
    n = E.choose("size", [0, 1, 2, 3] if not E.symbolic else [0, 1] if kind == "lr" else [0, 1, 2])
    init = [draw(E, kind, "w%d" % i) for i in range(n)]
    for i in range(n):
        E.assume(init[i][2])
        for j in range(i):
            E.assume(E.Not(init[i][1] == init[j][1]))
    how = E.choose("how", ["assign", "append"] if not E.symbolic or n < 2 else ["assign"])
    if how == "assign":
        setattr(va.lls, kind, [x[0] for x in init])
    else:
        for x in init:
            getattr(va.lls, kind).append(x[0])
    ll = getattr(va.lls, kind)
    model = [x[1] for x in init]
    compare(E, ll, model)
    other = getattr(va.lls, "lo")
    ops = ["append", "extend", "insert", "setitem", "remove", "pop", "del", "assign", "assign-one", "index"]
    if E.symbolic and kind == "lr":
        ops = ["append", "insert", "extend"] if n == 0 else ["append", "insert", "setitem"]
    op = E.choose("op", ops)
    if op in ("append", "insert", "setitem", "assign-one"):
        v, c, valid = draw(E, kind, "v")
        at = index_of(model, c)
        if op == "append":
            ok, _ = attempt(ll.append, v, exc=ANY)
            E.prove("appended-iff-valid", E.Iff(ok, valid))
            if ok and at is None:
                model.append(c)
                E.reach("appended")
        elif op == "assign-one":
            ok, _ = attempt(setattr, va.lls, kind, [v], exc=ANY)
            E.prove("assigned-iff-valid", E.Iff(ok, valid))
            if ok:
                model = [c]
        else:
            i = E.choose("at", list(range(n + 1)) + ([n + 1] + list(range(-n - 1, 0)) if not E.symbolic or kind == "ls" else []))
            ok, e = attempt(ll.insert if op == "insert" else ll.__setitem__, i, v, exc=ANY)
            E.prove("inserted-iff-valid-and-absent", E.Iff(ok, E.And(valid, at is None)))
            if ok:
                model.insert(i, c)
                E.reach("inserted")
            else:
                E.prove("refused-with-ValueError", isinstance(e, ValueError))
    elif op in ("extend", "assign"):
        v, c, valid = draw(E, kind, "v")
        v2, c2, valid2 = draw(E, kind, "v2")
        if op == "extend":
            ok, e = attempt(ll.extend, [v, v2], exc=ANY)
        else:
            ok, e = attempt(setattr, va.lls, kind, [v, v2], exc=ANY)
        E.prove("accepted-iff-all-are-valid", E.Iff(ok, E.And(valid, valid2)))
        if ok:
            if op == "assign":
                model = []
            if index_of(model, c) is None:
                model.append(c)
            if index_of(model, c2) is None:
                model.append(c2)
            E.reach(op)
        else:
            E.reach(op + "-refused")
    elif op in ("remove", "index"):
        _, c, _ = draw(E, kind, "v")
        at = index_of(model, c)
        ok, r = attempt(ll.remove if op == "remove" else ll.index, c, exc=ANY)
        E.prove("found-iff-held", ok == (at is not None))
        if ok and op == "remove":
            model.pop(at)
            E.reach("removed")
        elif ok:
            E.prove("index", r == at)
    else:
        i = E.choose("at", list(range(n)) + ([-1, -n - 1, n] if n else [0, -1]))
        ok, r = attempt(ll.pop if op == "pop" else ll.__delitem__, i, exc=ANY)
        E.prove("removed-iff-index-is-in-range", ok == (-n <= i < n))
        if ok:
            x = model.pop(i)
            if op == "pop":
                E.prove("pop-returns-the-value", r == x)
    compare(E, getattr(va.lls, kind), model)
    E.prove("other-leaf-list-untouched", len(other) == 0)


# the stored value: the forms that it can be given in
POOL = {
    "li": [(n, [n, str(n)]) for n in (0, 1, -1, 7, 2**31 - 1, -(2**31))],
    "lr": [(n, [n, str(n)]) for n in (1, 10, 20, 30, 5)],
    "ls": [(s, [s]) for s in ("", "a", "b", "1", "01", "a ", "é", "True", "None")],
    "lp": [(s, [s]) for s in ("a", "b", "a-1", "abcdefgh")],
    "ld": [(D("0.00"), [D("0"), "0", 0, "0.00"]), (D("1.50"), [D("1.5"), "1.5", 1.5, "1.50", "+1.5"]), (D("-2.00"), [-2, "-2", D("-2")]), (D("0.01"), ["0.01", D("0.01"), "1e-2"])],
    "lb": [(True, [True, "true", 1, "True", "1"]), (False, [False, "false", 0, "0"])],
    "le": [(x, [x]) for x in "pqr"],
    "lid": [(x, [x]) for x in ("dog", "cat", "wolf", "vb:bird")],
    "lu": [(n, [n, str(n)]) for n in (1, 5, -3)] + [(s, [s]) for s in ("x", "", "1.5", "2147483648")],
    "l64": [(n, [n, str(n)]) for n in (0, 2**64 - 1, 3)],
    "lo": [(s, [s]) for s in ("a", "b", "", "z")],
}
BAD = {"li": [2**31, "x", "", -(2**31) - 1], "lr": [-11, 11, 19, 31, "31"], "lp": ["", "A", "abcdefghi", "1a"], "ld": ["x", "", "nan"], "lb": ["yes", 2, ""], "le": ["", "s", "P", 1],
       "lid": ["red", "", "animal"], "l64": [-1, 2**64, "x"], "ls": [], "lo": [], "lu": []}


def held(a, b):
    return a == b and (not isinstance(b, bool) or bool(a) == b) and (isinstance(a, str) == isinstance(b, str)) and (not isinstance(b, Decimal) or str(a) == str(b))


def histories(E, M):
    """random histories on each leaf-list of the corpus with the same value in several forms, against a model"""
    va = M.b("va").va()
    r = random.Random(E.seed("seed"))
    kind = E.choose("list", sorted(POOL))
    pool, bad = POOL[kind], BAD[kind]
    c = va.lls
    if E.choose("where", ["typed", "copied"]) == "copied":
        setattr(c, kind, [pool[0][0]])
        o = M.b("va").va()
        o.lls = c
        va, c = o, o.lls
        model = [pool[0][0]]
    else:
        model = []
    log = []
    for _ in range(E.choose("steps", [3, 10, 40])):
        ll = getattr(c, kind)
        op = r.choice(["append", "append", "insert", "setitem", "extend", "remove", "pop", "del", "assign", "iadd", "bad", "unset", "clear", "slice"])
        v, fs = r.choice(pool)
        f = r.choice(fs)
        log.append((op, f))
        if op == "append":
            ll.append(f)
            if v not in model:
                model.append(v)
        elif op in ("insert", "setitem"):
            i = r.randrange(len(model) + 1)
            ok, e = attempt(ll.insert if op == "insert" else ll.__setitem__, i, f, exc=ANY)
            E.prove("inserted-iff-absent", ok == (v not in model))
            E.prove("refused-with-ValueError", ok or isinstance(e, ValueError))
            if ok:
                model.insert(i, v)
        elif op in ("extend", "iadd"):
            vs = [r.choice(pool) for _ in range(r.randint(0, 3))]
            if op == "extend":
                ll.extend([r.choice(q[1]) for q in vs])
            else:
                ll += [r.choice(q[1]) for q in vs]
            for q, _ in vs:
                if q not in model:
                    model.append(q)
        elif op == "remove":
            ok, _ = attempt(ll.remove, v, exc=ANY)
            E.prove("removed-iff-held", ok == (v in model))
            if ok:
                model.remove(v)
        elif op in ("pop", "del"):
            if not model:
                continue
            i = r.randrange(-len(model), len(model))
            x = ll.pop(i) if op == "pop" else ll.__delitem__(i)
            y = model.pop(i)
            if op == "pop":
                E.prove("pop-returns-the-value", held(x, y))
        elif op == "slice":
            i, j = sorted((r.randrange(len(model) + 1), r.randrange(len(model) + 1)))
            E.prove("slice", [str(x) for x in ll[i:j]] == [str(x) for x in model[i:j]])
            del ll[i:j]
            del model[i:j]
        elif op == "assign":
            vs = [r.choice(pool) for _ in range(r.randint(0, 4))]
            setattr(c, kind, [r.choice(q[1]) for q in vs])
            model = []
            for q, _ in vs:
                if q not in model:
                    model.append(q)
        elif op == "unset":
            getattr(c, "_unset_" + kind)()
            model = []
        elif op == "clear":
            ll.clear()
            model = []
        elif bad:
            x = r.choice(bad)
            how = r.choice(["append", "insert", "assign", "extend", "setitem"])
            ok, e = {
                "append": lambda: attempt(ll.append, x, exc=ANY), "insert": lambda: attempt(ll.insert, 0, x, exc=ANY), "setitem": lambda: attempt(ll.__setitem__, 0, x, exc=ANY),
                "assign": lambda: attempt(setattr, c, kind, [f, x], exc=ANY), "extend": lambda: attempt(ll.extend, [f, x], exc=ANY),
            }[how]()
            E.prove("invalid-value-is-refused", not ok)
        ll = getattr(c, kind)
        good = len(ll) == len(model) and all(held(a, b) for a, b in zip(ll, model))
        E.prove("holds-the-model" if good else "holds-the-model: %s, should be %s after %s" % (list(ll), model, log[-5:]), good)
        E.prove("membership", all((q in ll) == (q in model) for q, _ in pool))


def generated(E, M):
    """histories on the leaf-lists of random modules, of all types, in containers, lists and augments"""
    b, g, t, o, r = SETS.draw(E, M, build=False)
    h = history.History(r, g, getattr(b, g.p)(), weights={"leaf": 0.05, "leaf-list": 1.0, "container": 0.1, "list": 0.3})
    h.make = lambda: getattr(b, g.p)()
    for i in range(E.choose("steps", [5, 15, 40])):
        h.step()
        d = S.diff(h.o, h.tree, g.root.children)
        E.prove("holds-the-model" if d is None else "holds-the-model: %s after %s" % (d, h.log[-6:]), d is None)


HARNESSES = [
    H(operations, covers=["appended", "inserted", "removed", "extend", "assign", "extend-refused", "assign-refused"], conc=400, models=["va"], shards=8, sym_s=90),
    H(histories, sym=False, conc=500, models=["va"]),
    H(generated, sym=False, conc=350),
]
