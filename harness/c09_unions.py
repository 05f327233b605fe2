"""C09: a union holds its value as the first member type that accepts it."""
import random

from pyvc.runner import H
from harness import gen, leaves, unions
from harness.common import attempt

LEVEL = "proof"
ASSUME = [
    "a number given where a string or enumeration member comes first is decided only if no such member has its text as a value",
    "texts with underscores, surrounding spaces or non-ASCII digits are not decided for integer members",
]
MODS = []


def prepare(tmp, seed, thorough):
    MODS[:] = [unions.Gen("wu%d" % i, "%s/%d" % (seed, i), 14) for i in range(40 if thorough else 12)]
    texts = {}
    for g in MODS:
        texts.update(g.texts)
    return {"wu": gen.build(tmp, "wu", texts)}


NUMS = r"[ \t\n\r\x0b\x0c\x1c-\x1f]*[-+]?[0-9_]+[ \t\n\r\x0b\x0c\x1c-\x1f]*"


def small(E, v):
    return E.Or(E.And(v >= -10, v <= 10), E.And(v >= 20, v <= 30))


def name(E, v):
    return E.And(E.matches("[a-z][a-z0-9-]*", v), E.len(v) <= 8)


def offer(E):
    k = E.choose("kind", ["int", "numeral", "text"])
    if k == "text":
        v = E.str("v", pool=leaves.TEXTS)
        E.assume(E.Not(E.matches(NUMS, v)))
        if not E.symbolic:
            E.assume(v.isascii())
        return k, v, None
    n = E.int("v")
    return k, (n if k == "int" else E.numeral(n)), n


def members(E, M):
    """any integer, numeral or text offered to unions of integers, enumerations, booleans and strings"""
    va = M.b("va").va()

    def text(x):
        return isinstance(x, M.builtin("str"))

    def number(x):
        return isinstance(x, M.builtin("int"))

    leaf = E.choose("leaf", ["un", "un2", "un3", "lu"])
    k, v, n = offer(E)
    c = va.lls if leaf == "lu" else va.types
    first = E.choose("before", ["unset", "set"])
    if leaf == "lu":
        if first == "set":
            c.lu.append("zz")
            E.assume(E.Not(v == "zz") if k == "text" else True)
        op = E.choose("op", ["append", "insert", "assign"])
        ok, e = attempt(c.lu.append, v) if op == "append" else attempt(c.lu.insert, 0, v) if op == "insert" else attempt(setattr, c, "lu", [v])
        x = c.lu
        if op == "assign":
            got = x[0] if len(x) else None
        else:
            got = (x[0] if op == "insert" else x[-1]) if len(x) else None
    else:
        if first == "set":
            setattr(c, leaf, 7 if leaf != "un3" else "qqq")
        ok, e = attempt(setattr, c, leaf, v)
        got = getattr(c, leaf)
    # what must be held: (as a number?, value) or refused
    if leaf in ("un", "un2"):
        if k == "text":
            want = name(E, v)
        else:
            want = small(E, n)
    elif leaf == "lu":
        if k == "text":
            want = True
        elif k == "int":
            want = E.And(n >= -(2**31), n <= 2**31 - 1)
            # a number outside the range as a string: not stated
            E.assume(want)
        else:
            want = True
    else:
        if k == "text":
            want = E.Or(v == "true", v == "True", v == "false", v == "False", E.len(v) == 3)
        elif k == "numeral":
            want = E.Or(E.And(n >= 0, n <= 255), E.len(v) == 3)
        else:
            E.assume(E.Or(n <= 255, n > 999))
            E.assume(E.Or(n >= 0, n > -10, n < -99))
            want = E.And(n >= 0, n <= 255)
    E.prove("accepted-iff-some-member-accepts", E.Iff(ok, want))
    if not ok:
        E.prove("refused-with-ValueError", isinstance(e, ValueError))
        if leaf == "lu":
            E.prove("leaf-list-as-it-was", len(c.lu) == (1 if first == "set" else 0))
        elif first == "set":
            E.prove("leaf-as-it-was", got == (7 if leaf != "un3" else "qqq"))
        else:
            E.prove("leaf-as-it-was", not got._changed())
        E.reach("refused")
        return
    if leaf == "un3" and (k == "text"):
        if v == "true":
            E.prove("held-as-a-boolean", E.And(not text(got), bool(got) == True))
            E.reach("boolean")
        elif E.Or(v == "True", v == "false", v == "False"):
            E.prove("held-as-a-boolean", not text(got))
        else:
            E.prove("held-as-text", E.And(text(got), got == v))
            E.reach("three characters")
    elif leaf == "un3":
        if n == 1 or n == 0:
            E.prove("held-as-a-boolean", E.And(not text(got), got == (n == 1), M.builtin("str")(got) == ("True" if n == 1 else "False")))
        elif E.And(n >= 2, n <= 255):
            E.prove("held-as-a-number", E.And(number(got), got == n, M.builtin("str")(got) == E.numeral(n)))
            E.reach("octet")
        else:
            E.prove("held-as-text", E.And(text(got), got == v))
    elif k == "text":
        E.prove("held-as-text", E.And(text(got), got == v))
        E.reach("text")
    elif leaf == "lu" and E.Or(n < -(2**31), n > 2**31 - 1):
        E.prove("held-as-text", E.And(text(got), got == v))
        E.reach("too large for the integer member")
    else:
        E.prove("held-as-a-number", E.And(number(got), got == n, M.builtin("str")(got) == E.numeral(n)))
        E.reach("number")


def generated(E, M):
    """random unions, nested and through typedefs of two modules: every kind of value, against all members"""
    g = E.choose("module", MODS)
    r = random.Random("u/%d" % E.seed("seed"))
    o = getattr(M.b("wu"), g.name)().c
    n, (where, ll, mem, d) = r.choice(sorted(g.spec.items()))
    if where == "l":
        o = o.l.add("k")
    last = None
    for _ in range(12):
        x = r.choice(mem + [m for q in g.spec.values() for m in q[2]][:3]).samples(r)
        want = unions.store(mem, x)
        if want is unions.UNKNOWN:
            continue
        if ll:
            op = r.choice(["assign", "append", "insert"])
            if op == "assign":
                ok, e = attempt(setattr, o, n, [x])
            else:
                getattr(o, "_unset_" + n)()
                ok, e = attempt(getattr(o, n).append, x) if op == "append" else attempt(getattr(o, n).insert, 0, x)
                last = None
            got = getattr(o, n)[0] if ok else None
        else:
            ok, e = attempt(setattr, o, n, x)
            got = getattr(o, n)
        at = "" if ok == (want is not None) else ": %s.%s %r is %s, members %s" % (g.name, n, x, "accepted" if ok else "refused", [m.kind for m in mem])
        E.prove("accepted-iff-some-member-accepts" + at, ok == (want is not None))
        if ok:
            good = unions.is_held(got, want[1])
            E.prove("held-as-the-first-member" + ("" if good else ": %s.%s %r is held as %r, should be %r of member %d of %s" % (g.name, n, x, got, want[1], want[0], [m.kind for m in mem])), good)
            last = want[1]
        else:
            E.prove("refused-with-ValueError", isinstance(e, ValueError))
            now = getattr(o, n)
            if ll:
                E.prove("as-it-was", (len(now) == 1 and unions.is_held(now[0], last)) if last is not None else len(now) == 0)
            else:
                E.prove("as-it-was", unions.is_held(now, last) if last is not None else not now._changed())


HARNESSES = [
    H(members, covers=["refused", "text", "number", "boolean", "octet", "three characters", "too large for the integer member"], conc=900, models=["va"], shards=6, sym_s=90),
    H(generated, sym=False, conc=1500, models=[]),
]
