"""Matching of regular expressions on ropes: literal text with symbolic parts.

The backtracking of Python's `re` on a text of which some stretches (atoms) are symbolic.
An atom is consumed only as a whole, by a repetition of one class of characters that the
path condition shows to contain all of its characters; it stops a repetition whose class
it shows to contain none of them.  The positions strictly inside an atom are tried as well
(the rest of the pattern has to fail there); where an atom is neither inside nor outside of
a class the match is not decided (Unsupported).  So a result holds for all values of the
atoms, and the matches and groups are those of the backtracking order."""
import re

import z3

from . import engine as eng
from .engine import Unsupported

try:
    import re._parser as _p
except ImportError:
    import sre_parse as _p


class Atom:
    __slots__ = ("part", "t", "memo")

    def __init__(self, part, t):
        self.part, self.t, self.memo = part, t, {}


def items_of(parts, term):
    """[char or Atom]; atoms that may be empty are branched on"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(p)
        else:
            t = term(p)
            if t.get_id() not in eng.cur().alphabets and eng.cur().branch(z3.Length(t) == 0):
                continue
            out.append(Atom(p, t))
    return out


def rename(pattern):
    """`regex` allows a group name twice; `re` does not"""
    n, seen = {}, {}

    def f(m):
        k = m.group(1)
        n[k] = n.get(k, 0) + 1
        new = k if n[k] == 1 else "%s__%d" % (k, n[k])
        seen.setdefault(k, []).append(new)
        return "(?P<%s>" % new

    return re.sub(r"\(\?P<([A-Za-z_]\w*)>", f, pattern), seen


def in_class(op, av, ch):
    o = str(op)
    c = ord(ch)
    if o == "LITERAL":
        return c == av
    if o == "NOT_LITERAL":
        return c != av
    if o == "ANY":
        return ch != "\n"
    neg, hit = False, False
    for k, v in av:
        k = str(k)
        if k == "NEGATE":
            neg = True
        elif k == "LITERAL":
            hit = hit or c == v
        elif k == "RANGE":
            hit = hit or v[0] <= c <= v[1]
        elif k == "CATEGORY":
            s = {"DIGIT": r"\d", "WORD": r"\w", "SPACE": r"\s"}[str(v).replace("CATEGORY_", "").replace("NOT_", "")]
            hit = hit or (re.match(s, ch) is not None) != ("NOT_" in str(v))
        else:
            raise Unsupported("regex class item %s" % k)
    return hit != neg


SINGLE = ("LITERAL", "NOT_LITERAL", "ANY", "IN")


def z_class(op, av):
    from . import models

    z = models.Z3Re.__new__(models.Z3Re)
    z.ascii_only = False
    r = z.one(op, av)
    if z.ascii_only:
        raise Unsupported("category on a symbolic part")
    return r


def relation(atom, op, av):
    """'all', 'none' or None: of the characters of the atom, which are in the class"""
    k = (str(op), str(av))
    if k not in atom.memo:
        e = eng.cur()
        from .models import alphabet

        a = alphabet(atom.part)
        if a is not None:
            hit = [in_class(op, av, ch) for ch in a]
            atom.memo[k] = "all" if all(hit) else "none" if not any(hit) else None
            return atom.memo[k]
        c = z_class(op, av)
        anyc = z3.AllChar(z3.ReSort(z3.StringSort()))
        if e._check(z3.Not(z3.InRe(atom.t, z3.Star(c)))) == z3.unsat:
            atom.memo[k] = "all"
        elif e._check(z3.Not(z3.InRe(atom.t, z3.Star(z3.Intersect(anyc, z3.Complement(c)))))) == z3.unsat:
            atom.memo[k] = "none"
        else:
            atom.memo[k] = None
    return atom.memo[k]


class Match:
    def __init__(self, items, groups, end):
        self.items, self.g, self.end = items, groups, end

    def parts(self, k):
        s = self.g.get(k)
        if s is None:
            return None
        return [x if isinstance(x, str) else x.part for x in self.items[s[0]:s[1]]]


INSIDE = 0.5  # a position i + INSIDE is inside the atom i, with some of it left


class Matcher:
    def __init__(self, pattern):
        p, self.names = rename(pattern)
        # a reference to a repeated name is to its first group
        self.tree = _p.parse(p)
        self.index = dict(self.tree.state.groupdict)
        self.steps = 0

    def match(self, items, start=0, end=False):
        """the match that begins at a position, None"""
        self.items = items
        self.must_end = end
        return self.run(list(self.tree), 0, start, {}, self.done)

    def done(self, pos, g):
        if self.must_end and pos != len(self.items):
            return None
        if pos != int(pos):
            raise Unsupported("a match ends inside a symbolic part")
        return Match(self.items, g, pos)

    def run(self, ops, i, pos, g, k):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("matching takes too many steps")
        if i == len(ops):
            return k(pos, g)
        op, av = ops[i]
        o = str(op)
        nxt = lambda p, gg: self.run(ops, i + 1, p, gg, k)
        if o in SINGLE:
            n = len(self.items)
            if pos >= n:
                return None
            it = self.items[int(pos)]
            if isinstance(it, str):
                return nxt(pos + 1, g) if in_class(op, av, it) else None
            if relation(it, op, av) == "none":
                return None
            raise Unsupported("a pattern takes single characters of a symbolic part")
        if o == "AT":
            a = str(av)
            if a in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                return nxt(pos, g) if pos == 0 else None
            if pos == len(self.items):
                return nxt(pos, g)
            if a == "AT_END" and int(pos) == len(self.items) - 1:
                it = self.items[int(pos)]
                if it == "\n":
                    return nxt(pos, g)
                if not isinstance(it, str) and relation(it, "LITERAL", 10) != "none":
                    raise Unsupported("$ before a symbolic part")
                return None
            if a in ("AT_END", "AT_END_STRING"):
                return None
            raise Unsupported("regex anchor %s" % a)
        if o == "SUBPATTERN":
            n, add, rem, body = av
            if add or rem:
                raise Unsupported("regex inline flags")
            return self.run(list(body), 0, pos, g, lambda p, gg: nxt(p, gg if n is None else _with(gg, n, (pos, p))))
        if o == "BRANCH":
            for b in av[1]:
                r = self.run(list(b), 0, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if o == "GROUPREF":
            s = g.get(av)
            if s is None:
                return None
            for c in self.items[s[0]:s[1]]:
                if not isinstance(c, str):
                    raise Unsupported("reference to a group with a symbolic part")
                if pos >= len(self.items):
                    return None
                it = self.items[int(pos)]
                if isinstance(it, str):
                    if it != c:
                        return None
                    pos += 1
                elif relation(it, "LITERAL", ord(c)) == "none":
                    return None
                else:
                    raise Unsupported("reference to a group inside a symbolic part")
            return nxt(pos, g)
        if o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = av
            hi = None if str(hi) == "MAXREPEAT" else hi
            body = list(body)
            if len(body) == 1 and str(body[0][0]) in SINGLE:
                return self.chars(body[0], lo, hi, o == "MAX_REPEAT", pos, g, nxt)
            return self.repeat(body, lo, hi, o == "MAX_REPEAT", pos, g, nxt, 0)
        raise Unsupported("regex construct %s" % o)

    def chars(self, one, lo, hi, greedy, pos, g, nxt):
        op, av = one
        stops = []  # (position, is it inside an atom)
        p, n, sym = pos, 0, False
        if n >= lo:
            stops.append(p)
        while p < len(self.items) and (hi is None or n < hi):
            it = self.items[int(p)]
            if isinstance(it, str):
                if not in_class(op, av, it):
                    break
                p += 1
                n += 1
            else:
                r = relation(it, op, av)
                if r == "none":
                    break
                if r is None or hi is not None or lo > 1:
                    raise Unsupported("a repetition ends inside a symbolic part")
                stops.append(int(p) + INSIDE)
                p = int(p) + 1
                n += 1
            if n >= lo:
                stops.append(p)
        for p in reversed(stops) if greedy else stops:
            r = nxt(p, g)
            if r is not None:
                if p != int(p):
                    raise Unsupported("a match depends on the inside of a symbolic part")
                return r
        return None

    def repeat(self, body, lo, hi, greedy, pos, g, nxt, n):
        def again(p, gg):
            if p == pos and n >= lo:
                return None
            return self.repeat(body, lo, hi, greedy, p, gg, nxt, n + 1)

        more = lambda: self.run(body, 0, pos, g, again) if hi is None or n < hi else None
        stop = lambda: nxt(pos, g) if n >= lo else None
        for f in (more, stop) if greedy else (stop, more):
            r = f()
            if r is not None:
                return r
        return None


def _with(g, n, v):
    g = dict(g)
    g[n] = v
    return g


def groups(mt, m):
    """{name or number: parts}"""
    out = {}
    for i in range(1, mt.tree.state.groups):
        out[i] = m.parts(i)
    for name, idx in mt.index.items():
        base = name.split("__")[0] if name.split("__")[0] in mt.names else name
        v = m.parts(idx)
        if v is not None or base not in out:
            out[base] = v
    return out


def match(pattern, items, end=False):
    mt = Matcher(pattern)
    m = mt.match(items, 0, end)
    if m is None:
        return None
    g = groups(mt, m)
    g[0] = [x if isinstance(x, str) else x.part for x in items[:m.end]]
    return g


def key(k):
    return int(k) if k.isdigit() else k


def expand(template, g):
    out, pos = [], 0
    for t in re.finditer(r"\\g<(\w+)>|\\(\d)", template):
        out.append(template[pos:t.start()])
        out.extend(g.get(key(t.group(1) or t.group(2))) or [])
        pos = t.end()
    out.append(template[pos:])
    if "\\" in re.sub(r"\\g<\w+>|\\\d", "", template):
        raise Unsupported("escapes in a template")
    return out


def sub(pattern, template, items):
    """parts of the text in which each match is replaced"""
    mt = Matcher(pattern)
    out, i = [], 0
    while i <= len(items):
        mt.steps = 0
        m = mt.match(items, i)
        if m is not None:
            g = groups(mt, m)
            g[0] = [x if isinstance(x, str) else x.part for x in items[i:m.end]]
            out.extend(expand(template, g))
            if m.end == i:
                if i < len(items):
                    x = items[i]
                    if not isinstance(x, str):
                        raise Unsupported("an empty match before a symbolic part")
                    out.append(x)
                i += 1
            else:
                i = m.end
            continue
        if i < len(items):
            x = items[i]
            if not isinstance(x, str) and mt.match(items, i + INSIDE) is not None:
                raise Unsupported("a match begins inside a symbolic part")
            out.append(x if isinstance(x, str) else x.part)
        i += 1
    return out
