"""Random modules with unions, and what each of their members makes of a value (the oracle of C09 and C22)."""
import base64
import random
import re
from decimal import Decimal

from harness import gen

UNKNOWN = object()  # the statement does not say (lenient forms)


class Mem:
    """one member type: the YANG text of the type, and its restrictions"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.spans = self.fd = None
        self.lens, self.pats, self.names = [], [], []
        self.__dict__.update(k)

    def conv(self, x):
        """the value this member stores for x; None: it refuses it; UNKNOWN: not stated"""
        k = self.kind
        num = isinstance(x, (int, float, Decimal)) and not isinstance(x, bool)
        if k == "int":
            if isinstance(x, bool):
                return UNKNOWN
            if isinstance(x, str):
                if not re.fullmatch(r"[-+]?[0-9]+", x):
                    return None if not re.search(r"[0-9]", x) or not x.isascii() or re.search("[^0-9_ +-]", x.strip()) else UNKNOWN
            elif x != int(x):
                return None
            n = int(x)
            return n if any(a <= n <= b for a, b in self.spans) else None
        if k == "decimal64":
            if isinstance(x, bool):
                return UNKNOWN
            if isinstance(x, str):
                if re.fullmatch(r"[-+]?[0-9]+(\.[0-9]+)?", x):
                    d = Decimal(x)
                else:
                    return None if not re.search("[0-9]", x) and x.strip().lower() not in ("nan", "inf", "infinity", "+inf", "-inf") else UNKNOWN
            else:
                d = Decimal(str(x))
            s = d.scaleb(self.fd)
            if s != s.to_integral_value() or abs(s) >= 10**17:
                return UNKNOWN
            if self.spans is not None and not any(a <= s <= b for a, b in self.spans):
                return None
            return d.quantize(Decimal(1).scaleb(-self.fd))
        if k == "string":
            s = x if isinstance(x, str) else UNKNOWN
            if s is UNKNOWN:
                # a number is taken as its text or refused: stated only when it is not valid text either
                t = str(x)
                return None if not self.fits(t) else UNKNOWN
            return s if self.fits(s) else None
        if k == "boolean":
            if x in ("true", "True", "1") or x is True or (num and x == 1):
                return True
            if x in ("false", "False", "0") or x is False or (num and x == 0):
                return False
            return None
        if k in ("enumeration", "identityref"):
            return (x if isinstance(x, str) else UNKNOWN) if str(x) in self.names else None
        if k == "bits":
            if not isinstance(x, str):
                return None
            ws = x.split()
            if not all(w in self.names for w in ws):
                return None
            if len(set(ws)) != len(ws):
                return UNKNOWN
            return ("bits",) + tuple(n for n in self.names if n in ws)
        if k == "binary":
            if not isinstance(x, str):
                return UNKNOWN
            try:
                b = base64.b64decode(x, validate=True)
                if base64.b64encode(b).decode() != x:
                    return UNKNOWN
            except Exception:
                return UNKNOWN
            return b if all(any(a <= len(b) <= c for a, c in sp) for sp in self.lens) else None
        raise AssertionError(k)

    def fits(self, s):
        return all(any(a <= len(s) <= b for a, b in sp) for sp in self.lens) and all(re.fullmatch(p, s) for p in self.pats)

    def samples(self, r):
        k = self.kind
        if k == "int":
            a, b = r.choice(self.spans)
            n = r.choice([a, b, a - 1, b + 1, r.randint(a, b)])
            return r.choice([n, str(n), str(n), "+%d" % n if n >= 0 else str(n), "00%d" % n if n >= 0 else str(n)])
        if k == "decimal64":
            a, b = r.choice(self.spans or [(-(10 ** (self.fd + 2)), 10 ** (self.fd + 2))])
            d = Decimal(r.choice([a, b, a - 1, b + 1, r.randint(a, b)])).scaleb(-self.fd)
            return r.choice([d, format(d, "f")])
        if k == "string":
            return r.choice(["a", "b", "abc", "x", "zz", "12", "7", "up", "", "true", "a b", "ab-1", "abcdefghijkl", "é", "AB", "3.5", "1e3"])
        if k == "boolean":
            return r.choice([True, False, "true", "false", "0", "1", "True", 1, 0, "TRUE", "yes"])
        if k in ("enumeration", "identityref"):
            return r.choice(self.names + [self.names[0][:-1], self.names[0] + "x"])
        if k == "bits":
            q = r.sample(self.names, r.randint(0, len(self.names)))
            return r.choice(["", " ", "  "]).join(q[:1]) + "".join(" " + w for w in q[1:])
        return base64.b64encode(bytes(r.randrange(256) for _ in range(r.randint(0, 6)))).decode()


def store(members, x):
    """what a union of these members holds for x: (index, value), None when it is refused, UNKNOWN"""
    for i, m in enumerate(members):
        v = m.conv(x)
        if v is UNKNOWN:
            return UNKNOWN
        if v is not None:
            return i, v
    return None


def is_held(got, v):
    if isinstance(v, tuple):
        return str(got) == " ".join(v[1:])
    if isinstance(v, bool):
        return str(got) == str(v) and bool(got) == v
    if isinstance(v, int):
        return isinstance(got, int) and not isinstance(got, bool) and str(got) == str(v) and got == v
    if isinstance(v, Decimal):
        return isinstance(got, Decimal) and got == v
    if isinstance(v, bytes):
        return isinstance(got, bytes) and got == v
    return isinstance(got, str) and got == v


class Gen:
    def __init__(self, name, seed, count):
        self.r = random.Random("unionmod/%s" % seed)
        self.name, self.tname = name, name + "t"
        self.tds = {self.name: [], self.tname: []}
        self.types = []  # (typedef name, module, [Mem], default or None)
        self.n = 0
        r = self.r
        self.ids = ["dog", "cat", "up", "a"]
        for _ in range(r.randint(3, 7)):
            self.typedef(r.choice([self.name, self.tname]))
        leaves, self.spec = {"c": [], "g": [], "l": []}, {}
        for i in range(count):
            text, mem = self.union(self.name, 0) if r.random() < 0.8 else self.named(self.name)
            if len(mem) < 2:
                continue
            where = r.choice(["c", "c", "g", "l"])
            ll = r.random() < 0.35
            n = "u%d" % i
            d, dv = "", None
            if not ll and r.random() < 0.4:
                dv = self.default(mem)
                if dv is not None:
                    from harness.schema import ystr

                    d = " default %s;" % ystr(dv)
            if dv is None and not ll:
                dv = getattr(mem, "default", None)
            leaves[where].append("    %s %s { %s%s }" % ("leaf-list" if ll else "leaf", n, text, d))
            self.spec[n] = (where, ll, mem, dv)
        for m in self.tds:
            r.shuffle(self.tds[m])
        idt = "  identity animal;\n" + "".join("  identity %s { base animal; }\n" % i for i in self.ids)
        h = "module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\"; prefix %s;\n"
        self.texts = {
            self.tname: h % ((self.tname,) * 3) + idt + "\n".join(self.tds[self.tname]) + "\n}\n",
            self.name: h % ((self.name,) * 3) + "  import %s { prefix %s; }\n" % (self.tname, self.tname) + "\n".join(self.tds[self.name])
            + "\n  grouping g {\n%s\n  }\n  container c {\n%s\n    uses g;\n    list l { key k; leaf k { type string; }\n%s\n    }\n  }\n}\n" % tuple("\n".join(leaves[x]) for x in ("g", "c", "l")),
        }

    def default(self, mem):
        r = self.r
        for _ in range(20):
            x = "" if r.random() < 0.1 else r.choice(mem).samples(r)
            x = ("true" if x else "false") if isinstance(x, bool) else str(x)
            if x.startswith(("+", "00")) or x in ("0", "1", "True", "False") and any(m.kind == "boolean" for m in mem):
                continue
            if any(m.kind == "identityref" and x in m.names for m in mem):
                continue
            s = store(mem, x)
            if s is not None and s is not UNKNOWN and not isinstance(s[1], (bytes, tuple)):
                return x
        return None

    def ref(self, td, ctx):
        n, m = td[:2]
        return n if m == ctx else "%s:%s" % (m, n)

    def member(self, ctx):
        """-> (type statement, Mem)"""
        r = self.r
        k = r.choice(["int"] * 4 + ["string"] * 3 + ["enumeration", "boolean", "decimal64", "bits", "identityref", "binary"])
        if k == "int":
            t = r.choice(sorted(gen.INTS))
            lo, hi = gen.INTS[t]
            spans, st = [(lo, hi)], ""
            if r.random() < 0.7:
                spans = sorted({(a, a + r.choice([0, 5, 20])) for a in r.sample(range(0, 100, 25), r.randint(1, 2))})
                st = ' { range "%s"; }' % " | ".join("%d..%d" % s if s[0] != s[1] else "%d" % s[0] for s in spans)
            return "type %s%s" % (t, st or ";"), Mem("int", spans=spans)
        if k == "string":
            if r.random() < 0.2:
                return "type string;", Mem("string")
            lens, pats, o = [], [], ""
            if r.random() < 0.6:
                lens = [gen.rand_lengths(r, [(0, 10**9)], 5)]
                o += ' length "%s";' % gen.len_text(r, lens[0])
            if r.random() < 0.5 or not lens:
                p = r.choice(["[a-z]+", "[0-9]+", "a|bc", "[A-Za-z][A-Za-z0-9_-]*", ".*x.*", "[0-9]{2}", "t.*|f.*"])
                pats = [p]
                o += " pattern '%s';" % p
            return "type string {%s }" % o, Mem("string", lens=lens, pats=pats)
        if k == "enumeration":
            ns = r.sample(["up", "down", "auto", "true", "zero", "7", "a", "on-hold", "dog"], r.randint(1, 4))
            return "type enumeration { %s }" % " ".join('enum "%s";' % n for n in ns), Mem(k, names=ns)
        if k == "boolean":
            return "type boolean;", Mem(k)
        if k == "decimal64":
            fd = r.randint(1, 3)
            spans, st = None, ""
            if r.random() < 0.5:
                spans, _, _ = gen.rand_ranges(r, [(-(10 ** (fd + 2)), 10 ** (fd + 2))], -(10 ** (fd + 2)), 10 ** (fd + 2))
                st = ' range "%s";' % gen.range_text(r, spans, None, None, lambda n: gen.fdtext(n, fd))
            return "type decimal64 { fraction-digits %d;%s }" % (fd, st), Mem(k, fd=fd, spans=spans)
        if k == "bits":
            ns = r.sample(["up", "alpha", "a", "zulu"], r.randint(1, 3))
            return "type bits { %s }" % " ".join("bit %s;" % n for n in ns), Mem(k, names=ns)
        if k == "identityref":
            names = self.ids + ["%s:%s" % (self.tname, i) for i in self.ids]
            return "type identityref { base %s; }" % ("animal" if ctx == self.tname else self.tname + ":animal"), Mem(k, names=names)
        lens = [gen.rand_lengths(r, [(0, 10**9)], 4)] if r.random() < 0.5 else []
        return ('type binary { length "%s"; }' % gen.len_text(r, lens[0]) if lens else "type binary;"), Mem(k, lens=lens)

    def named(self, ctx):
        c = [t for t in self.types if ctx == self.name or t[1] == self.tname]
        if not c:
            t, m = self.member(ctx)
            return t, Members([m])
        t = self.r.choice(c)
        m = Members(t[2])
        m.default = t[3]
        m.tainted = getattr(t[2], "tainted", False)
        return "type %s;" % self.ref(t, ctx), m

    def union(self, ctx, depth):
        """-> (type statement, members)"""
        r = self.r
        parts, mem = [], Members()
        for _ in range(r.randint(2, 4)):
            q = r.random()
            if q < 0.3 and self.types:
                t, m = self.named(ctx)
            elif q < 0.45 and depth < 2:
                t, m = self.union(ctx, depth + 1)
            else:
                t, m = self.member(ctx)
                m = [m]
            parts.append(t)
            mem += m
            if getattr(m, "default", None) is not None or getattr(m, "tainted", False):
                mem.tainted = True  # the default of a member type: the code takes it for that of the union
        return "type union { %s }" % " ".join(parts), mem

    def typedef(self, ctx):
        r = self.r
        q = r.random()
        if q < 0.45:
            t, m = self.member(ctx)
            m = Members([m])
        elif q < 0.9:
            t, m = self.union(ctx, 1)
        else:
            t, m = self.named(ctx)
        n = "t%d" % self.n
        self.n += 1
        # the default of a typedef would be that of each leaf of the type: only those leaves which are just of it
        d, dv = "", getattr(m, "default", None)
        if r.random() < 0.3:
            x = self.default(m)
            if x is not None:
                from harness.schema import ystr

                d, dv = " default %s;" % ystr(x), x
        self.tds[ctx].append("  typedef %s { %s%s }" % (n, t, d))
        self.types.append((n, ctx, m, dv))


class Members(list):
    default = None
    tainted = False
