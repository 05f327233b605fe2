"""Reference model: random valid YANG modules built from a schema the generator
knows, random instance data for them, and what RFC 7950/7951 (and pyangbind's own
default JSON) say the data looks like.  Used as the oracle of the bounded stand-ins
for the functions that walk whole trees."""
import base64
import collections
import json
import os
import random
import re
from decimal import Decimal

from harness import gen
from pyvc import loader

V = collections.namedtuple("V", "tag val size")


def mkv(tag, val, size=0):
    return V(tag, val, size)


RESERVED = {"class", "for", "if", "import", "get", "default", "while", "or", "None", "elements", "append", "await", "from", "list", "str", "int", "in"}


def safe(name):
    n = name.replace("-", "_").replace(".", "_")
    return n + "_" if n in RESERVED else n


# ------------------------------------------------------------------ values
def forms(v):
    """Python inputs that denote v"""
    if v.tag == "int":
        return [v.val, str(v.val)]
    if v.tag == "dec":
        return [v.val, format(v.val, "f")]
    if v.tag == "bin":
        return [v.val, base64.b64encode(v.val).decode()]
    if v.tag == "bits":
        return [" ".join(v.val), " ".join(reversed(v.val))]
    if v.tag == "bool":
        return [v.val, "true" if v.val else "false"]
    if v.tag == "empty":
        return [True]
    if v.tag == "id":
        return [v.val[1]]
    return [v.val]


def same(py, v):
    try:
        if v.tag == "int":
            return isinstance(py, int) and py == v.val
        if v.tag == "dec":
            return isinstance(py, Decimal) and py == v.val
        if v.tag == "bin":
            return isinstance(py, bytes) and py == v.val
        if v.tag == "bits":
            return str(py) == " ".join(v.val)
        if v.tag in ("bool", "empty"):
            return bool(py) == v.val and str(py) in ("True", "False")
        if v.tag == "id":
            return str(py) in (v.val[1], "%s:%s" % v.val)
        return str(py) == v.val
    except Exception:
        return False


def defjson(v):
    if v.tag == "dec":
        return float(v.val)
    if v.tag == "bin":
        return base64.b64encode(v.val).decode()
    if v.tag == "bits":
        return " ".join(v.val)
    if v.tag == "id":
        return v.val[1]
    return v.val


class DecStr:
    """a JSON string or XML text that denotes this decimal"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, str) and re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", o) is not None and Decimal(o) == self.v

    def __repr__(self):
        return "DecStr(%s)" % self.v


def ietfjson(v, mod):
    if v.tag == "int":
        return str(v.val) if v.size == 64 else v.val
    if v.tag == "dec":
        return DecStr(v.val)
    if v.tag == "empty":
        return [None]
    if v.tag == "id":
        return v.val[1] if v.val[0] == mod else "%s:%s" % v.val
    return defjson(v)


def xmltext(v, mod):
    if v.tag == "int":
        return str(v.val)
    if v.tag == "bool":
        return "true" if v.val else "false"
    if v.tag == "empty":
        return None
    return ietfjson(v, mod)


def lexical(v, mod):
    """the value as written in a default statement of module mod"""
    if v.tag == "dec":
        return format(v.val, "f")
    if v.tag == "id":
        return v.val[1] if v.val[0] == mod else "%s:%s" % v.val
    if v.tag == "bool":
        return "true" if v.val else "false"
    x = defjson(v)
    return x if isinstance(x, str) else str(x)


# ------------------------------------------------------------------- types
class T:
    def __init__(self, kind):
        self.kind = kind
        self.spans = None  # ints/decimals: value spans (scaled integers for decimals)
        self.lens, self.pats = [], []
        self.td = None  # (typedef name, module)
        self.stmt = ""  # statements inside the type
        self.base = None  # T this one restricts (a typedef)
        self.fd = 0
        self.names, self.bits, self.ids, self.idbase, self.members = [], [], [], None, []
        self.size = 0
        self.default = None

    def text(self, ctx):
        if self.td:
            n, m = self.td
            return "type %s;" % (n if m == ctx else "%s:%s" % (m, n))
        if self.base is not None:
            n, m = self.base.td
            return "type %s { %s }" % (n if m == ctx else "%s:%s" % (m, n), self.stmt)
        if self.kind == "union":
            return "type union { %s }" % " ".join(t.text(ctx) for t in self.members)
        if self.kind == "identityref":
            m, n = self.idbase
            return "type identityref { base %s; }" % (n if m == ctx else "%s:%s" % (m, n))
        name = self.kind if self.kind != "int" else self.intname
        return "type %s { %s }" % (name, self.stmt) if self.stmt else "type %s;" % name

    def modules(self):
        """modules its text mentions"""
        out = set()
        if self.td:
            out.add(self.td[1])
        elif self.base is not None:
            out.add(self.base.td[1])
        elif self.kind == "identityref":
            out.add(self.idbase[0])
        for t in self.members:
            out |= t.modules()
        return out

    def accepts(self, x):
        """would a union try this member successfully?"""
        try:
            if self.kind == "int":
                n = int(x)
                if isinstance(x, (float, Decimal)) and n != x:
                    return False
                return any(a <= n <= b for a, b in self.spans)
            if self.kind == "decimal64":
                d = Decimal(str(x) if isinstance(x, float) else x)
                if not d.is_finite():
                    return False
                if self.spans is None:
                    return True
                s = d.scaleb(self.fd)
                return any(a <= s <= b for a, b in self.spans)
            if self.kind == "string":
                s = str(x)
                return all(any(a <= len(s) <= b for a, b in sp) for sp in self.lens) and all(re.fullmatch(p, s) for p in self.pats)
            if self.kind == "enumeration":
                return str(x) in self.names
            if self.kind == "boolean":
                return x in ["false", "False", False, 0, "0", "true", "True", True, 1, "1"]
            if self.kind == "bits":
                return isinstance(x, str) and all(b in self.bits for b in x.split())
            if self.kind == "union":
                return any(t.accepts(x) for t in self.members)
        except Exception:
            return False
        return True

    def value(self, r):
        k = self.kind
        if k == "int":
            a, b = r.choice(self.spans)
            n = r.choice([a, b, r.randint(a, b), min(b, max(a, r.randint(-20, 300)))])
            return mkv("int", n, self.size)
        if k == "decimal64":
            a, b = r.choice(self.spans or [(-(10 ** (self.fd + 4)), 10 ** (self.fd + 4))])
            n = r.choice([a, b, r.randint(a, b)])
            return mkv("dec", Decimal(n).scaleb(-self.fd))
        if k == "string":
            return mkv("str", self.string(r))
        if k == "binary":
            sp = self.lens[-1] if self.lens else [(0, 8)]
            a, b = r.choice(sp)
            return mkv("bin", bytes(r.randrange(256) for _ in range(r.randint(a, min(b, a + 9)))))
        if k == "enumeration":
            return mkv("enum", r.choice(self.names))
        if k == "bits":
            return mkv("bits", tuple(b for b in self.bits if r.random() < 0.5))
        if k == "boolean":
            return mkv("bool", r.random() < 0.5)
        if k == "empty":
            return mkv("empty", True)
        if k == "identityref":
            return mkv("id", r.choice(self.ids))
        if k == "leafref":
            return mkv("str", r.choice(["x", "007", "a b", "é", "true"]))
        if k == "union":
            for _ in range(40):
                i = r.randrange(len(self.members))
                v = self.members[i].value(r)
                xs = forms(v) + [defjson(v)] + ([xmltext(v, None)] if v.tag != "dec" else [format(v.val, "f")])
                if v.tag == "int" and v.size == 64:
                    xs.append(str(v.val))
                if not any(t.accepts(x) for t in self.members[:i] for x in xs):
                    return v
            return None
        raise AssertionError(k)

    def string(self, r):
        if not self.lens and not self.pats:
            return r.choice(["", "a", "abc", "007", "1.0", "true", "null", "None", "a b", " lead", "b ", "é", "日本", "x<&>\"'", "a/b", "a:b", "[x]", "5", "-1", "q" * 30])
        for _ in range(3000):
            if self.pats and r.random() < 0.7:
                s = sample_re(r, r.choice(self.pats))
            else:
                a, b = r.choice(self.lens[-1]) if self.lens else (0, 8)
                s = "".join(r.choice("abcxyz019-.") for _ in range(r.randint(a, min(b, a + 6))))
            if all(any(a <= len(s) <= b for a, b in sp) for sp in self.lens) and all(re.fullmatch(p, s) for p in self.pats):
                return s
        raise LookupError((self.lens, self.pats))


def sample_re(r, p):
    import re._parser as sp

    def go(ops):
        out = []
        for op, av in ops:
            n = str(op)
            if n == "LITERAL":
                out.append(chr(av))
            elif n == "ANY":
                out.append(r.choice("abxz09-"))
            elif n == "NOT_LITERAL":
                out.append("b" if chr(av) == "a" else "a")
            elif n == "IN":
                cand = []
                neg = False
                for o, a in av:
                    if str(o) == "NEGATE":
                        neg = True
                    elif str(o) == "LITERAL":
                        cand.append(chr(a))
                    elif str(o) == "RANGE":
                        cand.append(chr(r.randint(a[0], a[1])))
                    elif str(o) == "CATEGORY":
                        cand.append("0")
                out.append(r.choice([c for c in "abcz09" if c not in cand]) if neg else r.choice(cand))
            elif n == "BRANCH":
                out.append(go(r.choice(av[1])))
            elif n == "SUBPATTERN":
                out.append(go(av[3]))
            elif n in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = av
                for _ in range(r.randint(lo, min(int(hi), lo + 14))):
                    out.append(go(sub))
        return "".join(out)

    return go(sp.parse(p))


# ------------------------------------------------------------------- nodes
class N:
    def __init__(self, kind, name, mod):
        self.kind, self.name, self.mod = kind, name, mod
        self.t = None
        self.children = []
        self.keys = []
        self.presence = False
        self.config = True
        self.user = False
        self.default = self.lldef = None
        self.iskey = False
        self.short = False  # case written without a case statement
        self.parent = None

    @property
    def safe(self):
        return safe(self.name)

    def data(self):
        return flatten(self.children)

    def __repr__(self):
        return "%s %s" % (self.kind, self.name)


def flatten(children, path=()):
    """data nodes with the (choice, case) pairs they are under"""
    out = []
    for c in children:
        if c.kind == "choice":
            for case in c.children:
                out += flatten(case.children, path + ((c, case),))
        else:
            out.append((c, path))
    return out


NAMES = ["name", "id", "value", "state", "mtu", "a-b", "x.y", "leaf1", "type", "enabled", "address", "prefix-len", "up_time", "class", "for", "get", "data", "k1", "k2",
         "v1", "v2", "alpha", "beta", "gamma", "delta", "n", "i", "load", "parent", "keys", "items", "path", "config", "yang", "index", "count", "sort", "update"]


class G:
    """one set of modules: <p> (data), <p>t (types, identities, groupings), <p>x (augments)"""

    def __init__(self, p, seed, size=14, leafs=None, feat=()):
        self.r = random.Random("schema/%s" % seed)
        # the modules that are not the first one have names of all sorts
        names = random.Random("names/%s" % seed)
        self.p, self.pt, self.px = p, names.choice(["%st", "ietf-%st", "%s-t", "%s.t", "_%st"]) % p, names.choice(["%sx", "iana-%sx", "x-%s", "%s.x"]) % p
        self.size = size
        self.feat = set(feat)
        self.leafs = leafs
        self.tds = {self.p: [], self.pt: []}
        self.typedefs = []
        self.groupings = {self.p: [], self.pt: []}
        self.count = 0
        self.augments = []
        self.make_ids()
        self.top = []
        self.root = N("root", p, p)
        n = 0
        used = set()
        while self.count < size:
            c = self.container(0, self.p, True, used)
            self.root.children.append(c)
            n += 1
        if "topleaf" in self.feat:
            self.root.children.append(self.leaf(self.p, True, used))
        if "topchoice" in self.feat:
            self.root.children.append(self.choice(0, self.p, True, used))
        self.link(self.root)
        self.text = self.emit()

    # ---- identities
    def make_ids(self):
        r = self.r
        self.idents = []  # (mod, name, [bases])
        mods = [self.pt] * 4 + [self.p] * 3 + [self.px] * 2
        order = {self.pt: 0, self.p: 1, self.px: 2}
        for i, m in enumerate(mods):
            vis = [(a, b) for a, b, _ in self.idents if order[a] <= order[m]]
            bases = [r.choice(vis)] if vis and i > 1 else []
            if bases and r.random() < 0.2 and len(vis) > 1:
                b2 = r.choice(vis)
                if b2 not in bases:
                    bases.append(b2)
            self.idents.append((m, "ident%d" % i, bases))

    def derived(self, base):
        out = set()
        ch = True
        while ch:
            ch = False
            for m, n, bs in self.idents:
                if (m, n) not in out and any(b == base or b in out for b in bs):
                    out.add((m, n))
                    ch = True
        return sorted(out)

    # ---- types
    def type(self, keyok=False, depth=0, union=False, nodef=False):
        r = self.r
        if self.typedefs and r.random() < 0.3:
            t0 = r.choice(self.typedefs)
            if not ((keyok and t0.kind not in ("int", "string", "enumeration")) or (union and t0.kind not in ("int", "string", "enumeration", "boolean"))):
                t = T(t0.kind)
                t.__dict__.update(t0.__dict__)
                if r.random() < 0.4:
                    t = self.restrict(t0) or t
                    try:
                        t.value(random.Random(1))
                    except LookupError:
                        t = T(t0.kind)
                        t.__dict__.update(t0.__dict__)
                return t
        kinds = ["int"] * 4 + ["string"] * 4 + ["enumeration", "decimal64", "boolean", "bits", "identityref", "binary", "union", "empty"]
        if keyok:
            kinds = ["int", "int", "string", "string", "enumeration", "identityref"]
        if union:
            kinds = ["int", "int", "string", "enumeration", "boolean", "decimal64", "bits"]
        k = r.choice(kinds)
        t = T(k)
        if k == "int":
            t.intname = r.choice(sorted(gen.INTS))
            t.size = 64 if t.intname.endswith("64") else 0
            t.spans = [gen.INTS[t.intname]]
            if r.random() < 0.4:
                t.spans, a, b = gen.rand_ranges(r, t.spans, *gen.INTS[t.intname])
                t.stmt = 'range "%s";' % gen.range_text(r, t.spans, a if a == gen.INTS[t.intname][0] else None, b if b == gen.INTS[t.intname][1] else None)
        elif k == "decimal64":
            t.fd = r.randint(1, 4)
            t.stmt = "fraction-digits %d;" % t.fd
            if r.random() < 0.4:
                lim = 10 ** (t.fd + 3)
                t.spans, a, b = gen.rand_ranges(r, [(-lim, lim)], -lim, lim)
                t.stmt += ' range "%s";' % gen.range_text(r, t.spans, None, None, lambda n: gen.fdtext(n, t.fd))
        elif k in ("string", "binary"):
            if r.random() < 0.35:
                t.lens = [gen.rand_lengths(r, [(1, 10**9)])]
                if t.lens[0] != [(1, 10**9)]:
                    t.stmt = 'length "%s";' % gen.len_text(r, t.lens[0])
                else:
                    t.lens = []
            if k == "string" and r.random() < 0.35:
                p = r.choice(["[a-z]+", "[a-z0-9]*", "a|bc", "[A-Za-z][A-Za-z0-9_-]*", "[0-9a-fA-F]{2}(:[0-9a-fA-F]{2})*", ".*x.*"])
                t.pats = [p]
                t.stmt += " pattern '%s';" % p
                try:
                    t.string(random.Random(1))
                except LookupError:
                    return self.type(keyok, depth, union)
            if keyok and k == "string" and not t.lens and not t.pats:
                t.lens = [[(1, 6)]]
                t.stmt = 'length "1..6";'
        elif k == "enumeration":
            t.names = r.sample(["up", "down", "UP", "on-hold", "a.b", "10g", "x_y", "none", "all", "auto", "low", "true", "zero", "@up", "x:y"], r.randint(2, 5))
            t.stmt = " ".join("enum \"%s\";" % n for n in t.names)
        elif k == "bits":
            ns = r.sample(["zulu", "alpha", "mike", "bravo", "yank", "b-1", "b.2", "echo"], r.randint(2, 6))
            pos = {}
            nxt = 0
            st = []
            for n in ns:
                if r.random() < 0.4:
                    q = r.choice([x for x in range(40) if x not in pos.values()])
                    st.append("bit %s { position %d; }" % (n, q))
                else:
                    q = nxt
                    st.append("bit %s;" % n)
                pos[n] = q
                nxt = max(pos.values()) + 1
            t.bits = sorted(ns, key=lambda n: pos[n])
            t.stmt = " ".join(st)
        elif k == "identityref":
            cands = [(m, n) for m, n, _ in self.idents if m != self.px and self.derived((m, n))]
            cands = [c for c in cands if c[0] == self.pt] if r.random() < 0.6 else cands
            t.idbase = r.choice(cands)
            t.ids = self.derived(t.idbase)
        elif k == "union":
            if depth:
                return self.type(keyok, depth, union)
            t.members = [self.type(union=True, depth=1) for _ in range(r.randint(2, 3))]
        # hoist into a typedef
        if r.random() < 0.3:
            m = r.choice([self.p, self.pt])
            if t.modules() <= {self.pt} or (m == self.p):
                n = "td%d" % len(self.typedefs)
                # names that mean something else in the code
                free = [x for x in ("bool", "container", "list", "leaf", "leaf-list", "str", "decimal", "choice", "union-1") if all(x != q.td[0] for q in self.typedefs)]
                if free and r.random() < 0.3:
                    n = r.choice(free)
                d = ""
                if not nodef and r.random() < 0.4 and k in ("int", "string", "enumeration", "boolean", "decimal64") and not union:
                    t.default = t.value(r)
                    d = " default %s;" % ystr(lexical(t.default, m))
                self.tds[m].append("typedef %s { %s%s }" % (n, t.text(m), d))
                t.td = (n, m)
                self.typedefs.append(t)
                c = T(t.kind)
                c.__dict__.update(t.__dict__)
                t = c
        return t

    def restrict(self, t0):
        r = self.r
        t = T(t0.kind)
        t.__dict__.update(t0.__dict__)
        t.td, t.base = None, t0
        if t0.base is not None or t0.td[1] == self.px:
            return None
        if t.kind == "int":
            t.spans, a, b = gen.rand_ranges(r, t0.spans, *gen.INTS[t0.intname])
            t.stmt = 'range "%s";' % gen.range_text(r, t.spans, None, None)
        elif t.kind == "string" and not t.pats:
            sp = t0.lens[-1] if t0.lens else [(1, 10**9)]
            new = gen.rand_lengths(r, sp)
            if new == [(1, 10**9)]:
                return None
            t.lens = t0.lens + [new]
            t.stmt = 'length "%s";' % gen.len_text(r, new)
            t.pats = list(t0.pats)
        else:
            return None
        if t.default is not None and not t.accepts(t.default.val):
            return None
        return t

    # ---- nodes
    def name(self, used):
        for _ in range(1000):
            n = self.r.choice(NAMES)
            if self.r.random() < 0.15:
                n += self.r.choice(["-x", ".2", "9", "_", "_", "-", "."])
            if safe(n) not in used:
                used.add(safe(n))
                return n
        raise LookupError

    def leaf(self, mod, config, used, key=False):
        n = N("leaf", self.name(used), mod)
        self.count += 1
        n.t = self.leafs(self) if self.leafs and not key else self.type(keyok=key)
        n.config, n.iskey = self.cfg(config) if not key else config, key
        if not key and n.t.kind not in ("empty", "leafref", "union") and self.r.random() < 0.2:
            n.default = n.t.value(self.r)
            n.owndef = True
            if n.default.tag == "id" and n.default.val[0] == self.px and mod != self.px:
                n.default = None
        elif n.t.default is not None:
            n.default = n.t.default
            n.owndef = False
        if key:
            n.default = None
        return n

    def cfg(self, config):
        """the feature: a config statement anywhere"""
        return config and not ("cfg" in self.feat and self.r.random() < 0.15)

    def kids(self, depth, mod, config, used, k=None):
        r = self.r
        out = []
        for _ in range(k if k is not None else r.randint(1, 4)):
            x = r.random()
            if "choices" in self.feat and depth < 3 and r.random() < 0.4:
                x = 0.95
            if depth >= 3 or x < 0.45:
                out.append(self.leaf(mod, config, used))
            elif x < 0.6:
                n = N("leaf-list", self.name(used), mod)
                self.count += 1
                n.t = self.type(nodef=True)
                while n.t.kind == "empty" or n.t.default is not None:
                    n.t = self.type(nodef=True)
                n.config = self.cfg(config)
                n.user = r.random() < 0.3 and n.config
                if "lldef" in self.feat and n.t.kind in ("int", "string", "enumeration", "boolean") and r.random() < 0.3:
                    n.lldef = n.t.value(r)
                out.append(n)
            elif x < 0.75:
                out.append(self.container(depth + 1, mod, config, used))
            elif x < 0.9:
                out.append(self.list(depth + 1, mod, config, used))
            elif depth < 3 and "nochoice" not in self.feat:
                out.append(self.choice(depth, mod, config, used))
        return out

    def container(self, depth, mod, config, used):
        r = self.r
        n = N("container", self.name(used), mod)
        self.count += 1
        n.presence = r.random() < 0.25
        n.config = config and (r.random() > 0.15 or "allconfig" in self.feat)
        mine = set()
        n.children = [] if n.presence and r.random() < 0.3 else self.kids(depth, mod, n.config, mine)
        if not n.children and (not n.presence or "filled" in self.feat):
            n.children = [self.leaf(mod, n.config, mine)]  # no class is generated for a container that can hold nothing
        self.extend(n, depth, mine)
        return n

    def extend(self, n, depth, used):
        """children that arrive by an augment of another module"""
        if n.mod == self.p and self.r.random() < 0.25:
            ks = self.kids(depth + 1, self.px, n.config, used, k=self.r.randint(1, 2))
            n.children += ks

    def list(self, depth, mod, config, used):
        r = self.r
        n = N("list", self.name(used), mod)
        self.count += 1
        n.config = config and (r.random() > 0.1 or "allconfig" in self.feat)
        n.user = n.config and r.random() < 0.3
        mine = set()
        if n.config or r.random() < 0.5:
            n.keys = [self.leaf(mod, n.config, mine, key=True) for _ in range(r.choice([1, 1, 2]))]
        n.children = n.keys + self.kids(depth, mod, n.config, mine)
        if r.random() < 0.3:
            rest = n.children[len(n.keys):]
            n.children = rest[:1] + n.keys + rest[1:]
        self.extend(n, depth, mine)
        return n

    def choice(self, depth, mod, config, used):
        r = self.r
        n = N("choice", self.name(used), mod)
        n.config = config = self.cfg(config)
        cu = set()
        for _ in range(r.randint(2, 3)):
            if r.random() < 0.25:
                c = N("case", "", mod)
                c.short = True
                c.children = [self.leaf(mod, config, used)]
                c.name = c.children[0].name
                if safe(c.name) in cu:
                    continue
                cu.add(safe(c.name))
            else:
                c = N("case", self.name(cu), mod)
                c.children = self.kids(depth + 1, mod, config, used, k=r.randint(1, 3))
                c.children = [x for x in c.children]
            if c.children:
                n.children.append(c)
        if not n.children:
            return self.leaf(mod, config, used)
        for c in flatten([n]):
            if c[0].kind == "leaf" and c[0].default is not None:
                c[0].default = c[0].default if r.random() < 0.5 and c[0].t.default is None else (None if c[0].t.default is None else c[0].default)
        return n

    def link(self, n):
        for c in n.children:
            c.parent = n
            self.link(c)

    # ---- text
    def emit(self):
        out = {}
        self.augs = {self.p: [], self.px: []}
        body = "\n".join(self.stmt(c, self.p, "  ", True) for c in self.root.children)
        ids = {self.p: [], self.pt: [], self.px: []}
        for m, n, bs in self.idents:
            ids[m].append("  identity %s { %s }" % (n, " ".join("base %s;" % (b if a == m else "%s:%s" % (a, b)) for a, b in bs)) if bs else "  identity %s;" % n)
        head = 'module %s {\n  yang-version 1.1;\n  namespace "urn:%s"; prefix %s;\n%s'
        imp = lambda *ms: "".join("  import %s { prefix %s; }\n" % (m, m) for m in ms)
        out[self.pt] = head % (self.pt, self.pt, self.pt, "") + "\n".join(ids[self.pt] + ["  " + x for x in self.tds[self.pt]] + self.groupings[self.pt]) + "\n}\n"
        out[self.p] = head % (self.p, self.p, self.p, imp(self.pt)) + "\n".join(ids[self.p] + ["  " + x for x in self.tds[self.p]] + self.groupings[self.p]) + "\n" + body + "\n" + "\n".join(self.augs[self.p]) + "\n}\n"
        out[self.px] = head % (self.px, self.px, self.px, imp(self.pt, self.p)) + "\n".join(ids[self.px]) + "\n" + "\n".join(self.augs[self.px]) + "\n}\n"
        return out

    def uses_only(self, n, mods):
        if n.kind in ("leaf", "leaf-list"):
            if not n.t.modules() <= mods:
                return False
            if n.default is not None and n.default.tag == "id":
                return False
        return n.mod == self.p and all(self.uses_only(c, mods) for c in n.children)

    def path(self, n):
        p = []
        while n.kind != "root":
            p.append("%s:%s" % (n.mod, n.name))
            n = n.parent
        return "/" + "/".join(reversed(p))

    def stmt(self, n, ctx, ind, cfgp):
        r = self.r
        cfg = "" if n.config == cfgp or n.kind == "case" else " config %s;" % ("true" if n.config else "false")
        if not cfg and "cfg" in self.feat and n.kind != "case" and not n.iskey and r.random() < 0.1:
            cfg = " config %s;" % ("true" if n.config else "false")
        if n.kind in ("leaf", "leaf-list"):
            d = ""
            if n.default is not None and getattr(n, "owndef", False):
                d = " default %s;" % ystr(lexical(n.default, ctx))
            if n.lldef is not None:
                d = " default %s;" % ystr(lexical(n.lldef, ctx))
            u = " ordered-by user;" if n.user else ""
            return "%s%s %s { %s%s%s%s }" % (ind, n.kind, n.name, n.t.text(ctx), d, u, cfg)
        if n.kind == "case" and n.short:
            return self.stmt(n.children[0], ctx, ind, cfgp)
        cfgn = n.config if n.kind != "case" else cfgp
        lines = []
        if n.presence:
            lines.append(ind + '  presence "p";')
        if n.keys:
            lines.append('%s  key "%s";' % (ind, " ".join(k.name for k in n.keys)))
        if n.kind == "list" and n.user:
            lines.append(ind + "  ordered-by user;")
        if cfg:
            lines.append(ind + " " + cfg)
        own = [c for c in n.children if c.mod == n.mod]
        far = [c for c in n.children if c.mod != n.mod]
        # some children move to a grouping
        if own and n.kind in ("container", "list") and n.mod == self.p and r.random() < 0.3 and n.config == cfgp:
            self.gcount = getattr(self, "gcount", 0) + 1
            g = "grp%d" % self.gcount
            for m, vis in ((self.pt, {self.pt}), (self.p, {self.p, self.pt})):
                if ctx == self.pt and m == self.p:
                    continue
                k = [c for c in own if self.uses_only(c, vis) and (c.config == n.config or "cfg" in self.feat)]
                if k and (m == self.p or r.random() < 0.5):
                    i = own.index(k[0])
                    j = i
                    while j < len(own) and own[j] in k:
                        j += 1
                    k = own[i:j]
                    self.groupings[m].append("  grouping %s {\n%s\n  }" % (g, "\n".join(self.stmt(c, m, "    ", n.config) for c in k)))
                    for c in own[:i]:
                        lines.append(self.stmt(c, ctx, ind + "  ", cfgn))
                    lines.append("%s  uses %s;" % (ind, g if m == ctx else "%s:%s" % (m, g)))
                    own = own[j:]
                    break
        for c in own:
            lines.append(self.stmt(c, ctx, ind + "  ", cfgn))
        if far:
            t = []
            for c in far:
                t.append(self.stmt(c, far[0].mod, "    ", cfgn))
            self.augs[far[0].mod].append('  augment "%s" {\n%s\n  }' % (self.path(n), "\n".join(t)))
        return "%s%s %s {\n%s\n%s}" % (ind, n.kind, n.name, "\n".join(lines), ind)


def ystr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


# --------------------------------------------------------------- instances
PLAIN_KEYS = False


def rand_tree(r, children, density=0.6, state=True):
    """random data: {node: value}; at most one case of each choice"""
    out = {}
    for c in pick_cases(r, children):
        if not state and not c.config:
            continue
        if c.iskey or r.random() > density:
            continue
        x = rand_node(r, c, density, state)
        if x is not None:
            out[c] = x
    return out


def pick_cases(r, children):
    out = []
    for c in children:
        if c.kind == "choice":
            out += pick_cases(r, r.choice(c.children).children)
        else:
            out.append(c)
    return out


def rand_node(r, c, density, state=True):
    if c.kind == "leaf":
        return c.t.value(r)
    if c.kind == "leaf-list":
        vs = []
        for _ in range(r.randint(1, 4)):
            v = c.t.value(r)
            if v is not None and v not in vs and not any(v2.tag == v.tag and same_val(v, v2) for v2 in vs):
                vs.append(v)
        return vs or None
    if c.kind == "container":
        t = rand_tree(r, c.children, density, state)
        return t if t or c.presence else None
    if c.kind == "list":
        es = []
        seen = set()
        for _ in range(r.randint(1, 3)):
            e = {}
            for k in c.keys:
                e[k] = k.t.value(r)
            kt = " ".join(keytext(e[k]) for k in c.keys)
            if c.keys and (kt in seen or kt == "" or PLAIN_KEYS and any(keytext(e[k]) == "" or any(q in keytext(e[k]) for q in " '\"[]") for k in c.keys)):
                continue
            seen.add(kt)
            e.update(rand_tree(r, c.children, density, state))
            if not c.keys and not e:
                continue
            es.append(e)
        return es or None
    raise AssertionError(c.kind)


def same_val(a, b):
    return a.val == b.val or str(a.val) == str(b.val)


def keytext(v):
    return lexical(v, v.val[0] if v.tag == "id" else None)


def apply(tree, obj, r=None, native=False):
    """write the tree through the public API"""
    items = list(tree.items())
    if r:
        r.shuffle(items)
    for c, x in items:
        if c.iskey:
            continue
        apply_node(c, x, obj, r)
    return obj


def form(v, r):
    f = forms(v)
    return r.choice(f) if r else f[0]


def apply_node(c, x, obj, r=None):
    if c.kind == "leaf":
        setleaf(c, obj, form(x, r))
    elif c.kind == "leaf-list":
        fs = [form(v, r) for v in x]
        if c.config and r and r.random() < 0.5:
            for f in fs:
                getattr(obj, c.safe).append(f)
        else:
            setleaf(c, obj, fs)
    elif c.kind == "container":
        o = getattr(obj, c.safe)
        if c.presence:
            o._set_present()
        apply(x, o, r)
        if r and r.random() < 0.1 and c.config and x and not getattr(obj, "_path_helper", None):
            setattr(obj, c.safe, o)
    else:
        for e in x:
            apply(e, add_entry(c, e, getattr(obj, c.safe), r), r)
        if r and r.random() < 0.2 and c.config and not getattr(obj, "_path_helper", None):
            setattr(obj, c.safe, getattr(obj, c.safe))  # a copy of the list


def setleaf(c, obj, val):
    if c.config:
        setattr(obj, c.safe, val)
    else:
        getattr(obj, "_set_" + c.safe)(val)


def add_entry(c, e, lst, r=None):
    if not c.keys:
        return lst[lst.add()]
    if len(c.keys) == 1 and not (r and r.random() < 0.3):
        return lst.add(form(e[c.keys[0]], r))
    return lst.add(**{k.safe: form(e[k], r) for k in c.keys})


def diff(obj, tree, children, path=""):
    """None, or where the object tree differs from the model"""
    for c, _ in flatten(children):
        p = path + "/" + c.name
        o = getattr(obj, c.safe)
        x = tree.get(c)
        if c.kind == "leaf":
            if x is None:
                if o._changed():
                    return "%s: is set (%r), should not be" % (p, o)
            elif not o._changed():
                return "%s: is not set, should be %r" % (p, x)
            elif not same(o, x):
                return "%s: is %r, should be %r" % (p, o, x)
        elif c.kind == "leaf-list":
            got = list(o)
            if len(got) != len(x or []):
                return "%s: is %r, should be %r" % (p, got, x)
            for a, b in zip(got, x or []):
                if not same(a, b):
                    return "%s: is %r, should be %r" % (p, got, x)
        elif c.kind == "container":
            if c.presence and o._present() is not (x is not None):
                return "%s: present is %r, should be %r" % (p, o._present(), x is not None)
            d = diff(o, x or {}, c.children, p)
            if d:
                return d
        else:
            es = list(o.values())
            if len(es) != len(x or []):
                return "%s: %d entries, should be %d" % (p, len(es), len(x or []))
            for a, b in zip(es, x or []):
                d = diff(a, b, c.children, p + "[]")
                if d:
                    return d
    return None


# ------------------------------------------------------- expected encodings
def exp_default(tree, children):
    out = {}
    for c, _ in flatten(children):
        if c not in tree:
            continue
        x = tree[c]
        if c.kind == "leaf":
            out[c.name] = defjson(x)
        elif c.kind == "leaf-list":
            out[c.name] = [defjson(v) for v in x]
        elif c.kind == "container":
            d = exp_default(x, c.children)
            if d or c.presence:
                out[c.name] = d
        elif c.keys:
            d = {}
            for i, e in enumerate(x):
                d[" ".join(str(defjson(e[k])) for k in c.keys)] = exp_default(e, c.children)
                if c.user:
                    d[" ".join(str(defjson(e[k])) for k in c.keys)]["__yang_order"] = i
            if d:
                out[c.name] = d
        else:
            out[c.name] = KeylessDict([exp_default(e, c.children) for e in x])
    return out


class KeylessDict:
    """a JSON object whose member names are arbitrary"""

    def __init__(self, entries):
        self.e = entries

    def __eq__(self, o):
        return isinstance(o, dict) and len(o) == len(self.e) and all(jeq(a, b) for a, b in zip(o.values(), self.e))

    def __repr__(self):
        return "KeylessDict(%r)" % (self.e,)


def jeq(got, want):
    if isinstance(want, (DecStr, KeylessDict)):
        return want == got
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(jeq(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(jeq(a, b) for a, b in zip(got, want))
    return type(got) is type(want) and got == want


def exp_ietf(tree, children, pmod):
    out = {}
    for c, _ in flatten(children):
        if c not in tree:
            continue
        x = tree[c]
        k = c.name if c.mod == pmod else "%s:%s" % (c.mod, c.name)
        if c.kind == "leaf":
            out[k] = ietfjson(x, c.mod)
        elif c.kind == "leaf-list":
            out[k] = [ietfjson(v, c.mod) for v in x]
        elif c.kind == "container":
            d = exp_ietf(x, c.children, c.mod)
            if d or c.presence:
                out[k] = d
        else:
            out[k] = [exp_ietf(e, c.children, c.mod) for e in x]
    return out


def exp_xml(tree, children):
    """[(namespace module, name, text | None | [children])] in schema order"""
    out = []
    for c, _ in flatten(children):
        if c not in tree:
            continue
        x = tree[c]
        if c.kind == "leaf":
            out.append((c.mod, c.name, xmltext(x, c.mod)))
        elif c.kind == "leaf-list":
            out += [(c.mod, c.name, xmltext(v, c.mod)) for v in x]
        elif c.kind == "container":
            d = exp_xml(x, c.children)
            if d or c.presence:
                out.append((c.mod, c.name, d))
        else:
            out += [(c.mod, c.name, exp_xml(e, c.children)) for e in x]
    return out


def sets(prefix, seed, n, size=14, feat=(), leafs=None):
    return [G("%s%d" % (prefix, i), "%s/%s/%d" % (prefix, seed, i), size=size, feat=feat, leafs=leafs) for i in range(n)]


def build(tmp, name, gs, flags=("--presence",), one=True):
    """bindings of all the sets in one file"""
    texts = {}
    for g in gs:
        texts.update(g.text)
    return gen.build(tmp, name, texts, flags)
