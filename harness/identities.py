"""Random sets of modules with identities, and which of them each identityref accepts."""
import random

NAMES = ["alpha", "beta", "gamma", "delta", "eps", "a-b", "x.y", "eth", "ethernet", "zeta", "alpha-2", "ID"]


class Ids:
    """ids: [(module, name, [(module, name)])] in an order where bases come first"""

    def __init__(self, p, seed, mods=4, count=9, shared_alias=False):
        r = self.r = random.Random("ids/%s/%s" % (p, seed))
        self.p = p
        order = r.sample(range(mods), mods)  # modules import those before them in this order
        self.mods = ["%s%s" % (p, "qwertyui"[i]) for i in range(mods)]
        self.prefix = {m: r.choice([m, m + "p", "%s-%d" % (p, i)]) for i, m in enumerate(self.mods)}
        self.seq = [self.mods[i] for i in order]
        self.imports = {m: self.seq[:i] if r.random() < 0.5 else r.sample(self.seq[:i], r.randint(0, i)) for i, m in enumerate(self.seq)}
        self.alias = {m: {q: self.prefix[q] if r.random() < 0.6 else "%sx%d" % (m, j) for j, q in enumerate(i)} for m, i in self.imports.items()}
        if shared_alias:
            for m, i in self.imports.items():
                names = r.sample([self.prefix[q] for q in self.mods if q != m] + ["one", "two", "three"], len(i))
                self.alias[m] = dict(zip(i, names))
        self.ids = []
        for _ in range(count):
            m = r.choice(self.mods)
            n = r.choice(NAMES)
            if any(a == m and b == n for a, b, _ in self.ids):
                continue
            vis = [(a, b) for a, b, _ in self.ids if a == m or a in self.imports[m]]
            k = min(len(vis), r.choice([0, 1, 1, 1, 1, 2, 3]))
            bases = r.sample(vis, k)
            self.ids.append((m, n, bases))
        self.leaves = []  # (module, leaf, base, through a typedef, is a leaf-list)
        for m in self.mods:
            vis = [(a, b) for a, b, _ in self.ids if a == m or a in self.imports[m]]
            for i, b in enumerate(r.sample(vis, min(len(vis), 5))):
                self.leaves.append((m, "l%d" % i, b, r.random() < 0.3, r.random() < 0.3))
        self.sub = {m: r.random() < 0.3 for m in self.mods}
        self.text = {}
        for m in self.mods:
            self.text.update(self.emit(m))

    def derived(self, base):
        out, more = set(), True
        while more:
            more = False
            for m, n, bs in self.ids:
                if (m, n) not in out and any(b == base or b in out for b in bs):
                    out.add((m, n))
                    more = True
        return out

    def names(self, i):
        m, n = i
        return ["%s:%s" % (m, n), "%s:%s" % (self.prefix[m], n)]

    def ref(self, ctx, i, own=0.3):
        m, n = i
        if m == ctx:
            return "%s:%s" % (self.prefix[m], n) if self.r.random() < own else n
        return "%s:%s" % (self.alias[ctx][m], n)

    def emit(self, m):
        r = self.r
        mine = [(n, bs) for a, n, bs in self.ids if a == m]
        r.shuffle(mine)

        def ident(n, bs):
            bs = list(bs)
            r.shuffle(bs)
            return "  identity %s { %s }" % (n, " ".join("base %s;" % self.ref(m, b) for b in bs)) if bs else "  identity %s;" % n

        imp = ["  import %s { prefix %s; }" % (q, self.alias[m][q]) for q in r.sample(self.imports[m], len(self.imports[m]))]
        subs, here = [], mine
        if self.sub[m] and mine:
            # pyang finds no identity of the module from its submodule
            inside = set()
            for a, n, bs in self.ids:
                if a == m and r.random() < 0.6 and all(q != m or x in inside for q, x in bs):
                    inside.add(n)
            subs, here = [x for x in mine if x[0] in inside], [x for x in mine if x[0] not in inside]
        tds, ls = [], []
        for a, l, b, td, ll in self.leaves:
            if a == m:
                t = "identityref { base %s; }" % self.ref(m, b)
                if td:
                    tds.append("  typedef t-%s { type %s }" % (l, t))
                    t = "t-%s;" % l
                ls.append("    %s %s { type %s }" % ("leaf-list" if ll else "leaf", l, t))
        body = ["  " + x for x in []] + [ident(n, bs) for n, bs in here] + tds + ["  container c {"] + ls + ["    leaf z { type string; }", "  }"]
        head = "module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\"; prefix %s;\n" % (m, m, self.prefix[m])
        out = {}
        if self.sub[m]:
            s = m + "-sub"
            out[s] = "submodule %s {\n  yang-version 1.1;\n  belongs-to %s { prefix %s; }\n%s\n%s\n}\n" % (s, m, self.prefix[m], "\n".join(imp), "\n".join(ident(n, bs) for n, bs in subs))
            imp.append("  include %s;" % s)
        # pyang refuses nothing about order of body statements
        out[m] = head + "\n".join(imp + body) + "\n}\n"
        return out

    def accepts(self, base, text):
        """True, False, or None: not determined (a prefix by which only some module knows another)"""
        d = self.derived(base)
        if ":" not in text:
            return any(n == text for _, n in d)
        known = {x: (m, n) for m, n, _ in self.ids for x in self.names((m, n))}
        if text in known:
            return known[text] in d
        a = text.split(":")[0]
        if any(a in al.values() for al in self.alias.values()):
            return None
        return False

    def candidates(self):
        out = set()
        for m, n, _ in self.ids:
            out.add(n)
            out.update(self.names((m, n)))
            for q in self.mods:
                out.add("%s:%s" % (q, n))
                out.add("%s:%s" % (self.prefix[q], n))
        out.update(["nothing", "", "alph", "c", self.mods[0] + ":", ":" + self.ids[0][1], "other:" + self.ids[0][1]])
        return sorted(out)
