"""Random module sets with random data, shared by the bounded stand-ins for whole-tree functions."""
import random

from harness import schema as S


class Sets:
    def __init__(self, name, n=6, size=14, feat=(), flags=("--presence",), thorough=4):
        self.name, self.n, self.size, self.feat, self.flags, self.thorough = name, n, size, feat, flags, thorough
        self.gs = []

    def prepare(self, tmp, seed, thorough):
        if "--use-xpathhelper" in self.flags:
            S.PLAIN_KEYS = True  # keys with quotes or brackets cannot be addressed
        self.gs = S.sets(self.name, seed, self.n * (self.thorough if thorough else 1), size=self.size, feat=self.feat)
        return {self.name: S.build(tmp, self.name, self.gs, flags=self.flags)}

    def draw(self, E, M, build=True, state=True):
        """-> (bindings, set, tree, object holding the tree, rng)"""
        g = E.choose("set", self.gs)
        r = random.Random("tree/%d" % E.seed("seed"))
        t = S.rand_tree(r, g.root.children, r.choice([0.3, 0.6, 0.9]), state)
        b = M.b(self.name)
        o = None
        if build:
            o = getattr(b, g.p)()
            S.apply(t, o, r)
        return b, g, t, o, r
