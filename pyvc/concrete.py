"""Concrete counterpart of engine.Sym: runs a harness on the real, uninstrumented
modules with given or generated inputs."""
import random


class ConcreteViolation(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, "%s %s" % (name, detail))
        self.name = name
        self.detail = detail


class Discard(BaseException):
    pass


INT_POOL = [0, 1, -1, 2, 3, 5, 9, 10, 11, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
            2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**53 + 1, -(2**53) - 1,
            2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 2**64 - 1, 2**64]
STR_POOL = ["", "a", "b", "ab", "abc", "aa", "xyz", "A", "Z", "0", "1", "5", "10", "-1", "1.5", "true", "false", "a b", "a-b", "a_b", "a.b",
            "é", "日本", "a\n", "abc\n", "\n", " ", "a|b", "$", "^", "'", '"', "[x]", "a/b", "a:b", "None", "False", "x" * 40, "\t", "<&>"]


class Conc:
    symbolic = False

    def __init__(self, M, inputs=None, rng=None, strict=True):
        self.M = M
        self.given = dict(inputs or {})
        self.rng = rng
        self.inputs = {}
        self.counters = {}
        self.proves = 0
        self.names = set()
        self.obs = []
        self.recent_ints = []
        self.recent_texts = {}

    def fresh(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return "%s!%d" % (base, n) if n else base

    def _take(self, name, gen):
        name = self.fresh(name)
        if name in self.given:
            v = self.given[name]
        elif self.rng is None:
            v = gen(random.Random(0))
        else:
            v = gen(self.rng)
        self.inputs[name] = v
        return v

    def choose(self, name, options):
        options = list(options)
        i = self._take(name, lambda r: r.randrange(len(options)))
        return options[int(i) % len(options)]

    def int(self, name, lo=None, hi=None):
        def gen(r):
            k = r.random()
            if k < 0.45:
                v = r.choice(INT_POOL)
            elif k < 0.75 and self.recent_ints:
                v = r.choice(self.recent_ints) + r.choice([-2, -1, 0, 1, 2])
            elif k < 0.9:
                v = r.randint(-20, 300)
            else:
                v = r.randint(-(2**65), 2**65)
            if lo is not None and v < lo:
                v = lo + (abs(v) % 7)
            if hi is not None and v > hi:
                v = hi - (abs(v) % 7)
            if lo is not None and v < lo:
                v = lo
            return v

        v = int(self._take(name, gen))
        self.recent_ints.append(v)
        return v

    def seed(self, name):
        return int(self._take(name, lambda r: r.randrange(10**9)))

    def str(self, name, pool=None, alphabet=None):
        def gen(r):
            k = r.random()
            if pool and k < 0.6:
                return r.choice(pool)
            if alphabet and k < 0.85:
                return "".join(r.choice(alphabet) for _ in range(r.randrange(0, 8)))
            return r.choice(STR_POOL)

        return self._take(name, gen)

    def text(self, name, alphabet, pool=None):
        seen = self.recent_texts.setdefault(name, [])

        def gen(r):
            if seen and r.random() < 0.4:
                return r.choice(seen)
            v = r.choice(pool) if pool and r.random() < 0.6 else ""
            return v or "".join(r.choice(alphabet) for _ in range(r.randrange(1, 9)))

        v = self._take(name, gen)
        if not v or not (pool and v in pool or set(v) <= set(alphabet)):
            raise Discard("not a text over the alphabet")
        seen.append(v)
        return v

    def bool(self, name):
        return bool(self._take(name, lambda r: r.random() < 0.5))

    def decimal(self, name, scale=None):
        from decimal import Decimal

        def gen(r):
            k = r.random()
            if k < 0.3 and self.recent_ints:
                return r.choice(self.recent_ints) * 10**scale + r.choice([-1, 0, 1])
            if k < 0.7:
                return r.choice(INT_POOL)
            return r.randint(-(10 ** (scale + 3)), 10 ** (scale + 3))

        n = int(self._take(name, gen))
        sign = 1 if n < 0 else 0
        return Decimal((sign, tuple(int(c) for c in str(abs(n))), -scale))

    def bytes(self, name):
        v = self._take(name, lambda r: bytes(r.randrange(256) for _ in range(r.randrange(0, 9))))
        if isinstance(v, str):
            v = v.encode("latin-1")
        return v

    def numeral(self, n):
        return str(int(n))

    def fmt(self, fmt, *args):
        return fmt.format(*[a if isinstance(a, str) else str(int(a)) for a in args])

    def len(self, x):
        return len(x)

    def matches(self, pattern, v):
        import re

        return re.fullmatch(pattern, v) is not None

    def assume(self, c, why=None):
        if not c:
            raise Discard()

    def prove(self, name, cond, **k):
        self.proves += 1
        self.names.add(name)
        if not cond:
            raise ConcreteViolation(name)
        return True

    def reach(self, name):
        pass

    def observe(self, *vals):
        self.obs.append(vals)

    def assumption(self, t):
        pass

    bounded = assumption

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)


def run_concrete(harness, M, inputs=None, rng=None):
    """-> ('ok'|'discard'|'violation'|'error', Conc, detail)"""
    import traceback

    E = Conc(M, inputs, rng)
    try:
        harness(E, M)
        return "ok", E, None
    except Discard:
        return "discard", E, None
    except ConcreteViolation as e:
        return "violation", E, e.name
    except Exception:
        return "error", E, traceback.format_exc()
