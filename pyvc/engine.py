"""Path-exhaustive symbolic execution of instrumented CPython code; every
proof obligation is discharged by z3 (second opinion: cvc5)."""
import subprocess
import tempfile
import os
import time
import z3


class EngineExit(BaseException):
    """engine control flow; BaseException so that no repository handler catches it"""


class Infeasible(EngineExit):
    pass


class PathEnd(EngineExit):
    pass


class Unsupported(EngineExit):
    pass


class Budget(EngineExit):
    pass


CUR = None  # the engine whose path is executing (None: concrete mode)


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CUR


class Obl:
    __slots__ = ("name", "instances", "proved", "refuted", "unknown", "time", "backends", "abstract")

    def __init__(self, name):
        self.name = name
        self.instances = 0
        self.proved = 0
        self.refuted = 0
        self.unknown = 0
        self.time = 0.0
        self.backends = {}
        self.abstract = False


def cvc5_check(smt2, timeout=20):
    """sat/unsat/unknown from the cvc5 command line"""
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + smt2)
        r = subprocess.run(
            ["cvc5", "--lang=smt2.6", "--strings-exp", "--tlimit=%d" % (timeout * 1000), p],
            capture_output=True, text=True, timeout=timeout + 10,
        )
        out = r.stdout.strip().splitlines()
        return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


class Sym:
    symbolic = True

    def __init__(self, M=None, max_paths=4000, deadline=None, check_timeout=8000, unroll=3, use_inv=True, cvc5=True):
        self.M = M
        self.max_paths = max_paths
        self.deadline = deadline
        self.check_timeout = check_timeout
        self.unroll = unroll
        self.use_inv = use_inv
        self.use_cvc5 = cvc5
        self.obls = {}
        self.functions = {}
        self.assumptions = set()
        self.bounded_notes = set()
        self.paths = 0
        self.paths_done = 0
        self.paths_cut = 0
        self.infeasible = 0
        self.unsupported = []
        self.solver_time = 0.0
        self.solver_calls = 0
        self.counterexamples = []
        self.path_models = []
        self.want_path_models = True
        self.incomplete = None

    # ---------------------------------------------------------------- path
    def _start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.nways = []
        self.trail = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.check_timeout)
        self.inputs = {}
        self.input_terms = {}
        self.counters = {}
        self.path_abstract = False
        self.alphabets = {}
        self.late = []
        self.obs = []
        self.tracked = []
        self.invariants = []

    def explore(self, harness):
        global CUR
        work = [[]]
        self.work = work
        while work:
            if self.paths >= self.max_paths:
                self.incomplete = "path budget (%d) exhausted" % self.max_paths
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete = "time budget exhausted"
                break
            prefix = work.pop()
            self._start(prefix)
            self.paths += 1
            CUR = self
            try:
                harness(self, self.M)
                self.paths_done += 1
                self._finish_path()
            except Infeasible:
                self.infeasible += 1
            except PathEnd:
                self.paths_cut += 1
            except Unsupported as e:
                self.unsupported.append(str(e))
            except Budget as e:
                self.incomplete = str(e)
            except RecursionError as e:
                self.unsupported.append("RecursionError")
            except Exception as e:
                self._raised(e)
            finally:
                CUR = None
        return self

    def _raised(self, e):
        """an exception the contract does not allow escaped the code under test"""
        import traceback

        tb = traceback.format_exc()
        name = "no-unexpected-exception"
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name)
        o.instances += 1
        r = self._check(*self.late)
        if r == z3.unsat:
            o.proved += 1
            return
        if r != z3.sat:
            o.unknown += 1
            return
        o.refuted += 1
        if os.environ.get("VERIF_DEBUG"):
            import sys
            sys.__stderr__.write(tb)
        m = self.solver.model()
        if len([1 for x in self.counterexamples if x["obligation"] == name]) < 6:
            self.counterexamples.append({
                "obligation": name, "inputs": self.concretize(m), "abstract": False, "model": str(m)[:2000], "condition": tb[-1500:],
            })

    def _finish_path(self):
        if not self.want_path_models:
            return
        r = self._check(*self.late)
        if r == z3.unsat:
            # a path assumed away after the last branch: nothing was executed under it
            self.infeasible += 1
            return
        if r == z3.sat and not self.path_abstract:
            self.path_models.append((self.concretize(self.solver.model()), list(self.obs)))

    # -------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r

    def add(self, c):
        self.solver.add(c)

    def assume(self, c, why=None):
        c = boolexpr(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.add(c)
        if self._check() == z3.unsat:
            raise Infeasible()

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            self.add(c if d else z3.Not(c))
            return bool(d)
        self.pos += 1
        st = self._check(c)
        sf = self._check(z3.Not(c))
        if st == z3.unsat and sf == z3.unsat:
            raise Infeasible()
        if st == z3.unsat:
            d = 0
        elif sf == z3.unsat:
            d = 1
        else:
            d = 1
            self.work.append(self.trail + [0])
        self.trail.append(d)
        self.add(c if d else z3.Not(c))
        if len(self.trail) > 4000:
            raise Budget("path too long")
        return bool(d)

    shard = None  # (index, of): explore only this part of the first two choices

    def _nway(self, n):
        d = self._nway1(n)
        if self.shard is not None:
            self.nways.append(d)
            if len(self.nways) == 2 and (self.nways[0] * 7 + self.nways[1]) % self.shard[1] != self.shard[0]:
                raise Infeasible()
        return d

    def _nway1(self, n):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            return d
        self.pos += 1
        for i in range(n - 1, 0, -1):
            self.work.append(self.trail + [i])
        self.trail.append(0)
        return 0

    # -------------------------------------------------------------- inputs
    def fresh(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return "%s!%d" % (base, n) if n else base

    def choose(self, name, options):
        name = self.fresh(name)
        options = list(options)
        i = self._nway(len(options))
        self.inputs[name] = i
        return options[i]

    def int(self, name, lo=None, hi=None):
        from . import models as m
        name = self.fresh(name)
        t = z3.Int(name)
        self.input_terms[name] = t
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        return m.mkint(t)

    def str(self, name, pool=None, alphabet=None):
        from . import models as m
        name = self.fresh(name)
        t = z3.String(name)
        self.input_terms[name] = t
        # the domain is unicode scalar values representable in z3 strings
        return m.VStr([t])

    def text(self, name, alphabet, pool=None):
        """any nonempty text over an alphabet"""
        from . import models as m
        v = self.str(name)
        t = v.parts[0]
        self.add(z3.Length(t) >= 1)
        # what is asked about the characters of the text is answered from the alphabet (models.alphabet);
        # the solver is given it only for the models and where it has not found a proof
        self.late.append(z3.InRe(t, z3.Plus(m.zset(alphabet))))
        self.alphabets[t.get_id()] = (t, frozenset(alphabet))
        return v

    def bool(self, name):
        name = self.fresh(name)
        i = self._nway(2)
        self.inputs[name] = bool(i)
        return bool(i)

    def decimal(self, name, scale=None):
        """arbitrary decimal n * 10**-scale (scale: python int)"""
        from . import models as m
        name = self.fresh(name)
        t = z3.Int(name)
        self.input_terms[name] = t
        return m.mkdec_scaled(t, scale)

    def bytes(self, name):
        from . import models as m
        name = self.fresh(name)
        t = z3.String(name)
        self.input_terms[name] = t
        self.add(z3.InRe(t, z3.Star(z3.Range("\x00", "\xff"))))
        return m.VBytes(t)

    def numeral(self, n):
        from . import models as m
        return m.numeral(n)

    def fmt(self, fmt, *args):
        from . import models as m
        return m.ropefmt(fmt, *args)

    # --------------------------------------------------------- obligations
    def prove(self, name, cond, assume_after=True):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name)
        o.instances += 1
        c = boolexpr(cond)
        t0 = time.time()
        if c is True:
            o.proved += 1
            o.backends["trivial"] = o.backends.get("trivial", 0) + 1
            return True
        if c is False:
            c = z3.BoolVal(False)
        neg = z3.Not(c)
        r = self._check(neg)
        back = "z3"
        model = None
        if r == z3.sat:
            model = self.solver.model()
            if self.late:
                r2 = self._check(neg, *self.late)
                if r2 == z3.sat:
                    model = self.solver.model()
                else:
                    r = r2
        if r == z3.unknown and self.use_cvc5:
            s = z3.Solver()
            s.add(*self.solver.assertions())
            s.add(neg)
            r5 = cvc5_check(s.to_smt2())
            back = "cvc5"
            if r5 == "unsat":
                r = z3.unsat
        o.time += time.time() - t0
        if r == z3.unsat:
            o.proved += 1
            o.backends[back] = o.backends.get(back, 0) + 1
            return True
        if r == z3.unknown:
            o.unknown += 1
            return None
        o.refuted += 1
        if self.path_abstract:
            o.abstract = True
        if len([1 for x in self.counterexamples if x["obligation"] == name]) < 6:
            self.counterexamples.append(
                {
                    "obligation": name,
                    "inputs": self.concretize(model),
                    "abstract": self.path_abstract,
                    "model": str(model)[:2000],
                    "condition": str(c)[:1000],
                }
            )
        if assume_after:
            # continue on the part of the path where it holds, if any
            self.add(c)
            if self._check() == z3.unsat:
                raise Infeasible()
        return False

    def reach(self, name):
        """cover: this point is reached by a feasible path"""
        o = self.obls.get("cover:" + name)
        if o is None:
            o = self.obls["cover:" + name] = Obl("cover:" + name)
        if o.proved:
            return
        o.instances += 1
        if self._check(*self.late) == z3.sat:
            o.proved += 1
            o.backends["z3"] = o.backends.get("z3", 0) + 1

    def observe(self, *vals):
        self.obs.append(vals)

    def assumption(self, text):
        self.assumptions.add(text)

    def bounded(self, text):
        self.bounded_notes.add(text)

    # ------------------------------------------------------------- concretise
    def concretize(self, model):
        out = dict(self.inputs)
        for n, t in self.input_terms.items():
            v = model.eval(t, model_completion=True)
            out[n] = pyvalue(v)
        return out

    def len(self, x):
        from . import models as m
        return m.vlen(x)

    def matches(self, pattern, v):
        """v, as a whole, is in the language of the pattern"""
        from . import models as m
        import re

        c = m.lower(v)
        if type(c) is str:
            return re.fullmatch(pattern, c) is not None
        r, asc = m.zre(pattern, "fullmatch")
        if asc:
            raise Unsupported("category in an oracle pattern")
        return m.mkbool(z3.InRe(m.VStr(m.str_parts(v)).term(), r))

    # logic helpers (dual mode)
    def And(self, *a):
        return _logic(z3.And, all, a)

    def Or(self, *a):
        return _logic(z3.Or, any, a)

    def Not(self, a):
        from . import models as m
        c = boolexpr(a)
        return (not c) if isinstance(c, bool) else m.VBool(z3.Not(c))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))


def _logic(zf, pf, a):
    from . import models as m
    cs = [boolexpr(x) for x in a]
    if all(isinstance(c, bool) for c in cs):
        return pf(cs)
    return m.VBool(zf(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in cs]))


def boolexpr(c):
    """python bool or z3 Bool"""
    from . import models as m
    if isinstance(c, m.VBool):
        c = z3.simplify(c.e)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c
    if isinstance(c, z3.BoolRef):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c
    return bool(c)


_ESC = None


def zstr(s):
    """decode the \\u{..} escapes of a z3 string literal"""
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def pyvalue(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_string_value(v):
        return zstr(v.as_string())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return v.as_fraction()
    return str(v)
