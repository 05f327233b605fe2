"""Symbolic counterparts of the CPython builtins the repository's code computes
with, and the hooks the instrumentation calls.  Each model mirrors CPython's
behaviour on the stated domain; anything outside it raises Unsupported (never a
TypeError the repository could catch)."""
import base64 as _base64
import builtins as _b
import collections as _collections
import copy as _copy
import decimal as _decimal
import functools
import operator
import re
import sys
import types
from fractions import Fraction

import z3

from . import engine as eng
from . import roperegex
from .engine import Unsupported, PathEnd, Infeasible, boolexpr

_re_parser = re._parser

NINT, NSTR, NBOOL, NBYTES, NDEC, NDICT, NOD, NFLOAT = (
    int, str, bool, bytes, _decimal.Decimal, dict, _collections.OrderedDict, float,
)


def zlit(s):
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != "\\":
            out.append(c)
        else:
            if o > 0x2FFFF:
                raise Unsupported("character above U+2FFFF")
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


# ---------------------------------------------------------------------------
class VMeta(type):
    """isinstance(native, Model) is True for the builtin the model stands for"""

    _natives = {}

    def __instancecheck__(cls, x):
        nat = VMeta._natives.get(cls)
        if nat is not None and _b.isinstance(x, nat):
            return True
        t = type(x)
        if t is VBool and nat is not None and (NBOOL in nat or NINT in nat):
            return True
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        nat = VMeta._natives.get(cls)
        if nat is not None and any(type.__subclasscheck__(n, c) for n in nat if c in (NINT, NBOOL, NSTR, NBYTES, NDEC, NDICT, NOD, NFLOAT)):
            return True
        return type.__subclasscheck__(cls, c)


class VBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng.cur().branch(self.e)

    def _i(self):
        return z3.If(self.e, z3.IntVal(1), z3.IntVal(0))

    def __eq__(self, o):
        if type(o) is VBool:
            return mkbool(self.e == o.e)
        if _b.isinstance(o, NBOOL):
            return mkbool(self.e if o else z3.Not(self.e))
        t = int_term(o)
        if t is not None:
            return mkbool(self._i() == t)
        return False

    def __ne__(self, o):
        return vnot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(z3.And(self.e, _zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, _zb(o)))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~bool")

    def __index__(self):
        return 1 if self else 0

    def __repr__(self):
        return "VBool(%s)" % self.e

    def __str__(self):
        return "True" if self else "False"


def _zb(o):
    c = boolexpr(o)
    return z3.BoolVal(c) if _b.isinstance(c, NBOOL) else c


def mkbool(e):
    if _b.isinstance(e, NBOOL):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return VBool(e)


def vnot(x):
    if type(x) is VBool:
        return mkbool(z3.Not(x.e))
    return not x


# ---------------------------------------------------------------------------
# integers
def int_term(x):
    """z3 Int term of an int-like value, else None"""
    if type(x) is VBool:
        return x._i()
    if type.__instancecheck__(VInt, x):
        v = x._v
        return z3.IntVal(v) if _b.isinstance(v, NINT) else v
    if _b.isinstance(x, NINT):
        return z3.IntVal(NINT(x))
    return None


def real_term(x):
    t = int_term(x)
    if t is not None:
        return z3.ToReal(t)
    if type.__instancecheck__(VDecimal, x):
        v = x._v
        return _decval(v) if _b.isinstance(v, NDEC) else v
    if _b.isinstance(x, NDEC):
        return _decval(x) if x.is_finite() else None
    if _b.isinstance(x, NFLOAT):
        if x != x or x in (NFLOAT("inf"), NFLOAT("-inf")):
            return None
        f = Fraction(x)
        return z3.RealVal(f)
    if type(x) is VFloat:
        return x.t
    return None


def _decval(d):
    f = Fraction(d)
    return z3.RealVal(f)


def mkint(t):
    """plain symbolic int (native when the term is a literal)"""
    if _b.isinstance(t, NINT):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    o = object.__new__(VInt)
    o._v = t
    return o


def concrete_int(x):
    if _b.isinstance(x, NINT):
        return NINT(x)
    if type.__instancecheck__(VInt, x) and _b.isinstance(x._v, NINT):
        return x._v
    return None


def _icmp(op):
    def f(self, o):
        if type(o) is NFLOAT or type(o) is VFloat or _b.isinstance(o, NDEC) or type.__instancecheck__(VDecimal, o):
            ov = o
            if type.__instancecheck__(VDecimal, o) and _b.isinstance(o._v, NDEC):
                ov = o._v
            if _b.isinstance(self._v, NINT) and _b.isinstance(ov, (NFLOAT, NDEC)):
                return op(self._v, ov)
            b = real_term(ov)
            if b is None:
                # inf / nan
                if op is operator.eq:
                    return False
                if op is operator.ne:
                    return True
                if ov != ov:
                    return False
                return op(0, ov)
            return mkbool(op(real_term(self), b))
        t = int_term(o)
        if t is None:
            return NotImplemented
        a = self._v
        c = concrete_int(o)
        if _b.isinstance(a, NINT) and c is not None:
            return op(a, c)
        return mkbool(op(int_term(self), t))

    return f


def _iarith(op, swap=False):
    def f(self, o):
        if type.__instancecheck__(VDecimal, o) or _b.isinstance(o, NDEC):
            a, b = real_term(self), real_term(o)
            return mkdec(op(b, a) if swap else op(a, b))
        if _b.isinstance(o, NFLOAT) or type(o) is VFloat:
            c = concrete_int(self)
            if c is not None and type(o) is NFLOAT:
                return op(o, c) if swap else op(c, o)
            raise Unsupported("int/float arithmetic on a symbolic operand")
        t = int_term(o)
        if t is None:
            return NotImplemented
        c = concrete_int(o)
        a = self._v
        if _b.isinstance(a, NINT) and c is not None:
            return op(c, a) if swap else op(a, c)
        if op in (operator.floordiv, operator.mod):
            d = self if swap else o
            dc = concrete_int(d)
            if dc is None:
                raise Unsupported("division by a symbolic int")
            if dc == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if dc < 0:
                raise Unsupported("division by a negative int")
            x = t if swap else int_term(self)
            return mkint(x / dc if op is operator.floordiv else x % dc)
        x, y = int_term(self), t
        return mkint(op(y, x) if swap else op(x, y))

    return f


class VInt(metaclass=VMeta):
    __module__ = "builtins"

    def __new__(cls, *args, **kwargs):
        if kwargs:
            raise Unsupported("int() with keywords") if set(kwargs) <= {"base"} else TypeError("'%s' is an invalid keyword argument for int()" % list(kwargs)[0])
        if len(args) > 2:
            raise TypeError("int expected at most 2 arguments, got %d" % len(args))
        x = args[0] if args else 0
        if len(args) == 2:
            x, b = lower(x), lower(args[1])
            v = NINT(x, b)
        else:
            v = int_value(x)
        if cls is VInt:
            return v if _b.isinstance(v, NINT) else mkint(v)
        o = object.__new__(cls)
        o._v = v
        return o

    __lt__ = _icmp(operator.lt)
    __le__ = _icmp(operator.le)
    __gt__ = _icmp(operator.gt)
    __ge__ = _icmp(operator.ge)

    def __eq__(self, o):
        if _b.isinstance(o, NSTR) or type.__instancecheck__(VStr, o):
            return False
        return _ieq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vnot(r)

    def __hash__(self):
        if _b.isinstance(self._v, NINT):
            return hash(self._v)
        raise Unsupported("hash of a symbolic int")

    def __bool__(self):
        if _b.isinstance(self._v, NINT):
            return self._v != 0
        return bool(mkbool(self._v != 0))

    __add__ = _iarith(operator.add)
    __radd__ = _iarith(operator.add, True)
    __sub__ = _iarith(operator.sub)
    __rsub__ = _iarith(operator.sub, True)
    __mul__ = _iarith(operator.mul)
    __rmul__ = _iarith(operator.mul, True)
    __floordiv__ = _iarith(operator.floordiv)
    __rfloordiv__ = _iarith(operator.floordiv, True)
    __mod__ = _iarith(operator.mod)
    __rmod__ = _iarith(operator.mod, True)

    def __pow__(self, o):
        a, b = concrete_int(self), concrete_int(o)
        if a is None or b is None:
            if _b.isinstance(o, NFLOAT) and a is not None:
                return a ** o
            raise Unsupported("symbolic **")
        return a ** b

    def __rpow__(self, o):
        b = concrete_int(self)
        if b is None:
            raise Unsupported("symbolic **")
        return o ** b

    def __neg__(self):
        return mkint(-int_term(self)) if concrete_int(self) is None else -self._v

    def __pos__(self):
        return mkint(int_term(self))

    def __abs__(self):
        t = int_term(self)
        return mkint(z3.If(t >= 0, t, -t))

    def __index__(self):
        c = concrete_int(self)
        if c is None:
            raise Unsupported("symbolic int used as an index by C code")
        return c

    def __int__(self):
        c = concrete_int(self)
        if c is None:
            raise Unsupported("symbolic int converted by C code")
        return c

    def __float__(self):
        c = concrete_int(self)
        if c is None:
            raise Unsupported("symbolic int converted to float by C code")
        return NFLOAT(c)

    def bit_length(self):
        raise Unsupported("bit_length")

    def __repr__(self):
        c = concrete_int(self)
        if c is not None:
            return repr(c)
        return numeral(self)

    def __str__(self):
        return self.__repr__()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


_ieq = _icmp(operator.eq)

INT_RE_Z3 = None


def int_value(x):
    """the value int(x) yields (native int or z3 Int term); raises as int() does"""
    if type(x) is VBool:
        return x._i()
    if type.__instancecheck__(VInt, x):
        return x._v
    if _b.isinstance(x, (NINT, NFLOAT, NDEC, NSTR, NBYTES)):
        return NINT(x)
    if type.__instancecheck__(VDecimal, x):
        v = x._v
        if _b.isinstance(v, NDEC):
            return NINT(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if type.__instancecheck__(VStr, x):
        c = x.native()
        if c is not None:
            return NINT(c)
        if len(x.parts) == 1 and type(x.parts[0]) is Num:
            return x.parts[0].t
        for i, part in enumerate(x.parts):
            if _b.isinstance(part, NSTR) and any(not (c.isdecimal() or c.isspace() or c in "_+-") for c in part):
                raise ValueError("invalid literal for int() with base 10: <symbolic>")
            if _b.isinstance(part, NSTR) and any(c.isspace() for c in part) and 0 < i < len(x.parts) - 1 and type(x.parts[i - 1]) is Num and type(x.parts[i + 1]) is Num:
                raise ValueError("invalid literal for int() with base 10: <symbolic>")
        return str_to_int(x)
    if type.__instancecheck__(VBytes, x):
        c = x.native()
        if c is not None:
            return NINT(c)
        raise Unsupported("int(symbolic bytes)")
    if type(x) is VFloat:
        v = x.t
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    f = getattr(type(x), "__int__", None) or getattr(type(x), "__index__", None) or getattr(type(x), "__trunc__", None)
    if f is not None:
        return int_value(f(x))
    raise TypeError("int() argument must be a string, a bytes-like object or a real number, not '%s'" % type(x).__name__)


def zdigits():
    return z3.Range("0", "9")


def str_to_int(x):
    """int(s) for a fully symbolic string over ASCII"""
    e = eng.cur()
    als = [alphabet(q) for q in x.parts]
    if None not in als and not any(ch.isdigit() for a in als for ch in a):
        raise ValueError("invalid literal for int()")
    t = x.term()
    D = zdigits()
    canon = z3.Concat(z3.Option(z3.Union(z3.Re("-"), z3.Re("+"))), z3.Plus(D))
    if e.branch(z3.InRe(t, canon)):
        body = z3.If(
            z3.Or(z3.PrefixOf(z3.StringVal("-"), t), z3.PrefixOf(z3.StringVal("+"), t)),
            z3.SubString(t, 1, z3.Length(t) - 1), t,
        )
        v = z3.StrToInt(body)
        return z3.If(z3.PrefixOf(z3.StringVal("-"), t), -v, v)
    e.assumption(
        "int(str): inputs with surrounding whitespace, digit-group underscores or non-ASCII digits are excluded from the symbolic domain"
    )
    ws = z3.Star(z3.Union(*[z3.Re(zlit(c)) for c in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"]))
    loose = z3.Concat(ws, z3.Option(z3.Union(z3.Re("-"), z3.Re("+"))), z3.Plus(D), z3.Star(z3.Concat(z3.Re("_"), z3.Plus(D))), ws)
    e.add(z3.Not(z3.InRe(t, loose)))
    e.add(z3.InRe(t, z3.Star(z3.Range("\x00", "\x7f"))))
    if e._check() == z3.unsat:
        raise Infeasible()
    raise ValueError("invalid literal for int() with base 10: <symbolic>")


# ---------------------------------------------------------------------------
# strings
class Num:
    """decimal numeral of an integer term (no leading zeros, '-' when negative)"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def z(self):
        return z3.If(self.t >= 0, z3.IntToStr(self.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-self.t)))


class B64:
    """base64 text of a byte-string term"""

    __slots__ = ("t",)
    fn = None

    def __init__(self, t):
        self.t = t

    def z(self):
        if B64.fn is None:
            B64.fn = z3.Function("b64", z3.StringSort(), z3.StringSort())
        return B64.fn(self.t)


def numeral(n):
    c = concrete_int(n)
    if c is not None:
        return NSTR(c)
    return VStr([Num(int_term(n))])


def norm_parts(parts):
    out = []
    for p in parts:
        if _b.isinstance(p, NSTR):
            if p == "":
                continue
            if out and _b.isinstance(out[-1], NSTR):
                out[-1] = out[-1] + p
                continue
        elif type(p) is Num:
            s = z3.simplify(p.t)
            if z3.is_int_value(s):
                p = NSTR(s.as_long())
                if out and _b.isinstance(out[-1], NSTR):
                    out[-1] = out[-1] + p
                    continue
        elif _b.isinstance(p, z3.SeqRef):
            s = z3.simplify(p)
            if z3.is_string_value(s):
                p = eng.zstr(s.as_string())
                if p == "":
                    continue
                if out and _b.isinstance(out[-1], NSTR):
                    out[-1] = out[-1] + p
                    continue
        out.append(p)
    return out


def mkstr(parts):
    parts = norm_parts(parts)
    if not parts:
        return ""
    if len(parts) == 1 and _b.isinstance(parts[0], NSTR):
        return parts[0]
    return VStr(parts)


def str_parts(x):
    """parts of a string value, None when x is not a string"""
    if _b.isinstance(x, NSTR):
        return [NSTR(x)]
    if type.__instancecheck__(VStr, x):
        return x.parts
    return None


def part_term(p):
    if _b.isinstance(p, NSTR):
        return zlit(p)
    if type(p) in (Num, B64):
        return p.z()
    return p


def parts_term(parts):
    ts = [part_term(p) for p in parts]
    if not ts:
        return z3.StringVal("")
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


NUMERAL_RE = re.compile(r"(0|-?[1-9][0-9]*)\Z")


def parts_eq(a, b):
    """python bool or z3 Bool: equality of two ropes"""
    a, b = norm_parts(a), norm_parts(b)
    if all(_b.isinstance(p, NSTR) for p in a + b):
        return "".join(a) == "".join(b)
    if len(a) == len(b) == 1:
        x, y = a[0], b[0]
        if type(x) is Num and type(y) is Num:
            return x.t == y.t
        if type(x) is B64 and type(y) is B64:
            return x.t == y.t
        if type(y) is Num:
            x, y = y, x
        if type(x) is Num and _b.isinstance(y, NSTR):
            return x.t == NINT(y) if NUMERAL_RE.match(y) else False
    for x, y in ((a, b), (b, a)):
        if not y:
            # a numeral is never empty, base64 text is when there are no octets
            if any(type(p) in (Num, DecText) or _b.isinstance(p, NSTR) for p in x):
                return False
            if len(x) == 1 and type(x[0]) is B64:
                return x[0].t == z3.StringVal("")
    if len(a) == len(b) == 1:
        x, y = a[0], b[0]
        if type(x) is DecText and type(y) is DecText and x.fd == y.fd:
            return x.n == y.n
        if type(y) is DecText:
            x, y = y, x
        if type(x) is DecText and _b.isinstance(y, NSTR):
            m = re.fullmatch(r"(-?)(0|[1-9][0-9]*)" + (r"\.([0-9]{%d})" % x.fd if x.fd else "()"), y)
            return x.n == NINT(m.group(1) + m.group(2) + m.group(3)) if m and NINT(m.group(2) + m.group(3)) else (x.n == 0 if m and not m.group(1) else False)
    if len(a) + len(b) > 2:
        for x, y in ((a, b), (b, a)):
            als = [alphabet(p) for p in x]
            if None not in als:
                chars = frozenset().union(*als)
                if any(_b.isinstance(p, NSTR) and not chars.issuperset(p) for p in y):
                    return False
    conds, ra, rb = strip_common(list(a), list(b))
    if conds is None:
        return False
    for i, j in ((0, 1), (-1, -2)):
        # an atom that a character which it cannot have separates from the rest
        while len(ra) > 1 and len(rb) > 1 and not any(_b.isinstance(p, NSTR) for p in (ra[i], rb[i])) and all(_b.isinstance(p, NSTR) for p in (ra[j], rb[j])):
            ch, al = ra[j][i], (alphabet(ra[i]), alphabet(rb[i]))
            if ch != rb[j][i] or None in al or ch in al[0] or ch in al[1]:
                break
            c = parts_eq([ra[i]], [rb[i]])
            if c is False:
                return False
            if c is not True:
                conds.append(c)
            for l in (ra, rb):
                del l[i]
                l[i] = l[i][1:] if i == 0 else l[i][:-1]
                if not l[i]:
                    del l[i]
            more, ra, rb = strip_common(ra, rb)
            if more is None:
                return False
            conds += more
    if ra or rb:
        if len(ra) == len(a) and len(rb) == len(b):
            rest = parts_term(ra) == parts_term(rb)
        else:
            rest = parts_eq(ra, rb)
        if rest is False:
            return False
        if rest is not True:
            conds.append(rest)
    return True if not conds else conds[0] if len(conds) == 1 else z3.And(*conds)


def _delimited(x):
    """the numeral at the head of x ends where its digits do"""
    return len(x) == 1 or (_b.isinstance(x[1], NSTR) and not x[1][0].isdigit())


def strip_common(a, b):
    """(conditions, rest of a, rest of b): a == b iff the conditions hold and the
    rests are equal; conditions is None when they cannot be"""
    conds = []
    while a and b:
        x, y = a[0], b[0]
        if _b.isinstance(x, NSTR) and _b.isinstance(y, NSTR):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return None, a, b
            a[:1] = [x[n:]] if x[n:] else []
            b[:1] = [y[n:]] if y[n:] else []
        elif type(x) is Num and type(y) is Num:
            if x.t is not y.t and not x.t.eq(y.t):
                if not (_delimited(a) and _delimited(b)):
                    break
                conds.append(x.t == y.t)
            del a[0], b[0]
        elif type(x) is Num and _b.isinstance(y, NSTR) or type(y) is Num and _b.isinstance(x, NSTR):
            n, l = (a, b) if type(x) is Num else (b, a)
            m = re.match(r"-?[0-9]+", l[0])
            if not _delimited(n) or (m and m.end() == len(l[0]) and len(l) > 1):
                break
            if not m or not NUMERAL_RE.match(m.group(0)):
                return None, a, b
            conds.append(n[0].t == NINT(m.group(0)))
            del n[0]
            l[:1] = [l[0][m.end():]] if l[0][m.end():] else []
        elif not _b.isinstance(x, NSTR) and z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
            del a[0], b[0]
        else:
            break
    return conds, a, b


def _scmp(op):
    def f(self, o):
        p = str_parts(o)
        if p is None:
            return NotImplemented
        a, b = self.native(), mkstr(p)
        if a is not None and _b.isinstance(b, NSTR):
            return op(a, b)
        ta, tb = self.term(), parts_term(p)
        if op is operator.lt:
            return mkbool(ta < tb)
        if op is operator.le:
            return mkbool(ta <= tb)
        if op is operator.gt:
            return mkbool(tb < ta)
        return mkbool(tb <= ta)

    return f


class VStr(metaclass=VMeta):
    __module__ = "builtins"

    def __new__(cls, *args, **kwargs):
        if cls is VStr and len(args) == 1 and type(args[0]) is list:
            o = object.__new__(cls)
            o.parts = norm_parts(args[0])
            return o
        if kwargs and not set(kwargs) <= {"object", "encoding", "errors"}:
            raise TypeError("'%s' is an invalid keyword argument for str()" % list(kwargs)[0])
        if len(args) > 1 or kwargs:
            x = args[0] if args else kwargs.pop("object", b"")
            if type.__instancecheck__(VBytes, x) and x.native() is None:
                c = str_of_bytes(x, args[1:], kwargs)
            else:
                c = NSTR(*[lower(a) for a in args], **kwargs)
        else:
            c = str_value(args[0]) if args else ""
        if cls is VStr:
            return c
        o = object.__new__(cls)
        o.parts = norm_parts(str_parts(c))
        return o

    def native(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and _b.isinstance(self.parts[0], NSTR):
            return self.parts[0]
        return None

    def term(self):
        return parts_term(self.parts)

    def __eq__(self, o):
        p = str_parts(o)
        if p is None:
            return NotImplemented if not _b.isinstance(o, (NINT, NBYTES, NDEC)) else False
        return mkbool(parts_eq(self.parts, p))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vnot(r)

    __lt__ = _scmp(operator.lt)
    __le__ = _scmp(operator.le)
    __gt__ = _scmp(operator.gt)
    __ge__ = _scmp(operator.ge)

    def __hash__(self):
        c = self.native()
        if c is not None:
            return hash(c)
        c = pin(self)
        if c is not self:
            return hash(c)
        raise Unsupported("hash of a symbolic string")

    def __bool__(self):
        c = self.native()
        if c is not None:
            return bool(c)
        if any(_b.isinstance(p, NSTR) or type(p) in (Num, DecText) for p in self.parts):
            return True
        if len(self.parts) == 1 and type(self.parts[0]) is B64:
            return bool(mkbool(self.parts[0].t != z3.StringVal("")))
        return bool(mkbool(self.term() != z3.StringVal("")))

    def __add__(self, o):
        p = str_parts(o)
        if p is None:
            return NotImplemented
        return mkstr(self.parts + p)

    def __radd__(self, o):
        p = str_parts(o)
        if p is None:
            return NotImplemented
        return mkstr(p + self.parts)

    def __len__(self):
        c = self.native()
        if c is None:
            raise Unsupported("len() of a symbolic string from C code")
        return len(c)

    def vlen(self):
        c = self.native()
        if c is not None:
            return len(c)
        tot = 0
        for p in self.parts:
            tot = tot + (z3.IntVal(len(p)) if _b.isinstance(p, NSTR) else z3.Length(part_term(p)))
        return mkint(tot)

    def __iter__(self):
        c = self.native()
        if c is not None:
            return iter(c)
        # bounded number of characters, each symbolic
        e = eng.cur()
        t = self.term()
        i = 0
        out = []
        while True:
            if e.branch(z3.Length(t) == i):
                return iter(out)
            if i >= max(4, e.unroll):
                e.bounded("strings iterated character by character: at most %d characters" % i)
                raise PathEnd()
            out.append(VStr([z3.SubString(t, i, 1)]))
            i += 1

    def __contains__(self, o):
        return bool(str_contains(self, o))

    def __getitem__(self, k):
        return str_getitem(self, k)

    def __mod__(self, o):
        return mod(self, o)

    def __mul__(self, n):
        return mkstr(self.parts * concrete_int(n))

    def __repr__(self):
        c = self.native()
        if c is not None:
            return repr(c)
        return opaque("repr")

    def __str__(self):
        # only reached by our own str(): C code gets Unsupported from call()
        return mkstr(self.parts)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_") or name == "parts":
            raise AttributeError(name)
        m = STR_METHODS.get(name)
        if m is not None:
            return functools.partial(m, self)
        if hasattr(NSTR, name):
            c = self.native()
            if c is not None:
                return getattr(c, name)
            raise Unsupported("str.%s on a symbolic string" % name)
        raise AttributeError("'str' object has no attribute '%s'" % name)


def opaque(tag):
    e = eng.cur()
    return VStr([z3.String(e.fresh("opaque_" + tag))])


def str_value(x):
    """str(x): native str or VStr"""
    if _b.isinstance(x, NSTR):
        return NSTR.__str__(x) if type(x) is NSTR else type(x).__str__(x)
    if type(x) is VBool:
        return "True" if x else "False"
    if _b.isinstance(x, BaseException) and is_sym(x):
        return opaque("str")
    f = type(x).__str__
    if f is object.__str__:
        f = type(x).__repr__
        if f is object.__repr__:
            return NSTR(x)
    try:
        if f in (list.__repr__, tuple.__repr__):
            r = seq_repr(x)
        else:
            r = f(x)
    except Unsupported:
        if _b.isinstance(x, (list, tuple, NDICT, VDict, set, BaseException)):
            return opaque("str")
        raise
    if not (_b.isinstance(r, NSTR) or type.__instancecheck__(VStr, r)):
        raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
    return r


def str_contains(s, sub):
    p = str_parts(sub)
    if p is None:
        raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
    hs = mkstr(str_parts(s))
    needle = mkstr(p)
    if _b.isinstance(hs, NSTR) and _b.isinstance(needle, NSTR):
        return needle in hs
    if _b.isinstance(needle, NSTR) and needle:
        als = [alphabet(q) for q in hs.parts] if type.__instancecheck__(VStr, hs) else [None]
        if None not in als and not set(needle) <= frozenset().union(*als):
            return False
    if _b.isinstance(needle, NSTR) and len(needle) == 1:
        # piecewise
        cs = []
        for q in hs.parts:
            if _b.isinstance(q, NSTR):
                if needle in q:
                    return True
            elif type(q) is Num:
                if needle.isascii() and (needle.isdigit() or needle == "-"):
                    cs.append(z3.Contains(q.z(), zlit(needle)))
            else:
                cs.append(z3.Contains(part_term(q), zlit(needle)))
        return mkbool(z3.Or(*cs)) if cs else False
    if _b.isinstance(hs, NSTR) and len(hs) <= 40:
        # symbolic needle in a concrete haystack
        subs = {hs[i:j] for i in range(len(hs) + 1) for j in range(i, len(hs) + 1)}
        return mkbool(z3.Or(*[_zb(mkbool(parts_eq(needle.parts, [w]))) for w in sorted(subs)]))
    return mkbool(z3.Contains(parts_term(str_parts(hs)), parts_term(p)))


def zset(chars):
    """regular expression of one character of a set"""
    cs = sorted(set(chars))
    rs, i = [], 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and ord(cs[j + 1]) == ord(cs[j]) + 1:
            j += 1
        rs.append(z3.Range(zlit(cs[i]), zlit(cs[j])))
        i = j + 1
    return z3.Union(*rs) if len(rs) > 1 else rs[0]


def alphabet(p):
    """the characters that a part is made of where that is known, None"""
    if _b.isinstance(p, NSTR):
        return frozenset(p)
    if type(p) is Num:
        return frozenset("0123456789-")
    if _b.isinstance(p, z3.ExprRef):
        a = eng.cur().alphabets.get(p.get_id())
        if a is not None:
            return a[1]
    return None


def _must(c):
    """c holds on the current path"""
    e = eng.cur()
    return e._check(z3.Not(c)) == z3.unsat


def _part_lacks(p, ch):
    if _b.isinstance(p, NSTR):
        return ch not in p
    if type(p) is Num:
        return not (ch.isascii() and (ch.isdigit() or ch == "-"))
    a = alphabet(p)
    if a is not None and ch not in a:
        return True
    full = z3.Full(z3.ReSort(z3.StringSort()))
    return _must(z3.Not(z3.InRe(part_term(p), z3.Concat(full, z3.Re(zlit(ch)), full))))


def pin(v):
    """a symbolic string that the path condition determines, as that string"""
    if not type.__instancecheck__(VStr, v):
        return v
    c = v.native()
    if c is not None:
        return c
    e = eng.cur()
    if e._check() != z3.sat:
        return v
    t = v.term()
    m = e.solver.model().eval(t, model_completion=True)
    if not z3.is_string_value(m) or not _must(t == m):
        return v
    return eng.zstr(m.as_string())


def m_split(s, sep=None, maxsplit=-1):
    c = s.native()
    sep = lower(sep)
    maxsplit = lower(maxsplit)
    if c is not None:
        return c.split(sep, maxsplit)
    if sep is None:
        for p in s.parts:
            if not _b.isinstance(p, NSTR) and type(p) is not Num:
                for ch in " \t\n\r\x0b\x0c":
                    if not _part_lacks(p, ch):
                        raise Unsupported("split() of a string that may contain whitespace")
                if not _must(z3.Length(part_term(p)) > 0):
                    raise Unsupported("split() with a possibly empty token")
        out, curp = [], []
        for p in s.parts:
            if _b.isinstance(p, NSTR):
                toks = re.split(r"(\s+)", p)
                for t in toks:
                    if t == "":
                        continue
                    if t.isspace():
                        if curp:
                            out.append(mkstr(curp))
                        curp = []
                    else:
                        curp.append(t)
            else:
                curp.append(p)
        if curp:
            out.append(mkstr(curp))
        return out
    if len(sep) != 1:
        for i, p in enumerate(s.parts):
            if not _b.isinstance(p, NSTR) and type(p) is not Num:
                before, after = s.parts[i - 1] if i else "", s.parts[i + 1] if i + 1 < len(s.parts) else ""
                if not (_b.isinstance(before, NSTR) and _b.isinstance(after, NSTR)) or (before[-1:] and before[-1] in sep and after[:1] in sep and not _must(z3.Length(part_term(p)) > 0)):
                    raise Unsupported("split on a multi-character separator")
    out, curp = [], []
    n = 0
    for p in s.parts:
        if _b.isinstance(p, NSTR):
            toks = p.split(sep, maxsplit - n if maxsplit >= 0 else -1) if not (maxsplit >= 0 and n >= maxsplit) else [p]
            for i, t in enumerate(toks):
                if i:
                    out.append(mkstr(curp))
                    curp = []
                    n += 1
                curp.append(t)
        else:
            if maxsplit >= 0 and n >= maxsplit:
                curp.append(p)
                continue
            for ch in sep:
                if not _part_lacks(p, ch):
                    return _split_symbolic(s, sep, maxsplit)
            curp.append(p)
    out.append(mkstr(curp))
    return out


def _split_symbolic(s, sep, maxsplit):
    """case split on the number of separators (bounded)"""
    e = eng.cur()
    if len(sep) != 1:
        raise Unsupported("split on a multi-character separator")
    rest = s.term()
    out = []
    n = 0
    limit = maxsplit if maxsplit >= 0 else max(2, e.unroll)
    while True:
        if (maxsplit >= 0 and n >= maxsplit) or not e.branch(z3.Contains(rest, zlit(sep))):
            out.append(mkstr([rest]))
            return out
        if maxsplit < 0 and n >= limit:
            e.bounded("str.split: at most %d separators inside one symbolic string" % limit)
            raise PathEnd()
        i = z3.IndexOf(rest, zlit(sep), 0)
        out.append(mkstr([z3.SubString(rest, 0, i)]))
        rest = z3.SubString(rest, i + 1, z3.Length(rest) - i - 1)
        n += 1


def m_replace(s, old, new, count=-1):
    c = s.native()
    old = lower(old)
    if c is not None and not is_sym(new):
        return c.replace(old, lower(new), count)
    if not _b.isinstance(old, NSTR) or count != -1:
        raise Unsupported("replace with a symbolic pattern")
    newp = str_parts(new)
    out = []
    if len(old) != 1 and len([p for p in s.parts if not _b.isinstance(p, NSTR)]):
        raise Unsupported("replace of a multi-character pattern in a symbolic string")
    for p in s.parts:
        if _b.isinstance(p, NSTR):
            bits = p.split(old)
            for i, b in enumerate(bits):
                if i:
                    out.extend(newp)
                out.append(b)
        elif _part_lacks(p, old):
            out.append(p)
        else:
            nw = mkstr(newp)
            if not _b.isinstance(nw, NSTR) or type(p) is Num:
                raise Unsupported("replace inside a symbolic part")
            if nw == old:
                out.append(p)
            else:
                out.append(replace_all(part_term(p), old, nw))
    return mkstr(out)


def replace_all(t, old, new):
    """(str.replace_all t old new)"""
    ctx = t.ctx
    return z3.SeqRef(
        z3.Z3_mk_seq_replace_all(ctx.ref(), t.as_ast(), zlit(old).as_ast(), zlit(new).as_ast()), ctx
    ) if hasattr(z3, "Z3_mk_seq_replace_all") else _no_replace_all()


def _no_replace_all():
    raise Unsupported("str.replace_all")


def m_startswith(s, pre, *a):
    if a:
        raise Unsupported("startswith(start)")
    if _b.isinstance(pre, tuple):
        return any(bool(m_startswith(s, q)) for q in pre)
    p = str_parts(pre)
    hs, w = mkstr(s.parts), mkstr(p)
    if _b.isinstance(hs, NSTR) and _b.isinstance(w, NSTR):
        return hs.startswith(w)
    if _b.isinstance(w, NSTR) and not _b.isinstance(hs, NSTR) and _b.isinstance(hs.parts[0], NSTR):
        h0 = hs.parts[0]
        if len(h0) >= len(w) or not w.startswith(h0):
            return h0.startswith(w)
    return mkbool(z3.PrefixOf(parts_term(p), s.term()))


def m_endswith(s, suf, *a):
    if a:
        raise Unsupported("endswith(start)")
    if _b.isinstance(suf, tuple):
        return any(bool(m_endswith(s, q)) for q in suf)
    p = str_parts(suf)
    hs, w = mkstr(s.parts), mkstr(p)
    if _b.isinstance(hs, NSTR) and _b.isinstance(w, NSTR):
        return hs.endswith(w)
    return mkbool(z3.SuffixOf(parts_term(p), s.term()))


def _strip_side(s, chars, left):
    parts = list(s.parts)
    while parts:
        i = 0 if left else -1
        p = parts[i]
        if _b.isinstance(p, NSTR):
            q = (p.lstrip(chars) if left else p.rstrip(chars))
            if q:
                parts[i] = q
                break
            parts.pop(i)
            continue
        if type(p) is Num:
            if chars is not None and set(chars) & set("-0123456789"):
                raise Unsupported("strip of digits")
            break
        t = part_term(p)
        cs = chars if chars is not None else " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"
        e = eng.cur()
        if len(parts) == 1 or True:
            if e.branch(t == z3.StringVal("")):
                parts.pop(i)
                continue
            edge = z3.SubString(t, 0, 1) if left else z3.SubString(t, z3.Length(t) - 1, 1)
            cond = z3.Or(*[edge == zlit(c) for c in cs])
            if e.branch(cond):
                # result: fresh r with t = stripped run + r
                r = z3.String(e.fresh("strip"))
                run = z3.String(e.fresh("strip_run"))
                cls = z3.Plus(z3.Union(*[z3.Re(zlit(c)) for c in cs])) if len(cs) > 1 else z3.Plus(z3.Re(zlit(cs)))
                e.add(z3.InRe(run, cls))
                e.add(t == (z3.Concat(run, r) if left else z3.Concat(r, run)))
                redge = z3.SubString(r, 0, 1) if left else z3.SubString(r, z3.Length(r) - 1, 1)
                e.add(z3.Or(r == z3.StringVal(""), z3.Not(z3.Or(*[redge == zlit(c) for c in cs]))))
                if e.branch(r == z3.StringVal("")):
                    parts.pop(i)
                    continue
                parts[i] = r
            break
    return mkstr(parts)


def m_strip(s, chars=None):
    r = m_lstrip(s, chars)
    return m_rstrip(r, chars) if type.__instancecheck__(VStr, r) else r.rstrip(lower(chars))


def m_lstrip(s, chars=None):
    c = s.native()
    if c is not None:
        return c.lstrip(lower(chars))
    return _strip_side(s, lower(chars), True)


def m_rstrip(s, chars=None):
    c = s.native()
    if c is not None:
        return c.rstrip(lower(chars))
    return _strip_side(s, lower(chars), False)


def m_join(sep, it):
    out = []
    sp = str_parts(sep)
    for i, x in enumerate(it):
        p = str_parts(x)
        if p is None:
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            out.extend(sp)
        out.extend(p)
    return mkstr(out)


def m_format(s, *args, **kw):
    c = mkstr(str_parts(s))
    if not _b.isinstance(c, NSTR):
        raise Unsupported("format on a symbolic template")
    if not is_sym(args) and not is_sym(kw):
        return c.format(*[lower(a) for a in args], **{k: lower(v) for k, v in kw.items()})
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(c):
        out.append(lit)
        if field is None:
            continue
        if spec or conv not in (None, "s"):
            raise Unsupported("format spec")
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[NINT(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            raise Unsupported("format field")
        out.extend(str_parts(str_value(v)))
    return mkstr(out)


def m_encode(s, *a):
    c = s.native()
    if c is not None:
        return c.encode(*a)
    raise Unsupported("encode")


def m_simple(name):
    def f(s, *a):
        c = s.native()
        if c is None:
            raise Unsupported("str.%s on a symbolic string" % name)
        return getattr(c, name)(*[lower(x) for x in a])

    return f


STR_METHODS = {
    "split": m_split, "replace": m_replace, "startswith": m_startswith, "endswith": m_endswith,
    "strip": m_strip, "lstrip": m_lstrip, "rstrip": m_rstrip, "join": m_join, "format": m_format, "encode": m_encode,
}


def str_getitem(s, k):
    c = s.native()
    if _b.isinstance(k, slice):
        lo, hi, st = lower(k.start), lower(k.stop), lower(k.step)
        if c is not None:
            return c[lo:hi:st]
        if st not in (None, 1):
            raise Unsupported("string slice step")
        # slices that stay inside literal edges
        t = s.term()
        n = z3.Length(t)
        if (lo is None or lo >= 0) and (hi is None or hi < 0):
            a = lo or 0
            b = -hi if hi else 0
            parts = list(s.parts)
            first, last = parts[0], parts[-1]
            if (a == 0 or (_b.isinstance(first, NSTR) and len(first) >= a)) and (
                b == 0 or (_b.isinstance(last, NSTR) and len(last) >= b)
            ):
                if a:
                    parts[0] = parts[0][a:]
                if b:
                    parts[-1] = parts[-1][:-b]
                return mkstr(parts)
            ln = n - a - b
            return mkstr([z3.If(ln > 0, z3.SubString(t, a, ln), z3.StringVal(""))])
        if (lo is None or lo >= 0) and hi is not None and hi >= 0:
            a = lo or 0
            return mkstr([z3.SubString(t, a, max(hi - a, 0))])
        if lo is not None and lo < 0 and hi is None:
            return mkstr([z3.If(n >= -lo, z3.SubString(t, n + lo, -lo), t)])
        raise Unsupported("string slice")
    i = concrete_int(k)
    if i is None:
        raise Unsupported("symbolic string index")
    if c is not None:
        return c[i]
    parts = s.parts
    if i >= 0 and _b.isinstance(parts[0], NSTR) and i < len(parts[0]):
        return parts[0][i]
    if i < 0 and _b.isinstance(parts[-1], NSTR) and -i <= len(parts[-1]):
        return parts[-1][i]
    t = s.term()
    e = eng.cur()
    need = i + 1 if i >= 0 else -i
    if e.branch(z3.Length(t) < need):
        raise IndexError("string index out of range")
    return mkstr([z3.SubString(t, i if i >= 0 else z3.Length(t) + i, 1)])


def ropefmt(fmt, *args):
    """'{}..{}'-style rope builder for harnesses"""
    bits = fmt.split("{}")
    out = [bits[0]]
    for b, a in zip(bits[1:], args):
        v = a
        if not _b.isinstance(v, NSTR) and not type.__instancecheck__(VStr, v):
            v = numeral(v)
        out.extend(str_parts(v))
        out.append(b)
    return mkstr(out)


# ---------------------------------------------------------------------------
# bytes
class VBytes(metaclass=VMeta):
    __module__ = "builtins"

    def __new__(cls, *args, **kwargs):
        if cls is VBytes and len(args) == 1 and _b.isinstance(args[0], z3.SeqRef):
            o = object.__new__(cls)
            o._v = args[0]
            return o
        x = args[0] if args else b""
        if type.__instancecheck__(VBytes, x):
            v = x._v
        else:
            if is_sym(x):
                if type.__instancecheck__(VStr, x):
                    if len(args) < 2:
                        raise TypeError("string argument without an encoding")
                    raise Unsupported("bytes(symbolic str)")
                raise Unsupported("bytes(symbolic)")
            v = NBYTES(*[lower(a) for a in args], **kwargs)
        if cls is VBytes:
            if _b.isinstance(v, NBYTES):
                return v
            o = object.__new__(VBytes)
            o._v = v
            return o
        o = object.__new__(cls)
        o._v = v
        return o

    def native(self):
        return self._v if _b.isinstance(self._v, NBYTES) else None

    def term(self):
        return zlit(self._v.decode("latin-1")) if _b.isinstance(self._v, NBYTES) else self._v

    def __eq__(self, o):
        if type.__instancecheck__(VBytes, o):
            ot = o.term()
            if self.native() is not None and o.native() is not None:
                return self._v == o._v
            return mkbool(self.term() == ot)
        if _b.isinstance(o, NBYTES):
            if self.native() is not None:
                return self._v == o
            return mkbool(self.term() == zlit(o.decode("latin-1")))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vnot(r)

    def __hash__(self):
        if self.native() is None:
            raise Unsupported("hash of symbolic bytes")
        return hash(self._v)

    def __bool__(self):
        c = self.native()
        return bool(c) if c is not None else bool(mkbool(z3.Length(self._v) > 0))

    def vlen(self):
        c = self.native()
        return len(c) if c is not None else mkint(z3.Length(self._v))

    def __len__(self):
        c = self.native()
        if c is None:
            raise Unsupported("len of symbolic bytes from C")
        return len(c)

    def __repr__(self):
        c = self.native()
        return repr(c) if c is not None else opaque("bytes")

    def __str__(self):
        return self.__repr__()

    def decode(self, *a, **k):
        c = self.native()
        if c is None:
            raise Unsupported("decode of symbolic bytes")
        return c.decode(*a, **k)

    def __bytes__(self):
        c = self.native()
        if c is None:
            raise Unsupported("bytes from C")
        return c


def str_of_bytes(x, args, kw):
    v = x._v
    if _b.isinstance(v, z3.SeqRef) and getattr(x, "_b64", None) is not None:
        return VStr([B64(x._b64)])
    if "replace" in list(args) + list(kw.values()):
        return opaque("text-of-bytes")
    raise Unsupported("str(symbolic bytes, encoding)")


def b64encode(x, *a):
    if not is_sym(x):
        return _base64.b64encode(lower(x), *a)
    if not type.__instancecheck__(VBytes, x):
        raise Unsupported("b64encode")
    o = object.__new__(VBytes)
    eng.cur().assumption("base64: b64decode(b64encode(x)) == x and b64encode is injective (stdlib, trusted)")
    o._v = B64(x.term()).z()
    o._b64 = x.term()
    return o


def b64decode(x, *a, **k):
    if not is_sym(x):
        return _base64.b64decode(lower(x), *a, **k)
    p = str_parts(x)
    if p is not None and len(p) == 1 and type(p[0]) is B64:
        return VBytes(p[0].t)
    if type.__instancecheck__(VBytes, x) and getattr(x, "_b64", None) is not None:
        return VBytes(x._b64)
    raise Unsupported("b64decode of a symbolic string")


# ---------------------------------------------------------------------------
# decimals and floats
class VFloat:
    """float(x) for a symbolic exact real x that is representable (|int| <= 2**53)"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _c(op):
        def f(self, o):
            b = real_term(o)
            if b is None:
                return NotImplemented
            return mkbool(op(self.t, b))

        return f

    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = (
        _c(operator.lt), _c(operator.le), _c(operator.gt), _c(operator.ge), _c(operator.eq), _c(operator.ne),
    )

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __bool__(self):
        return bool(mkbool(self.t != 0))


class VFloatOf:
    """float(d): the double nearest to the exact real d (kept uninterpreted)"""

    def __init__(self, src):
        self.src = src

    def __eq__(self, o):
        if type(o) is VFloatOf:
            return mkbool(self.src == o.src)
        return NotImplemented

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")


class VFloatType(metaclass=VMeta):
    def __new__(cls, x=0.0):
        if type(x) is VFloat or type(x) is VFloatOf:
            return x
        if not is_sym(x):
            return NFLOAT(lower(x))
        t = int_term(x)
        if t is not None:
            e = eng.cur()
            if e.branch(z3.And(t <= 2 ** 53, t >= -(2 ** 53))):
                return VFloat(z3.ToReal(t))
            raise Unsupported("float() of an integer beyond 2**53")
        if type.__instancecheck__(VDecimal, x):
            return VFloatOf(real_term(x))
        raise Unsupported("float(symbolic %s)" % type(x).__name__)


def mkdec(t, fd=None, n=None):
    o = object.__new__(VDecimal)
    o._v = t
    o._fd = fd
    o._n = n
    return o


def mkdec_scaled(n, scale):
    return mkdec(z3.ToReal(n) / z3.RealVal(10 ** scale), scale, n)


def _dcmp(op):
    def f(self, o):
        if _b.isinstance(self._v, NDEC) and not is_sym(o):
            return op(self._v, lower(o))
        b = real_term(o)
        if b is None:
            return NotImplemented
        return mkbool(op(real_term(self), b))

    return f


def _darith(op, swap=False):
    def f(self, o):
        if _b.isinstance(self._v, NDEC) and not is_sym(o):
            a, b = self._v, lower(o)
            return op(b, a) if swap else op(a, b)
        b = real_term(o)
        if b is None or _b.isinstance(o, NFLOAT):
            return NotImplemented
        raise Unsupported("decimal arithmetic on symbolic operands (context rounding)")

    return f


class VDecimal(metaclass=VMeta):
    __module__ = "decimal"

    def __new__(cls, *args, **kwargs):
        x = args[0] if args else kwargs.get("value", "0")
        fd = n = None
        if type.__instancecheck__(VDecimal, x):
            v, fd, n = x._v, getattr(x, "_fd", None), getattr(x, "_n", None)
        elif not is_sym(x):
            v = NDEC(lower(x))
        else:
            t = int_term(x)
            if t is not None:
                v, fd, n = z3.ToReal(t), 0, t
            elif type.__instancecheck__(VStr, x):
                p = x.parts
                if len(p) == 1 and type(p[0]) is Num:
                    v, fd, n = z3.ToReal(p[0].t), 0, p[0].t
                elif len(p) == 1 and type(p[0]) is DecText:
                    v, fd, n = p[0].value(), p[0].fd, p[0].n
                else:
                    raise Unsupported("Decimal(symbolic string)")
            else:
                raise TypeError("conversion from %s to Decimal is not supported" % type(x).__name__)
        if cls is VDecimal:
            if _b.isinstance(v, NDEC):
                return v
            return mkdec(v, fd, n)
        o = object.__new__(cls)
        o._v, o._fd, o._n = v, fd, n
        return o

    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = (
        _dcmp(operator.lt), _dcmp(operator.le), _dcmp(operator.gt), _dcmp(operator.ge), _dcmp(operator.eq), _dcmp(operator.ne),
    )
    __add__, __radd__, __sub__, __rsub__, __mul__, __rmul__ = (
        _darith(operator.add), _darith(operator.add, True), _darith(operator.sub), _darith(operator.sub, True),
        _darith(operator.mul), _darith(operator.mul, True),
    )

    def __hash__(self):
        if _b.isinstance(self._v, NDEC):
            return hash(self._v)
        raise Unsupported("hash of a symbolic Decimal")

    def __bool__(self):
        if _b.isinstance(self._v, NDEC):
            return bool(self._v)
        return bool(mkbool(self._v != 0))

    def quantize(self, exp, *a, **k):
        exp = lower(exp)
        if _b.isinstance(self._v, NDEC):
            return self._v.quantize(exp, *a, **k)
        if a or k:
            raise Unsupported("quantize with rounding argument")
        fd = -exp.as_tuple().exponent
        e = eng.cur()
        x = self._v
        n = z3.Int(e.fresh("quant"))
        xs = x * z3.RealVal(Fraction(10) ** fd)
        d = xs - z3.ToReal(n)
        e.add(z3.And(d <= z3.RealVal("1/2"), d >= z3.RealVal("-1/2")))
        e.add(z3.Implies(z3.Or(d == z3.RealVal("1/2"), d == z3.RealVal("-1/2")), n % 2 == 0))
        if e.branch(z3.Or(n >= 10 ** 28, n <= -(10 ** 28))):
            raise _decimal.InvalidOperation([_decimal.InvalidOperation])
        return mkdec(z3.ToReal(n) / z3.RealVal(Fraction(10) ** fd), fd, n)

    def is_finite(self):
        return self._v.is_finite() if _b.isinstance(self._v, NDEC) else True

    def is_nan(self):
        return self._v.is_nan() if _b.isinstance(self._v, NDEC) else False

    def as_tuple(self):
        if _b.isinstance(self._v, NDEC):
            return self._v.as_tuple()
        raise Unsupported("as_tuple of a symbolic Decimal")

    def __float__(self):
        if _b.isinstance(self._v, NDEC):
            return NFLOAT(self._v)
        raise Unsupported("float(symbolic Decimal) from C")

    def __repr__(self):
        if _b.isinstance(self._v, NDEC):
            return repr(self._v)
        return opaque("decimal")

    def __str__(self):
        if _b.isinstance(self._v, NDEC):
            return NSTR(self._v)
        fd = getattr(self, "_fd", None)
        if fd is not None:
            # str() uses an exponent below 1e-6
            if fd <= 6 or eng.cur().branch(z3.Or(self._n >= 10 ** (fd - 6), self._n <= -(10 ** (fd - 6)))):
                return VStr([DecText(self._n, fd)])
            return opaque("decimal-with-exponent")
        return opaque("decimal")

    def __format__(self, spec):
        if _b.isinstance(self._v, NDEC):
            return format(self._v, spec)
        if spec == "f" and getattr(self, "_fd", None) is not None:
            return VStr([DecText(self._n, self._fd)])
        raise Unsupported("format of a symbolic Decimal")

    def __deepcopy__(self, memo):
        return self


class DecText:
    """text of the decimal n * 10**-fd with exactly fd fraction digits"""

    __slots__ = ("n", "fd")
    fns = {}

    def __init__(self, n, fd):
        self.n, self.fd = n, fd

    def value(self):
        return z3.ToReal(self.n) / z3.RealVal(Fraction(10) ** self.fd)

    def z(self):
        f = DecText.fns.get(self.fd)
        if f is None:
            f = DecText.fns[self.fd] = z3.Function("dectext%d" % self.fd, z3.IntSort(), z3.StringSort())
        return f(self.n)


_old_part_term = part_term


def part_term(p):  # noqa: F811
    if type(p) is DecText:
        return p.z()
    return _old_part_term(p)


# ---------------------------------------------------------------------------
# dictionaries
class Tomb:
    pass


TOMB = Tomb()


class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __iter__(self):
        return self.d._iter(self.kind)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.kind == "k":
            return x in self.d
        return any(bool(y == x) for y in self)

    def __reversed__(self):
        return reversed(list(self))

    def __eq__(self, o):
        return list(self) == list(o)

    def __repr__(self):
        return "%s(%r)" % (self.kind, list(self))


class VDict(metaclass=VMeta):
    """insertion-ordered dictionary with (possibly) symbolic keys, optionally on
    top of an arbitrary base map (inbase: key -> bool, value: key -> object)."""

    __module__ = "builtins"
    RT = "dictionary changed size during iteration"

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o._ents = []
        o._base = None
        o._ver = 0
        return o

    def __init__(self, *args, **kw):
        if args:
            self.update(args[0])
        if kw:
            self.update(kw)

    # -- lookup
    def _find(self, k):
        """index in _ents of the entry whose key equals k, or None (branches)"""
        for i, (kk, v) in enumerate(self._ents):
            if keq(kk, k):
                return i
        return None

    def _lookup(self, k):
        i = self._find(k)
        if i is not None:
            v = self._ents[i][1]
            return (v is not TOMB), v
        if self._base is not None and self._base.has(k):
            v = self._base.value(k)
            self._ents.append((k, v))  # materialised (already present in the base)
            self._base.mat.append(k)
            return True, v
        return False, None

    def __contains__(self, k):
        check_hashable(k)
        return self._lookup(k)[0]

    def __getitem__(self, k):
        check_hashable(k)
        ok, v = self._lookup(k)
        if not ok:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        check_hashable(k)
        ok, v = self._lookup(k)
        return v if ok else default

    def __setitem__(self, k, v):
        check_hashable(k)
        i = self._find(k)
        if i is None and self._base is not None and self._base.has(k):
            self._base.value(k)
            self._ents.append((k, v))
            self._base.mat.append(k)
            self._base.log.append(("replace", k, v))
            return
        if i is not None and self._ents[i][1] is not TOMB:
            self._ents[i] = (self._ents[i][0], v)
            if self._base is not None:
                self._base.log.append(("replace", k, v))
            return
        if i is not None:
            del self._ents[i]
        self._ver += 1
        self._ents.append((k, v))
        if self._base is not None:
            self._base.log.append(("append", k, v))

    def __delitem__(self, k):
        check_hashable(k)
        ok, _ = self._lookup(k)
        if not ok:
            raise KeyError(k)
        i = self._find(k)
        self._ver += 1
        if self._base is not None:
            self._ents[i] = (self._ents[i][0], TOMB)
            self._base.log.append(("delete", k, None))
        else:
            del self._ents[i]

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, o=(), **kw):
        if _b.isinstance(o, (NDICT,)) or type.__instancecheck__(VDict, o):
            for k in list(o.keys()):
                self[k] = o[k]
        elif hasattr(o, "keys"):
            for k in list(o.keys()):
                self[k] = o[k]
        else:
            for k, v in o:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        if self._base is not None:
            raise Unsupported("clear() of an arbitrary map")
        self._ents = []
        self._ver += 1

    def copy(self):
        r = type(self)()
        r._ents = list(self._ents)
        if self._base is not None:
            raise Unsupported("copy() of an arbitrary map")
        return r

    def move_to_end(self, k, last=True):
        if self._base is not None:
            raise Unsupported("move_to_end on an arbitrary map")
        v = self[k]
        i = self._find(k)
        e = self._ents.pop(i)
        if last:
            self._ents.append(e)
        else:
            self._ents.insert(0, e)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = type(self)()
        r._ents = [(k, _copy.deepcopy(v, memo)) for k, v in self._ents]
        return r

    def _iter(self, kind):
        if self._base is not None:
            raise Unsupported("iteration over an arbitrary map")
        ver = self._ver
        n = 0
        while True:
            if self._ver != ver:
                raise RuntimeError(self.RT)
            if n >= len(self._ents):
                return
            k, v = self._ents[n]
            n += 1
            yield k if kind == "k" else v if kind == "v" else (k, v)

    def __iter__(self):
        return self._iter("k")

    def keys(self):
        return DictView(self, "k")

    def values(self):
        return DictView(self, "v")

    def items(self):
        return DictView(self, "i")

    def __len__(self):
        if self._base is not None:
            raise Unsupported("len() of an arbitrary map from C code")
        return len(self._ents)

    def vlen(self):
        if self._base is None:
            return len(self._ents)
        n = self._base.size
        for what, k, v in self._base.log:
            if what == "append":
                n = n + 1
            elif what == "delete":
                n = n - 1
        return mkint(n)

    def __bool__(self):
        if self._base is None:
            return bool(self._ents)
        return bool(self.vlen() > 0)

    def __eq__(self, o):
        if self is o:
            return True
        if _b.isinstance(o, NDICT) or type.__instancecheck__(VDict, o):
            if self._base is not None:
                raise Unsupported("comparison of an arbitrary map")
            if len(self) != len(o):
                return False
            for k in self._ents:
                if not (k[0] in o) or not (o[k[0]] == k[1]):
                    return False
            return True
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        if self._base is None and not is_sym(self):
            return repr(NDICT(self._ents))
        return opaque("dict")

    def __str__(self):
        return self.__repr__()

    def __reversed__(self):
        return reversed(list(self))


class VODict(VDict):
    __module__ = "collections"
    RT = "OrderedDict mutated during iteration"


class ArbMap:
    """the arbitrary pre-state of a dictionary: has() is an uninterpreted
    predicate on keys, value(k) a fresh object per (provably distinct) key"""

    def __init__(self, name, make):
        self.name = name
        self.make = make
        self.pi = z3.Function(name + "_hasInt", z3.IntSort(), z3.BoolSort())
        self.ps = z3.Function(name + "_hasStr", z3.StringSort(), z3.BoolSort())
        self.size = z3.Int(name + "_size")
        self.mat = []
        self.log = []
        e = eng.cur()
        e.add(self.size >= 0)

    def has_expr(self, k):
        t = int_term(k)
        if t is not None:
            return self.pi(t)
        p = str_parts(k)
        if p is not None:
            if len(norm_parts(p)) == 1 and type(p[0]) is Num:
                # numerals keep their own index so that no string reasoning is needed
                return z3.Function(self.name + "_hasNum", z3.IntSort(), z3.BoolSort())(p[0].t)
            return self.ps(parts_term(p))
        if k is None:
            return z3.BoolVal(False)
        raise Unsupported("key of type %s in an arbitrary map" % type(k).__name__)

    def has(self, k):
        e = eng.cur()
        r = e.branch(self.has_expr(k))
        if r:
            e.add(self.size >= 1)
        return r

    def value(self, k):
        return self.make(k)


def keq(a, b):
    if a is b:
        return True
    r = a == b
    return bool(r)


def check_hashable(k):
    if _b.isinstance(k, (list, NDICT)) or type.__instancecheck__(VDict, k):
        raise TypeError("unhashable type: '%s'" % type(k).__name__)
    if type(k).__hash__ is None:
        raise TypeError("unhashable type: '%s'" % type(k).__name__)


VMeta._natives = {
    VInt: (NINT,), VStr: (NSTR,), VBytes: (NBYTES,), VDecimal: (NDEC,), VDict: (NDICT,), VODict: (NOD,), VFloatType: (NFLOAT,),
}


class VBoolType(metaclass=VMeta):
    def __new__(cls, x=False):
        return vbool(x)


VMeta._natives[VBoolType] = (NBOOL,)
for _cls, _n in ((VInt, "int"), (VStr, "str"), (VBytes, "bytes"), (VDecimal, "Decimal"), (VDict, "dict"), (VODict, "OrderedDict"), (VBoolType, "bool"), (VFloatType, "float")):
    _cls.__name__ = _n
    _cls.__qualname__ = _n
VBoolType.__module__ = "builtins"
VFloatType.__module__ = "builtins"


def vbool(x):
    if type(x) is VBool:
        return x
    if type.__instancecheck__(VInt, x) and concrete_int(x) is None and type(x).__bool__ is VInt.__bool__:
        return mkbool(x._v != 0)
    return NBOOL(x)


# ---------------------------------------------------------------------------
# symbolic?  lowering
def is_sym(x, depth=4):
    t = type(x)
    if t in (NINT, NSTR, NBOOL, NFLOAT, type(None), NBYTES):
        return False
    if t is VBool or t is VFloat or t is VFloatOf:
        return True
    if _b.isinstance(x, type):
        return False
    if type.__instancecheck__(VInt, x):
        return not _b.isinstance(x._v, NINT)
    if type.__instancecheck__(VStr, x):
        return x.native() is None
    if type.__instancecheck__(VBytes, x):
        return x.native() is None
    if type.__instancecheck__(VDecimal, x):
        return not _b.isinstance(x._v, NDEC)
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(is_sym(y, depth - 1) for y in x)
    if _b.isinstance(x, NDICT):
        return any(is_sym(k, depth - 1) or is_sym(v, depth - 1) for k, v in x.items())
    if type.__instancecheck__(VDict, x):
        return x._base is not None or any(is_sym(k, depth - 1) or is_sym(v, depth - 1) for k, v in x._ents)
    if _b.isinstance(x, BaseException):
        return any(is_sym(y, depth - 1) for y in x.args)
    return False


def lower(x):
    """native value of a concrete model object (others unchanged)"""
    if _b.isinstance(x, type):
        return x
    if type.__instancecheck__(VInt, x) and _b.isinstance(x._v, NINT):
        return x._v
    if type.__instancecheck__(VStr, x):
        c = x.native()
        return x if c is None else c
    if type.__instancecheck__(VBytes, x):
        c = x.native()
        return x if c is None else c
    if type.__instancecheck__(VDecimal, x) and _b.isinstance(x._v, NDEC):
        return x._v
    if type(x) is list:
        return [lower(y) for y in x]
    if type(x) is tuple:
        return tuple(lower(y) for y in x)
    if type.__instancecheck__(VDict, x):
        return (NOD if _b.isinstance(x, VODict) else NDICT)((lower(k), lower(v)) for k, v in x._ents)
    if type(x) is NDICT:
        return {lower(k): lower(v) for k, v in x.items()}
    return x


# ---------------------------------------------------------------------------
# regular expressions
class Z3Re:
    """translation of a pattern to a z3 regular expression; anchors by continuation"""

    def __init__(self, pattern):
        self.ascii_only = False
        try:
            self.tree = _re_parser.parse(pattern)
        except Exception as e:
            raise Unsupported("pattern not parsed: %s" % e)

    def cls(self, items):
        neg = False
        rs = []
        for op, av in items:
            op = str(op)
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                rs.append(z3.Re(zlit(chr(av))))
            elif op == "RANGE":
                rs.append(z3.Range(zlit(chr(av[0])), zlit(chr(min(av[1], 0x2FFFF)))))
            elif op == "CATEGORY":
                rs.append(self.category(str(av)))
            else:
                raise Unsupported("regex class item %s" % op)
        r = z3.Union(*rs) if len(rs) > 1 else rs[0]
        if neg:
            r = z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r))
        return r

    def category(self, c):
        self.ascii_only = True
        d = z3.Range("0", "9")
        w = z3.Union(d, z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"))
        s = z3.Union(*[z3.Re(zlit(x)) for x in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"])
        m = {"CATEGORY_DIGIT": d, "CATEGORY_WORD": w, "CATEGORY_SPACE": s}
        if c in m:
            return m[c]
        neg = {"CATEGORY_NOT_DIGIT": d, "CATEGORY_NOT_WORD": w, "CATEGORY_NOT_SPACE": s}
        if c in neg:
            return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(neg[c]))
        raise Unsupported("regex category %s" % c)

    EPS = z3.Re("")

    def seq(self, ops, k, start):
        """language of strings that match ops and then continue in k"""
        for op, av in reversed(list(enumerate_ops(ops))):
            pass
        return self._seq(list(ops), 0, k, start)

    def _seq(self, ops, i, k, start):
        if i >= len(ops):
            return k
        op, av = ops[i]
        o = str(op)
        if o == "AT":
            a = str(av)
            rest = self._seq(ops, i + 1, k, start)
            if a in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                if start is True:
                    return rest
                raise Unsupported("anchor ^ not at the start")
            if a == "AT_END":
                return z3.Intersect(rest, z3.Option(z3.Re(zlit("\n"))))
            if a == "AT_END_STRING":
                return z3.Intersect(rest, self.EPS)
            raise Unsupported("regex anchor %s" % a)
        if o == "ASSERT_NOT" and av[0] == 1:
            rest = self._seq(ops, i + 1, k, False)
            ahead = self._seq(list(av[1]), 0, z3.Full(z3.ReSort(z3.StringSort())), False)
            return z3.Intersect(z3.Complement(ahead), rest)
        nstart = start and False
        if o == "SUBPATTERN":
            body = av[-1]
            if av[1] or av[2]:
                raise Unsupported("regex inline flags")
            if has_at(body):
                rest = self._seq(ops, i + 1, k, False)
                return self._seq(list(body), 0, rest, start)
            rest = self._seq(ops, i + 1, k, False)
            return z3.Concat(self.plain(body), rest)
        if o == "BRANCH":
            alts = av[1]
            rest = self._seq(ops, i + 1, k, False)
            rs = [self._seq(list(b), 0, rest, start) for b in alts]
            return z3.Union(*rs) if len(rs) > 1 else rs[0]
        rest = self._seq(ops, i + 1, k, start if nullable_at_only(op, av) else False)
        return z3.Concat(self.one(op, av), rest)

    def plain(self, ops):
        rs = []
        for op, av in ops:
            rs.append(self.one(op, av))
        if not rs:
            return self.EPS
        return z3.Concat(*rs) if len(rs) > 1 else rs[0]

    def one(self, op, av):
        o = str(op)
        if o == "LITERAL":
            return z3.Re(zlit(chr(av)))
        if o == "NOT_LITERAL":
            return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(z3.Re(zlit(chr(av)))))
        if o == "ANY":
            return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(z3.Re(zlit("\n"))))
        if o == "IN":
            return self.cls(av)
        if o == "BRANCH":
            rs = [self.plain(b) for b in av[1]]
            return z3.Union(*rs) if len(rs) > 1 else rs[0]
        if o == "SUBPATTERN":
            if av[1] or av[2]:
                raise Unsupported("regex inline flags")
            return self.plain(av[-1])
        if o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = av
            b = self.plain(body)
            if str(hi) == "MAXREPEAT":
                if lo == 0:
                    return z3.Star(b)
                if lo == 1:
                    return z3.Plus(b)
                return z3.Concat(z3.Loop(b, lo, lo), z3.Star(b))
            if lo == 0 and hi == 1:
                return z3.Option(b)
            if hi == 0:
                return self.EPS
            return z3.Loop(b, lo, hi)
        raise Unsupported("regex construct %s" % o)

    def match(self):
        full = z3.Full(z3.ReSort(z3.StringSort()))
        return self._seq(list(self.tree), 0, full, True)

    def fullmatch(self):
        return self._seq(list(self.tree), 0, self.EPS, True)


def enumerate_ops(ops):
    return [(str(o), a) for o, a in ops]


def nullable_at_only(op, av):
    return False


def has_at(ops):
    for op, av in ops:
        o = str(op)
        if o == "AT":
            return True
        if o == "SUBPATTERN" and has_at(av[-1]):
            return True
        if o == "BRANCH" and any(has_at(b) for b in av[1]):
            return True
        if o in ("MAX_REPEAT", "MIN_REPEAT") and has_at(av[2]):
            raise Unsupported("anchor inside a repeat")
    return False


_zre_cache = {}


def zre(pattern, kind):
    k = (pattern, kind)
    if k not in _zre_cache:
        z = Z3Re(pattern)
        r = z.match() if kind == "match" else z.fullmatch()
        _zre_cache[k] = (r, z.ascii_only)
    return _zre_cache[k]


SAMPLES = ([1, 7, 3, 5], [20, 45, 31, 62], [900007, 810009, 750003, 666001])


def _sample(parts, row):
    """(text, [(start, end, part)]) with numerals replaced by sample digits"""
    out, spans = "", []
    j = 0
    for p in parts:
        if _b.isinstance(p, NSTR):
            out += p
        else:
            neg = p[1]
            s = ("-" if neg else "") + NSTR(row[j % len(row)] + j)
            spans.append((len(out), len(out) + len(s), p[0], s))
            out += s
            j += 1
    return out, spans


def _sign_split(s):
    e = eng.cur()
    parts = []
    for p in s.parts:
        if _b.isinstance(p, NSTR):
            parts.append(p)
        elif type(p) is Num:
            parts.append((p, e.branch(p.t < 0)))
        else:
            return None
    return parts


def _absorb(text, spans):
    """rope for an output text in which every sample numeral stands for its part"""
    uniq = {s[3]: s[2] for s in spans}
    keys = sorted(uniq, key=len, reverse=True)
    if not keys:
        return [text]
    rx = re.compile(r"(?<![0-9-])(%s)(?![0-9])" % "|".join(re.escape(k) for k in keys))
    rx2 = re.compile("(%s)" % "|".join(re.escape(k) for k in keys))
    out = []
    pos = 0
    for m in rx2.finditer(text):
        if not rx.match(text, m.start()):
            return None
        out.append(text[pos:m.start()])
        out.append(uniq[m.group(0)])
        pos = m.end()
    out.append(text[pos:])
    return [p for p in out if p != ""]


def _same(a, b):
    return a is not None and b is not None and len(a) == len(b) and all(
        (x is y) or (_b.isinstance(x, NSTR) and x == y) for x, y in zip(a, b)
    )


class SMatch:
    def __init__(self, groups=None):
        self.g = groups

    def __bool__(self):
        return True

    def group(self, *ks):
        if self.g is None:
            raise Unsupported("groups of a symbolic match")
        if not ks:
            ks = (0,)
        r = tuple(self.g[k] for k in ks)
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        if self.g is None:
            raise Unsupported("groups of a symbolic match")
        n = max([k for k in self.g if _b.isinstance(k, NINT)])
        return tuple(self.g[i] if self.g[i] is not None else default for i in range(1, n + 1))

    def groupdict(self, default=None):
        if self.g is None:
            raise Unsupported("groups of a symbolic match")
        return {k: v for k, v in self.g.items() if _b.isinstance(k, NSTR)}

    def __getattr__(self, n):
        raise Unsupported("match.%s on a symbolic string" % n)


class VPattern:
    def __init__(self, native):
        self.p = native
        self.pattern = native.pattern

    def _bool(self, s, kind):
        e = eng.cur()
        r, asc = zre(self.pattern, kind)
        t = s.term()
        if asc:
            e.assumption("regular expressions using \\d \\w \\s: strings restricted to ASCII")
            e.add(z3.InRe(t, z3.Star(z3.Range("\x00", "\x7f"))))
        return SMatch() if e.branch(z3.InRe(t, r)) else None

    def _m(self, s, kind):
        if not _b.isinstance(s, NSTR) and not type.__instancecheck__(VStr, s):
            return getattr(self.p, kind)(lower(s))
        c = mkstr(str_parts(s))
        if _b.isinstance(c, NSTR):
            return getattr(self.p, kind)(c)
        if kind in ("match", "fullmatch") and all(_b.isinstance(p, NSTR) or type(p) is Num for p in c.parts):
            parts = _sign_split(c)
            res = []
            for row in SAMPLES:
                text, spans = _sample(parts, row)
                m = getattr(self.p, kind)(text)
                if m is None:
                    res.append(None)
                else:
                    g = {i: (None if x is None else _absorb(x, spans)) for i, x in enumerate((m.group(0),) + m.groups())}
                    g.update({n: (None if x is None else _absorb(x, spans)) for n, x in m.groupdict().items()})
                    if any(x is None and m.group(i) is not None for i, x in g.items()):
                        raise Unsupported("a regex group splits a numeral")
                    res.append(g)
            for r in res[1:]:
                if (r is None) != (res[0] is None) or (
                    r is not None and not all((r[i] is None and res[0][i] is None) or _same(r[i], res[0][i]) for i in r)
                ):
                    raise Unsupported("regex not uniform in the digits of a numeral")
            eng.cur().assumption(
                "numerals inside range/length arguments: the two parsing regexes treat every numeral of the same sign alike (checked on three digit lengths per use, not proved)"
            )
            if res[0] is None:
                return None
            return SMatch({i: (None if x is None else mkstr(x)) for i, x in res[0].items()})
        if kind == "search":
            raise Unsupported("regex.search on a symbolic string")
        if any(_b.isinstance(p, NSTR) for p in c.parts):
            try:
                g = roperegex.match(self.pattern, roperegex.items_of(c.parts, part_term), kind == "fullmatch")
                return None if g is None else SMatch({i: (None if x is None else mkstr(x)) for i, x in g.items()})
            except Unsupported:
                pass
        return self._bool(c, kind)

    def match(self, s, *a):
        return self._m(s, "match")

    def fullmatch(self, s, *a):
        return self._m(s, "fullmatch")

    def search(self, s, *a):
        return self._m(s, "search")

    def sub(self, repl, s, *a):
        c = mkstr(str_parts(s))
        if _b.isinstance(c, NSTR):
            return self.p.sub(lower(repl), c, *a)
        if all(_b.isinstance(p, NSTR) or type(p) is Num for p in c.parts):
            parts = _sign_split(c)
            outs = []
            for row in SAMPLES:
                text, spans = _sample(parts, row)
                outs.append(_absorb(self.p.sub(lower(repl), text, *a), spans))
            if any(not _same(o, outs[0]) for o in outs):
                raise Unsupported("regex.sub not uniform in the digits of a numeral")
            return mkstr(outs[0])
        if not _b.isinstance(lower(repl), NSTR) or a:
            raise Unsupported("regex.sub with a function or a count")
        return mkstr(roperegex.sub(self.pattern, lower(repl), roperegex.items_of(c.parts, part_term)))

    def split(self, s, *a):
        c = mkstr(str_parts(s))
        if _b.isinstance(c, NSTR):
            return self.p.split(c, *a)
        raise Unsupported("regex.split on a symbolic string")

    def findall(self, s, *a):
        c = mkstr(str_parts(s))
        if _b.isinstance(c, NSTR):
            return self.p.findall(c, *a)
        raise Unsupported("regex.findall on a symbolic string")

    finditer = findall

    def __deepcopy__(self, memo):
        return self


def regex_shim(native):
    m = types.ModuleType(native.__name__)

    def comp(p, *a, **k):
        if type(p) is VPattern:
            return p
        if is_sym(p):
            raise Unsupported("symbolic pattern")
        if a or k:
            if any(x for x in list(a) + list(k.values())):
                raise Unsupported("regex flags")
        return VPattern(native.compile(lower(p)))

    m.compile = comp
    for n in ("match", "fullmatch", "search", "split", "findall", "finditer"):
        setattr(m, n, (lambda n: lambda p, s, *a, **k: getattr(comp(p), n)(s, *a, **k))(n))
    m.sub = lambda p, r, s, *a, **k: comp(p).sub(r, s, *a, **k)
    m.escape = lambda s: native.escape(lower(s))
    m.error = native.error
    m.__getattr__ = lambda n: getattr(native, n)
    return m


# ---------------------------------------------------------------------------
# symbolic sequences and loops
class VSeq:
    """a sequence of arbitrary length; elem(j) builds the j-th element"""

    def __init__(self, name, elem, bound=None, inv=None):
        e = eng.cur()
        self.name = name
        self.n = z3.Int(e.fresh(name + "_len"))
        e.add(self.n >= 0)
        self._elem = elem
        self.inv = inv
        self.memo = []

    def at(self, j):
        j = z3.simplify(j) if not _b.isinstance(j, NINT) else z3.IntVal(j)
        for (i, v) in self.memo:
            if z3.eq(i, j):
                return v
        v = self._elem(j)
        self.memo.append((j, v))
        return v

    def vlen(self):
        return mkint(self.n)

    def __len__(self):
        raise Unsupported("len() of a symbolic sequence from C code")

    def unrolled(self):
        e = eng.cur()
        e.bounded("sequence %s: lengths 0..%d" % (self.name, e.unroll))
        k = 0
        out = []
        while True:
            if e.branch(self.n == k):
                return out
            if k >= e.unroll:
                raise PathEnd()
            out.append(self.at(k))
            k += 1

    def __iter__(self):
        return iter(self.unrolled())

    def __getitem__(self, k):
        i = concrete_int(k)
        if i is None:
            t = int_term(k)
            e = eng.cur()
            if e.branch(z3.And(t >= 0, t < self.n)):
                return self.at(t)
            raise IndexError("list index out of range")
        e = eng.cur()
        if i >= 0:
            if e.branch(self.n > i):
                return self.at(i)
        elif e.branch(self.n >= -i):
            return self.at(self.n + i)
        raise IndexError("list index out of range")

    def __bool__(self):
        return bool(mkbool(self.n > 0))


class LoopInv:
    """invariant attached by a harness to a symbolic sequence.

    hold(i, env) -> condition over the values of the loop-carried variables;
    havoc(i, env) -> new env (dict name -> value) of arbitrary values for the
    loop-carried variables at iteration i (already satisfying / to be assumed)."""

    def __init__(self, name, hold, havoc):
        self.name, self.hold, self.havoc = name, hold, havoc


import ctypes

_l2f = ctypes.pythonapi.PyFrame_LocalsToFast
_l2f.argtypes = [ctypes.py_object, ctypes.c_int]


def set_locals(frame, env):
    loc = frame.f_locals
    loc.update(env)
    _l2f(frame, 0)


class CutLoop:
    """loop over a VSeq cut by an inductive invariant"""

    def __init__(self, seq, lid, names, targets):
        self.seq, self.lid, self.names = seq, lid, names
        self.state = 0

    def __iter__(self):
        return self

    def __next__(self):
        e = eng.cur()
        fr = sys._getframe(1)
        inv = self.seq.inv
        env = {n: fr.f_locals[n] for n in self.names if n in fr.f_locals}
        allenv = dict(fr.f_locals)
        if self.state == 0:
            # initiation
            try:
                c = inv.hold(mkint(0), allenv)
            except InvariantMismatch:
                raise
            e.prove("loop-init:" + inv.name, c)
            self.state = 1
            e.path_abstract = True
            which = e._nway(2)
            i = z3.Int(e.fresh("iter"))
            if which == 0:
                e.add(z3.And(i >= 0, i < self.seq.n))
            else:
                e.add(i == self.seq.n)
            new = inv.havoc(mkint(i), allenv)
            if set(env) - set(new):
                # loop-carried names the invariant does not speak about are poisoned
                for n in set(env) - set(new):
                    new[n] = Poison(n)
            set_locals(fr, new)
            self.i = i
            if e._check() == z3.unsat:
                raise Infeasible()
            if which == 0:
                return self.seq.at(i)
            raise StopIteration
        c = inv.hold(mkint(self.i + 1), allenv)
        e.prove("loop-step:" + inv.name, c)
        raise PathEnd()


class InvariantMismatch(Unsupported):
    pass


class Poison:
    """value of a loop-carried variable the invariant says nothing about"""

    def __init__(self, n):
        object.__setattr__(self, "n", n)

    def _u(self, *a, **k):
        raise Unsupported("variable %s is not described by the loop invariant" % self.n)

    __bool__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __add__ = __radd__ = __len__ = __iter__ = __getitem__ = __call__ = __contains__ = __str__ = __repr__ = __hash__ = _u

    def __getattr__(self, n):
        self._u()


# ---------------------------------------------------------------------------
# hooks
CONTAINER_OK = {
    list: {"append", "extend", "insert", "pop", "remove", "index", "count", "reverse", "copy", "clear", "sort", "__getitem__", "__len__", "__iter__"},
    NDICT: {"items", "keys", "values", "copy", "clear", "update"},
    NOD: {"items", "keys", "values", "copy", "clear", "update"},
    tuple: {"index", "count"},
    set: {"copy", "clear", "add", "discard", "remove", "update", "pop"},
}

_GENERIC = (zip, enumerate, reversed, iter, next, any, all, sorted, sum, min, max, map, filter, callable, id, print, hasattr, getattr, setattr, delattr, isinstance, issubclass, list, tuple, set, frozenset, vars, repr)


def vlen(x):
    f = getattr(type(x), "vlen", None)
    if f is not None:
        return f(x)
    f = getattr(type(x), "__len__", None)
    if f is None:
        raise TypeError("object of type '%s' has no len()" % type(x).__name__)
    if _b.isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def vtype(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    t = type(x)
    if t is VMeta:
        return type
    m = {NINT: VInt, NSTR: VStr, NBYTES: VBytes, NDEC: VDecimal, NDICT: VDict, NOD: VODict, NBOOL: VBoolType, VBool: VBoolType, NFLOAT: VFloatType, VFloat: VFloatType}
    return m.get(t, t)


class _TypeShim(type):
    """stands for the builtin ``type`` in instrumented code"""

    def __call__(cls, *a):
        return vtype(*a)

    def __instancecheck__(cls, x):
        return _b.isinstance(x, type)

    def __eq__(cls, o):
        return o is type or o is cls

    def __hash__(cls):
        return hash(type)


def visinstance(x, c):
    if _b.isinstance(c, tuple):
        return any(visinstance(x, k) for k in c)
    if c is VTypeShim:
        c = type
    if type(x) is Poison:
        x._u()
    return _b.isinstance(x, c)


def vsorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=bool(reverse))


def _attr_name(n):
    n = lower(n)
    if not _b.isinstance(n, NSTR):
        if type.__instancecheck__(VStr, n):
            raise Unsupported("attribute access with a symbolic name")
        raise TypeError("attribute name must be string, not '%s'" % type(n).__name__)
    return n


def vgetattr(o, n, *d):
    n = _attr_name(n)
    if _b.isinstance(o, (VBool,)) and hasattr(NBOOL, n) is False and d:
        return d[0]
    r = getattr(o, n, *d)
    return r


def vhasattr(o, n):
    n = _attr_name(n)
    # model objects carry representation attributes real builtins do not have
    if n in ("parts", "_v", "native", "term", "vlen", "e", "t", "_fd", "_n", "_ents", "_base", "_ver", "src"):
        if not any(n in k.__dict__ for k in type(o).__mro__ if k.__module__ != __name__):
            return False
    return hasattr(o, n)


def vsetattr(o, n, v):
    return setattr(o, _attr_name(n), v)


def vrange(*a):
    return range(*[_conc(x) for x in a])


def _conc(x):
    c = concrete_int(x)
    if c is None:
        raise Unsupported("range() over a symbolic bound")
    return c


def vround(*a):
    if is_sym(a):
        raise Unsupported("round of a symbolic value")
    return round(*[lower(x) for x in a])


def vint_shim():
    return VInt


def vprint(*a, **k):
    return None


def vord(c):
    if is_sym(c):
        raise Unsupported("ord")
    return ord(lower(c))


def seq_repr(x):
    """repr of a native list or tuple, whose elements may be symbolic"""
    parts = ["[" if _b.isinstance(x, list) else "("]
    for i, q in enumerate(x):
        parts += ([", "] if i else []) + str_parts(vrepr(q))
    return mkstr(parts + ["]" if _b.isinstance(x, list) else ",)" if len(x) == 1 else ")"])


def vrepr(x):
    f = type(x).__repr__
    try:
        if f in (list.__repr__, tuple.__repr__):
            return seq_repr(x)
        return f(x)
    except Unsupported:
        return opaque("repr")


def vlist(*a):
    return list(*a)


VTypeShim = _TypeShim("type", (), {})


class UUIDStub:
    n = 0

    def __init__(self):
        e = eng.CUR
        k = e.fresh("uuid") if e is not None else "uuid!%d" % UUIDStub.n
        self.s = "00000000-" + k
        if e is not None:
            e.assumption("uuid.uuid1() never returns a value already in use (stdlib, trusted)")

    def __str__(self):
        return self.s


class Hooks:
    """the __vc__ object visible to instrumented code"""

    def __init__(self, models):
        self.models = models  # id(callable) -> model

    def enter(self, q):
        e = eng.CUR
        if e is not None:
            e.functions[q] = e.functions.get(q, 0) + 1

    # -- calls
    def call(self, f, *a, **k):
        try:
            m = self.models.get(f)
        except (TypeError, Unsupported):
            m = None
        if m is not None:
            return m(*a, **k)
        t = type(f)
        if t is types.FunctionType or t is types.MethodType:
            return f(*a, **k)
        if t is types.BuiltinMethodType or t is types.MethodWrapperType:
            return self.ccall(f, getattr(f, "__self__", None), f.__name__, a, k)
        if t in (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType):
            return self.ccall(f, a[0] if a else None, f.__name__, a, k)
        if _b.isinstance(f, type):
            if f.__flags__ & (1 << 9):  # heap type: Python class
                if f.__module__ in ("builtins", "decimal", "collections") and type(f) is VMeta:
                    return f(*a, **k)
                if _b.issubclass(f, BaseException):
                    return f(*a, **k)
                return f(*a, **k)
            if _b.issubclass(f, BaseException) or f in _GENERIC or f is object:
                return f(*a, **k)
            if is_sym(a) or is_sym(k):
                raise Unsupported("C type %s called with a symbolic argument" % f.__name__)
            return f(*[lower(x) for x in a], **k)
        return f(*a, **k)

    def ccall(self, f, self_obj, name, a, k):
        # container and generic protocol functions do not look inside their operands
        if f in _GENERIC_SET:
            return f(*a, **k)
        t = type(self_obj)
        if f is object.__init__ or name in ("__init__", "__new__", "__init_subclass__") or name == "__setattr__" or name == "__getattribute__":
            return f(*a, **k)
        if name == "__str__" and _b.isinstance(self_obj, BaseException):
            return f(*a, **k)
        for ct, names in CONTAINER_OK.items():
            if _b.isinstance(self_obj, ct):
                if name in names:
                    if ct is set:
                        return f(*[pin(x) for x in a])
                    return f(*a, **k)
                if ct in (NDICT, NOD):
                    key = a[0] if a else None
                    if name in ("get", "pop", "setdefault") and a and is_sym(key):
                        kk = find_native_key(self_obj, key)
                        if kk is _MISSING:
                            if name == "setdefault":
                                raise Unsupported("setdefault with a symbolic key")
                            if name == "get":
                                return a[1] if len(a) > 1 else None
                            if len(a) > 1:
                                return a[1]
                            raise KeyError(key)
                        return f(kk, *a[1:], **k)
                    if name in ("get", "pop", "setdefault"):
                        return f(*a, **k)
        if _b.isinstance(self_obj, NSTR):
            if name == "join" and a:
                xs = list(a[0])
                if is_sym(xs):
                    return m_join(VStr([NSTR(self_obj)]), xs)
                return f([lower(x) for x in xs])
            if is_sym(a) or is_sym(k):
                m = STR_METHODS.get(name)
                if m is not None:
                    return m(VStr([NSTR(self_obj)]), *a, **k)
                raise Unsupported("str.%s with a symbolic argument" % name)
            return f(*[lower(x) for x in a], **{q: lower(v) for q, v in k.items()})
        if is_sym(a) or is_sym(k) or is_sym(self_obj):
            raise Unsupported("C function %s called with a symbolic argument" % name)
        mod = getattr(f, "__module__", None)
        return f(*[lower(x) for x in a], **{q: lower(v) for q, v in k.items()})

    # -- operators
    def contains(self, a, b):
        if type(b) is Poison:
            b._u()
        if _b.isinstance(b, NSTR) or type.__instancecheck__(VStr, b):
            if type(b).__contains__ in (NSTR.__contains__, VStr.__contains__):
                return str_contains(b if not _b.isinstance(b, NSTR) else VStr([b]), a)
        if _b.isinstance(b, NDICT) and is_sym(a):
            return find_native_key(b, a) is not _MISSING
        if _b.isinstance(b, NDICT):
            return lower(a) in b
        if _b.isinstance(b, (set, frozenset)) and is_sym(a):
            return any(keq(x, a) for x in list(b))
        return a in b

    def not_contains(self, a, b):
        return vnot(self.contains(a, b))

    def is_(self, a, b):
        if type(a) is VBool and _b.isinstance(b, NBOOL):
            return a == b
        if type(b) is VBool and _b.isinstance(a, NBOOL):
            return b == a
        a = VTYPES.get(a, a) if _b.isinstance(a, type) else a
        b = VTYPES.get(b, b) if _b.isinstance(b, type) else b
        return a is b

    def is_not(self, a, b):
        return vnot(self.is_(a, b))

    def not_(self, a):
        return vnot(a)

    def mod(self, a, b):
        return mod(a, b)

    def fstring(self, *parts):
        out = []
        for p in parts:
            if _b.isinstance(p, NSTR):
                out.append(p)
            else:
                v, conv, spec = p
                if conv == "r":
                    v = vrepr(v)
                elif spec:
                    if is_sym(v):
                        raise Unsupported("format spec")
                    v = format(lower(v), spec)
                out.extend(str_parts(str_value(v)))
        return mkstr(out)

    def mkslice(self, a, b, c):
        return slice(a, b, c)

    def getitem(self, o, k):
        if _b.isinstance(o, NDICT):
            if is_sym(k):
                kk = find_native_key(o, k)
                if kk is _MISSING:
                    raise KeyError(k)
                return o[kk]
            return o[k]
        if _b.isinstance(o, (list, tuple, NSTR)) and not _b.isinstance(k, slice):
            if is_sym(k):
                t = int_term(k)
                if t is None:
                    raise TypeError("list indices must be integers or slices, not str")
                e = eng.cur()
                n = len(o)
                for i in range(-n, n):
                    if e.branch(t == i):
                        return o[i]
                raise IndexError("list index out of range")
            return o[lower(k)] if not _b.isinstance(k, slice) else o[k]
        if _b.isinstance(k, slice):
            k = slice(lower(k.start), lower(k.stop), lower(k.step))
        return o[k]

    def setitem(self, o, k, v):
        if _b.isinstance(o, NDICT) and is_sym(k):
            kk = find_native_key(o, k)
            if kk is _MISSING:
                raise Unsupported("symbolic key stored in a native dict")
            o[kk] = v
            return
        if _b.isinstance(o, list) and is_sym(k):
            raise Unsupported("symbolic list index")
        o[k] = v

    def delitem(self, o, k):
        if _b.isinstance(o, NDICT) and is_sym(k):
            kk = find_native_key(o, k)
            if kk is _MISSING:
                raise KeyError(k)
            del o[kk]
            return
        if _b.isinstance(o, list) and is_sym(k):
            t = int_term(k)
            if t is None:
                raise TypeError("list indices must be integers or slices")
            e = eng.cur()
            n = len(o)
            for i in range(-n, n):
                if e.branch(t == i):
                    del o[i]
                    return
            raise IndexError("list assignment index out of range")
        del o[k]

    def augitem(self, o, k, v, op):
        cur = self.getitem(o, k)
        f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "BitOr": operator.or_, "BitAnd": operator.and_}.get(op)
        if f is None:
            raise Unsupported("augmented assignment " + op)
        self.setitem(o, k, f(cur, v))

    def mkdict(self, *items):
        if not items:
            return VDict()
        if all(len(i) == 2 and not is_sym(i[0]) for i in items):
            return {lower(k): v for k, v in items}
        d = VDict()
        for i in items:
            if len(i) == 3:
                d.update(i[1])
            else:
                d[i[0]] = i[1]
        return d

    def mkdict_from(self, gen):
        d = VDict()
        for k, v in gen:
            d[k] = v
        return d

    def mkset(self, *items):
        if is_sym(items):
            raise Unsupported("set display with symbolic elements")
        return {lower(i) for i in items}

    # -- loops
    def iter(self, it, lid, names, targets):
        if type(it) is VSeq:
            e = eng.cur()
            if it.inv is not None and e.use_inv:
                return CutLoop(it, lid, names, targets)
            return iter(it.unrolled())
        return iter(it)

    def compiter(self, it):
        return iter(it)

    def listcomp(self, it, f):
        if type(it) is VSeq and eng.cur().use_inv:
            return MapSeq(it, f)
        return [f(x) for x in it]


class MapSeq:
    """[f(x) for x in seq] for an arbitrary sequence: element j is f(seq[j])"""

    def __init__(self, seq, f):
        self.seq, self.f = seq, f
        self.n = seq.n

    def at(self, j):
        return self.f(self.seq.at(j))

    def vlen(self):
        return mkint(self.seq.n)

    def __iter__(self):
        return iter([self.f(x) for x in self.seq.unrolled()])

    def __len__(self):
        raise Unsupported("len of a mapped sequence from C code")

    def __bool__(self):
        return bool(mkbool(self.n > 0))


VMeta._natives_list = None


class _Missing:
    pass


_MISSING = _Missing()


def find_native_key(d, k):
    """the key of native dict d equal to symbolic k (branches)"""
    for kk in list(d.keys()):
        if type(kk) in (NSTR, NINT, NBOOL) or type.__instancecheck__(VStr, kk) or type.__instancecheck__(VInt, kk):
            r = k == kk
            if r is NotImplemented:
                continue
            if bool(r):
                return kk
    return _MISSING


def mod(a, b):
    if _b.isinstance(a, NSTR) or type.__instancecheck__(VStr, a):
        fmt = mkstr(str_parts(a))
        if not _b.isinstance(fmt, NSTR):
            raise Unsupported("symbolic format string")
        if _b.isinstance(b, NDICT) or type.__instancecheck__(VDict, b):
            if "%(" in fmt:
                if is_sym(b):
                    raise Unsupported("%(name)s with symbolic values")
                return fmt % lower(b)
        args = b if _b.isinstance(b, tuple) else (b,)
        bits = re.split(r"(%(?:[-#0 +]*\d*(?:\.\d+)?[sdrix]|%))", fmt)
        out = []
        i = 0
        for x in bits:
            if x == "%%":
                out.append("%")
            elif len(x) >= 2 and x[0] == "%" and re.fullmatch(r"%[-#0 +]*\d*(?:\.\d+)?[sdrix]", x):
                if i >= len(args):
                    raise TypeError("not enough arguments for format string")
                v = args[i]
                i += 1
                if x == "%s":
                    out.extend(str_parts(str_value(v)))
                elif x == "%r":
                    out.extend(str_parts(vrepr(v)))
                elif x in ("%d", "%i"):
                    if int_term(v) is None:
                        v = lower(v)
                        out.append(x % v)
                    else:
                        out.extend(str_parts(numeral(v)))
                else:
                    if is_sym(v):
                        raise Unsupported("format " + x)
                    out.append(x % lower(v))
            else:
                if "%" in x:
                    if is_sym(args):
                        raise Unsupported("format " + fmt)
                    return fmt % tuple(lower(v) for v in args)
                out.append(x)
        if i < len(args) and not (_b.isinstance(b, NDICT) or type.__instancecheck__(VDict, b)):
            raise TypeError("not all arguments converted during string formatting")
        return mkstr(out)
    return a % b


_GENERIC_SET = set()
for _g in _GENERIC:
    _GENERIC_SET.add(_g)

VTYPES = {NINT: VInt, NSTR: VStr, NBYTES: VBytes, NDEC: VDecimal, NDICT: VDict, NOD: VODict, NBOOL: VBoolType, NFLOAT: VFloatType}


def vformat(x, spec=""):
    """format()"""
    if not is_sym(x):
        return format(lower(x), spec)
    spec = lower(spec)
    if spec in ("", "s") and (str_parts(x) is not None or spec == ""):
        return str_value(x)
    if type.__instancecheck__(VDecimal, x):
        return VDecimal.__format__(x, spec)
    if spec == "d" and int_term(x) is not None:
        return numeral(x)
    raise Unsupported("format(symbolic %s, %r)" % (type(x).__name__, spec))


def make_hooks():
    models = {
        len: vlen, getattr: vgetattr, hasattr: vhasattr, setattr: vsetattr, isinstance: visinstance,
        range: vrange, ord: vord, round: vround, repr: vrepr, print: vprint, format: vformat,
        _base64.b64encode: b64encode, _base64.b64decode: b64decode,
        NINT: VInt, NSTR: VStr, NBYTES: VBytes, NDEC: VDecimal, NBOOL: VBoolType, NFLOAT: VFloatType,
        NDICT: VDict, NOD: VODict,
        type: vtype,
    }
    return Hooks(models)


def make_builtins(importer):
    d = dict(vars(_b))
    d.update(
        int=VInt, str=VStr, bytes=VBytes, bool=VBoolType, float=VFloatType, dict=VDict, type=VTypeShim,
        len=vlen, isinstance=visinstance, getattr=vgetattr, hasattr=vhasattr, setattr=vsetattr, range=vrange,
        repr=vrepr, print=vprint, format=vformat, __import__=importer,
    )
    return d
