"""Symbolic Python scalars."""
from fractions import Fraction
import math as _math
from . import terms as t
from .engine import E
from .terms import T, Unsupported


class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return E.decide(self.b)

    def __and__(self, o):
        return wrapb(t.band(self.b, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrapb(t.bor(self.b, tobool(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrapb(t.bnot(self.b))

    def __eq__(self, o):
        return wrapb(t.biff(self.b, tobool(o)))

    def __ne__(self, o):
        return wrapb(t.bnot(t.biff(self.b, tobool(o))))

    def __hash__(self):
        return hash(self.b)

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def __repr__(self):
        return f"SymBool({self.b})"

    # arithmetic as 0/1
    def _n(self):
        return SymNum(t.ind(self.b), True)

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()


def wrapb(b):
    if b is t.TRUE:
        return True
    if b is t.FALSE:
        return False
    return SymBool(b)


def tobool(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return t.boolc(x)
    if isinstance(x, SymNum):
        return t.nonzero(x.p)
    if hasattr(x, "_tobool"):
        return x._tobool()
    return t.boolc(bool(x))


class SymNum:
    """Integer or real scalar with a symbolic value."""

    __slots__ = ("p", "isint", "numpy")
    ndim = 0
    shape = ()

    def __init__(self, p, isint, numpy=False):
        self.p = p
        self.isint = isint
        self.numpy = numpy

    # -- arithmetic
    def _bin(self, o, f, isint=None, rev=False):
        if hasattr(o, "_is_tensor") or type(o).__name__ in ("SArray",):
            return NotImplemented
        try:
            q, oi = num(o)
        except TypeError:
            return NotImplemented
        a, b = (q, self.p) if rev else (self.p, q)
        return wrap(f(a, b), (self.isint and oi) if isint is None else isint, self.numpy)

    def __add__(self, o):
        return self._bin(o, t.add)

    def __radd__(self, o):
        return self._bin(o, t.add, rev=True)

    def __sub__(self, o):
        return self._bin(o, t.sub)

    def __rsub__(self, o):
        return self._bin(o, t.sub, rev=True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repeated a symbolic number of times")
        return self._bin(o, t.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, t.div_real, isint=False)

    def __rtruediv__(self, o):
        return self._bin(o, t.div_real, isint=False, rev=True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: floordiv(a, b))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: floordiv(a, b), rev=True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: floormod(a, b))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: floormod(a, b), rev=True)

    def __pow__(self, o):
        q, oi = num(o)
        if t.is_const(q):
            v = t.cval(q)
            return wrap(t.power(self.p, v), self.isint and oi and v >= 0)
        if t.is_const(self.p):
            return wrap(pow_const(t.cval(self.p), q), self.isint and oi)
        raise Unsupported("symbolic exponent")

    def __rpow__(self, o):
        q, oi = num(o)
        if t.is_const(q):
            return wrap(pow_const(t.cval(q), self.p), self.isint and oi)
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return wrap(t.neg(self.p), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(t.ite(t.le(t.ZERO, self.p), self.p, t.neg(self.p)), self.isint)

    def __divmod__(self, o):
        return self // o, self % o

    # -- comparison
    def _cmp(self, o, f):
        if o is None:
            return NotImplemented
        if hasattr(o, "_is_tensor"):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return f(0.0, o)
        try:
            q, _ = num(o)
        except TypeError:
            return NotImplemented
        return None, q

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._cmp(o, lambda a, b: False)
        return r if not isinstance(r, tuple) else wrapb(t.eq(self.p, r[1]))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._cmp(o, lambda a, b: True)
        return r if not isinstance(r, tuple) else wrapb(t.bnot(t.eq(self.p, r[1])))

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return r if not isinstance(r, tuple) else wrapb(t.le(self.p, r[1]))

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return r if not isinstance(r, tuple) else wrapb(t.lt(self.p, r[1]))

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return r if not isinstance(r, tuple) else wrapb(t.le(r[1], self.p))

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return r if not isinstance(r, tuple) else wrapb(t.lt(r[1], self.p))

    def __hash__(self):
        k = self.concretise()
        return hash(self.p) if k is None else hash(k)

    def concretise(self):
        """the value of a choice among finitely many, one path per value"""
        if t.is_const(self.p):
            c = t.cval(self.p)
            return int(c) if c.denominator == 1 else None
        if all(a.op == "I" for m, _ in self.p.args for a, _ in m):
            p = self.p
            while not t.is_const(p):
                i = t.first_ind(p)
                p = t.set_ind(p, i, 1 if E.decide(i.args[0]) else 0)
            return int(t.cval(p)) if t.cval(p).denominator == 1 else None
        if len(self.p.args) != 1 or self.p.args[0][1] != 1 or len(self.p.args[0][0]) != 1:
            return None
        a, e = self.p.args[0][0][0]
        if a.op != "argmax" or e != 1 or not t.is_const(a.args[0]):
            return None
        n = int(t.cval(a.args[0]))
        for k in range(n - 1):
            if E.decide(t.eq(self.p, t.const(k))):
                return k
        return n - 1

    def __bool__(self):
        return E.decide(t.nonzero(self.p))

    def __index__(self):
        if t.is_const(self.p) and t.cval(self.p).denominator == 1:
            return int(t.cval(self.p))
        k = self.concretise()
        if k is not None:
            return k
        raise Unsupported(f"symbolic integer used where a concrete one is required: {self.p!r}"[:300])

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if t.is_const(self.p):
            return float(t.cval(self.p))
        raise Unsupported("symbolic real used where a concrete one is required")

    def __round__(self, n=None):
        return self.round()

    def __floor__(self):
        return wrap(t.floor(self.p), True)

    def __ceil__(self):
        return wrap(t.ceil(self.p), True)

    def __trunc__(self):
        return wrap(trunc(self.p), True)

    def round(self):
        return wrap(t.floor(t.add(self.p, t.const(Fraction(1, 2)))), True)

    def __format__(self, spec):
        return f"<{self.p!r}>"[:120]

    def __repr__(self):
        return f"Sym({self.p!r})"[:200]

    # numpy / torch scalar conveniences
    def item(self):
        return self

    def astype(self, ty):
        n = getattr(ty, "__name__", str(ty))
        if "int" in n:
            return wrap(trunc(self.p), True, True)
        return wrap(self.p, False, True)

    def max(self):
        return self

    def min(self):
        return self

    def is_integer(self):
        return self.isint

    def numel(self):
        return 1


def trunc(p):
    if t.is_int(p):
        return p
    f = t.floor(p)
    if t.nonneg(p):
        return f
    return t.ite(t.le(t.ZERO, p), f, t.ceil(p))


def floordiv(a, b):
    if t.is_int(a) and t.is_int(b):
        return t.idiv(a, b)
    return t.floor(t.div_real(a, b))


def floormod(a, b):
    if t.is_int(a) and t.is_int(b):
        return t.imod(a, b)
    return t.sub(a, t.mul(b, t.floor(t.div_real(a, b))))


def pow_const(base, p):
    """base**p for constant base and symbolic integer exponent"""
    if base == 1:
        return t.ONE
    key = t.uf(f"pow{base}", "I" if base.denominator == 1 else "R", [p])
    t.facts.lo[f"pow{base}"] = t.ONE
    return key


def num(x):
    """python scalar -> (poly, isint)"""
    if isinstance(x, SymNum):
        return x.p, x.isint
    if isinstance(x, SymBool):
        return t.ind(x.b), True
    if isinstance(x, bool):
        return t.const(int(x)), True
    if isinstance(x, int):
        return t.const(x), True
    if isinstance(x, float):
        return t.const(x), False
    if isinstance(x, Fraction):
        return t.const(x), False
    if isinstance(x, T):
        return x, t.is_int(x)
    m = type(x).__module__
    if m == "numpy" and hasattr(x, "item"):
        return num(x.item())
    if hasattr(x, "_scalar"):
        return x._scalar()
    raise TypeError(f"not a number: {type(x)}")


def wrap(p, isint, numpy=False):
    if t.is_const(p):
        v = t.cval(p)
        if isint and v.denominator == 1:
            return int(v)
        if not isint:
            f = float(v)
            if Fraction(repr(float(f))) == v:
                return f
    return SymNum(p, isint, numpy)


def P(x):
    return num(x)[0]


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))
