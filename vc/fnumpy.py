"""Stand-in numpy / math: concrete arguments go to the real library, symbolic ones to the contracts below."""
import itertools
import math as _math
import types
from fractions import Fraction

import numpy as _np

from . import terms as t
from . import storch as S
from .engine import E
from .sym import SymBool, SymNum, P, is_sym, num, wrap, wrapb
from .terms import ONE, ZERO, Unsupported


class SArray:
    """numpy array with symbolic size or contents, backed by a tensor"""

    __array_ufunc__ = None

    def __init__(self, tensor):
        self.tensor = tensor

    shape = property(lambda s: tuple(s.tensor.shape))
    ndim = property(lambda s: s.tensor.dim())
    size = property(lambda s: s.tensor.numel())
    dtype = property(lambda s: s.tensor.dtype)
    T = property(lambda s: SArray(s.tensor.T))

    def __len__(self):
        return self.tensor.__len__()

    def to_nested(self):
        return self.tensor

    def _w(self, r):
        if isinstance(r, S.STensor):
            if r.dim() == 0:
                x = r.item()
                if isinstance(x, SymNum):
                    x.numpy = True
                return x
            return SArray(r)
        return r

    def __getitem__(self, k):
        return self._w(self.tensor[_unw(k)])

    def __setitem__(self, k, v):
        self.tensor[_unw(k)] = _unw(v)

    def sum(self, axis=None):
        return self._w(self.tensor.sum(axis) if axis is not None else self.tensor.sum())

    def astype(self, ty):
        return SArray(self.tensor.to(S._dt(ty)))

    def reshape(self, *s):
        return SArray(self.tensor.reshape(*s))

    def copy(self):
        return SArray(self.tensor.clone())

    def tolist(self):
        return self.tensor.tolist()

    def max(self):
        return self._w(self.tensor.max())

    def min(self):
        return self._w(self.tensor.min())

    def __iter__(self):
        return iter([self[i] for i in range(len(self.tensor))])


def _unw(x):
    if isinstance(x, SArray):
        return x.tensor
    if isinstance(x, tuple):
        return tuple(_unw(y) for y in x)
    if isinstance(x, _np.ndarray):
        return S.tensor(x.tolist())
    return x


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "eq", "ne", "and", "or"):
    for _r in ("", "r"):
        if _r and _n in ("lt", "le", "gt", "ge", "eq", "ne"):
            continue
        nm = f"__{_r}{_n}__"

        def f(self, o, nm=nm):
            return self._w(getattr(self.tensor, nm)(_unw(o)))

        setattr(SArray, nm, f)
SArray.__neg__ = lambda s: SArray(-s.tensor)
SArray.__hash__ = None


def symbolic(x):
    if is_sym(x) or isinstance(x, (SArray, S.STensor, S.SymList)):
        return True
    if isinstance(x, (list, tuple)):
        return any(symbolic(y) for y in x)
    return False


def exact(n, a):
    """logarithms of whole numbers stay exact"""
    return n == "log" and len(a) == 1 and isinstance(a[0], int) and a[0] > 1


def flag(x):
    if isinstance(x, SymNum):
        return SymNum(x.p, x.isint, True)
    if isinstance(x, S.STensor):
        return SArray(x)
    return x


def scal(f, tf):
    def g(x, *a, **k):
        if isinstance(x, SArray):
            return SArray(getattr(x.tensor, tf)())
        if isinstance(x, S.STensor):
            return getattr(x, tf)()
        p, i = num(x)
        return f(p, i)

    return g


SYM = {
    "ceil": scal(lambda p, i: SymNum(p if t.is_int(p) else t.ceil(p), False, True), "ceil"),
    "floor": scal(lambda p, i: SymNum(p if t.is_int(p) else t.floor(p), False, True), "floor"),
    "log": scal(lambda p, i: SymNum(t.log(p), False, True), "log"),
    "exp": scal(lambda p, i: SymNum(t.exp(p), False, True), "exp"),
    "sqrt": scal(lambda p, i: SymNum(t.sqrt(p), False, True), "sqrt"),
    "log2": scal(lambda p, i: SymNum(t.div_real(t.log(p), t.log(t.const(2))), False, True), "log2"),
    "abs": scal(lambda p, i: abs(SymNum(p, i, True)), "abs"),
    "round": scal(lambda p, i: SymNum(t.floor(t.add(p, t.const(Fraction(1, 2)))), False, True), "round"),
    "isnan": scal(lambda p, i: False, "isnan"),
    "sin": scal(lambda p, i: SymNum(t.func("sin", p), False, True), "sin"),
}


def _prod(x, axis=None):
    if isinstance(x, SArray):
        return x._w(x.tensor.prod(axis) if axis is not None else x.tensor.prod())
    r = 1
    for y in x:
        r = r * y
    return flag(r)


def _sum(x, axis=None):
    if isinstance(x, SArray):
        return x.sum(axis)
    if isinstance(x, S.STensor):
        return x.sum(axis) if axis is not None else x.sum()
    r = 0
    for y in x:
        r = r + y
    return flag(r)


def _minmax(pick):
    def f(a, b=None, *r):
        if b is None:
            return a.max() if pick else a.min()
        if isinstance(a, SArray) or isinstance(b, SArray):
            x = S.as_tensor(_unw(a))
            return SArray(x.maximum(_unw(b)) if pick else x.minimum(_unw(b)))
        p, q = num(a), num(b)
        c = t.le(q[0], p[0]) if pick else t.le(p[0], q[0])
        return flag(wrap(t.ite(c, p[0], q[0]), p[1] and q[1]))

    return f


SYM.update(
    prod=_prod, sum=_sum, maximum=_minmax(True), minimum=_minmax(False), max=_minmax(True), min=_minmax(False),
    arange=lambda *a, **k: SArray(S.arange(*a, start=k.get("start"), end=k.get("stop"), step=k.get("step", 1))) if not (k.get("stop") is not None and not a) else SArray(S.arange(start=k.get("start", 0), end=k["stop"], step=k.get("step", 1))),
    ones=lambda n, dtype=None, **k: SArray(S.ones(n, dtype=S._dt(dtype) or S.float64)),
    zeros=lambda n, dtype=None, **k: SArray(S.zeros(n, dtype=S._dt(dtype) or S.float64)),
    full=lambda n, v, dtype=None, **k: SArray(S.full(n if isinstance(n, tuple) else (n,), v, dtype=S._dt(dtype))),
    array=lambda v, dtype=None, **k: SArray(S.tensor(v, dtype=S._dt(dtype))),
    asarray=lambda v, dtype=None, **k: v if isinstance(v, SArray) else SArray(S.tensor(v, dtype=S._dt(dtype))),
    power=lambda a, b: flag(a**b), mod=lambda a, b: flag(a % b), floor_divide=lambda a, b: flag(a // b), divide=lambda a, b: flag(a / b),
    argsort=lambda a, **k: SArray(S.argsort(_unw(a))),
    cumsum=lambda a, **k: SArray(_unw(a).cumsum(0)),
    concatenate=lambda xs, axis=0: SArray(S.cat([_unw(x) for x in xs], axis)),
    clip=lambda a, lo, hi: SArray(_unw(a).clamp(lo, hi)) if isinstance(a, SArray) else _minmax(False)(_minmax(True)(a, lo), hi),
    lcm=None, gcd=None,
)


class NP(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "NINF" and not hasattr(_np, "NINF"):
            return float("-inf")  # numpy 1.26 as installed for the code under verification
        r = getattr(_np, n)
        if isinstance(r, type) or not callable(r):
            return r
        s = SYM.get(n)

        def f(*a, **k):
            if any(symbolic(x) for x in a) or any(symbolic(x) for x in k.values()) or exact(n, a):
                if s is None:
                    raise Unsupported(f"numpy.{n} on symbolic values")
                return s(*a, **k)
            return r(*a, **k)

        f.__name__ = n
        return f


class NPRandom(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported(f"numpy.random.{n}")

        return f

    def seed(self, s=None):
        E.nprng = ("npseed", s if not isinstance(s, SymNum) else s.p.id)

    def get_state(self):
        return ("npstate", E.nprng)

    def set_state(self, s):
        E.nprng = s[1]

    def shuffle(self, x):
        if isinstance(x, SArray):
            sid = E.np_advance()
            name = f"npperm@{sid}"
            lv = E.loop_atoms()
            S.declare_perm(name, x.tensor._dims[0])
            old = x.tensor.clone()
            f = old._read()
            x.tensor._write(lambda i: t.TRUE, lambda i: f((t.uf(name, "I", lv + [i[0]]),) + tuple(i[1:])))
            return
        sid = E.np_advance()
        vals = list(x.tolist() if hasattr(x, "tolist") else x)
        opts = sorted(set(itertools.permutations(vals))) if len(set(vals)) <= 2 or len(vals) <= 4 else None
        if opts is None:
            raise Unsupported("shuffle of a long concrete array")
        k = 0
        while k < len(opts) - 1:
            if E.decide(t.lift_bool(f"npshuffle@{sid}", [t.const(k)])):
                break
            k += 1
        for i, v in enumerate(opts[k]):
            x[i] = v

    def permutation(self, n):
        sid = E.np_advance()
        if isinstance(n, (int, SymNum)):
            name = f"npperm@{sid}"
            n_ = P(n)
            S.declare_perm(name, n_)
            return SArray(S.STensor.new([n_], lambda i: (t.uf(name, "I", [i[0]]), t.FALSE), S.int64))
        raise Unsupported("numpy.random.permutation of an array")


def build():
    np = NP("numpy")
    np.__path__ = []
    r = NPRandom("numpy.random")
    np.random = r
    np.__version__ = "1.26.4"
    np.nan, np.inf, np.pi = float("nan"), float("inf"), _np.pi
    return {"numpy": np, "numpy.random": r}


def build_math():
    m = types.ModuleType("math")
    for n in dir(_math):
        r = getattr(_math, n)
        if not callable(r):
            setattr(m, n, r)
            continue

        def f(*a, _r=r, _n=n, **k):
            if any(symbolic(x) for x in a) or exact(_n, a):
                s = SYM.get({"fabs": "abs"}.get(_n, _n))
                if s is None:
                    raise Unsupported(f"math.{_n} on symbolic values")
                y = s(*a, **k)
                if isinstance(y, SymNum):
                    y = SymNum(y.p, _n in ("ceil", "floor", "prod") and t.is_int(y.p), False)
                return y
            return _r(*a, **k)

        setattr(m, n, f)
    return m
