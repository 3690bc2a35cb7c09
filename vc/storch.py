"""Symbolic tensors: the assumed contracts of the torch operations used by the code under verification.

A tensor is (shape, element function).  Shapes are lists of integer polynomials over symbolic dimensions, the
element function maps index polynomials to (value term, is-NaN term).  Storage is shared between views, so that
in-place operations and aliasing behave as in torch.
"""
import contextlib
import math as _math
import operator
from fractions import Fraction
from functools import reduce

from . import terms as t
from .engine import E
from .sym import SymBool, SymNum, P, is_sym, num, tobool, trunc, wrap, wrapb
from .terms import FALSE, ONE, T, TRUE, ZERO, Unsupported, add, band, bnot, bor, const, ind, ite, mul, neg, sub


class DType:
    def __init__(self, name, fp):
        self.name = name
        self.is_floating_point = fp
        self.is_complex = False
        self.itemsize = 8 if "64" in name else 4

    def __repr__(self):
        return f"torch.{self.name}"

    def __reduce__(self):
        return self.name


float32 = DType("float32", True)
float64 = DType("float64", True)
float16 = DType("float16", True)
bfloat16 = DType("bfloat16", True)
int64 = DType("int64", False)
int32 = DType("int32", False)
int16 = DType("int16", False)
int8 = DType("int8", False)
uint8 = DType("uint8", False)
bool_ = DType("bool", False)
_default = [float32]


class Device:
    def __init__(self, s="cpu", index=None):
        self.type = str(s).split(":")[0]
        self.index = index

    def __str__(self):
        return self.type

    __repr__ = __str__

    def __eq__(self, o):
        return str(o) == self.type

    def __hash__(self):
        return hash(self.type)


CPU = Device("cpu")


class TorchError(RuntimeError):
    pass


def dimint(p):
    return wrap(p, True)


class Size(tuple):
    def numel(self):
        return dimint(t.prod([P(x) for x in self]))

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))


def flat_shape(args):
    """view(2,3), view((2,3)), view(torch.Size) -> list of scalars"""
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        return list(args[0])
    return list(args)


def pdim(x):
    if isinstance(x, STensor):
        return x._scalar()[0]
    return P(x)


def same_dim(a, b):
    if a is b:
        return True
    if t.is_const(a) and t.is_const(b):
        return False
    return E.decide(t.eq(a, b))


def known_eq(a, b):
    if a is b:
        return True
    if t.is_const(a) and t.is_const(b):
        return False
    return t.prove(t.eq(a, b))


def is_one(p):
    return p is ONE


def bcast(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = []
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                ds.append(s[j])
        cur = ONE
        for d in ds:
            if d is ONE or d is cur:
                continue
            if cur is ONE:
                cur = d
                continue
            if same_dim(cur, d):
                continue
            # sizes differ on this path: one of them must be 1
            if E.decide(t.eq(d, ONE)):
                continue
            if E.decide(t.eq(cur, ONE)):
                cur = d
                continue
            raise TorchError(f"The size of tensor a ({cur}) must match the size of tensor b ({d}) at dimension {k}")
        out.append(cur)
    return out


class Storage:
    __slots__ = ("dims", "fn", "version")

    def __init__(self, dims, fn):
        self.dims = dims
        self.fn = fn
        self.version = 0


def memo(fn):
    cache = {}

    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = fn(idx)
            cache[idx] = r
        return r

    return g


# ------------------------------------------------------------------ view steps
class VSelect:
    def __init__(self, dim, i):
        self.dim, self.i = dim, i

    def fwd(self, idx):
        return idx[: self.dim] + (self.i,) + idx[self.dim :]

    def inv(self, b):
        return t.eq(b[self.dim], self.i), b[: self.dim] + b[self.dim + 1 :]


class VSlice:
    def __init__(self, dim, start, step, size):
        self.dim, self.start, self.step, self.size = dim, start, step, size

    def fwd(self, idx):
        d = self.dim
        return idx[:d] + (add(self.start, mul(idx[d], self.step)),) + idx[d + 1 :]

    def inv(self, b):
        d = self.dim
        off = sub(b[d], self.start)
        if self.step is ONE:
            q, c = off, TRUE
        else:
            q = t.idiv(off, self.step)
            c = t.eq(mul(q, self.step), off)
        return band(c, t.le(ZERO, q), t.lt(q, self.size)), b[:d] + (q,) + b[d + 1 :]


class VPerm:
    def __init__(self, perm):  # view dim k is base dim perm[k]
        self.perm = perm

    def fwd(self, idx):
        b = [None] * len(idx)
        for k, p in enumerate(self.perm):
            b[p] = idx[k]
        return tuple(b)

    def inv(self, b):
        return TRUE, tuple(b[p] for p in self.perm)


class VUnsq:
    def __init__(self, dim):
        self.dim = dim

    def fwd(self, idx):
        return idx[: self.dim] + idx[self.dim + 1 :]

    def inv(self, b):
        return TRUE, b[: self.dim] + (ZERO,) + b[self.dim :]


class VExpand:
    def __init__(self, mask, lead):  # mask[k]: dim k broadcast; lead: number of new leading dims
        self.mask, self.lead = mask, lead

    def fwd(self, idx):
        idx = idx[self.lead :]
        return tuple(ZERO if m else i for m, i in zip(self.mask, idx))

    def inv(self, b):
        raise Unsupported("in-place write to an expanded tensor")


class VReshape:
    def __init__(self, groups_fwd, groups_inv):
        self.f, self.g = groups_fwd, groups_inv

    def fwd(self, idx):
        return self.f(idx)

    def inv(self, b):
        return TRUE, self.g(b)


def _unflatten_map(src, dst):
    """index map dst-index -> src-index for a contiguous reshape from shape src to shape dst (lists of polys)."""
    groups = []  # (src positions, dst positions)
    i = j = 0
    ns, nd = len(src), len(dst)
    while i < ns or j < nd:
        gi, gj = [], []
        pi, pj = ONE, ONE
        if i < ns:
            gi.append(i)
            pi = src[i]
            i += 1
        if j < nd:
            gj.append(j)
            pj = dst[j]
            j += 1
        while not known_eq(pi, pj):
            # extend the smaller side
            if not gi:
                if i < ns:
                    gi.append(i); pi = mul(pi, src[i]); i += 1
                    continue
            if not gj:
                if j < nd:
                    gj.append(j); pj = mul(pj, dst[j]); j += 1
                    continue
            q, r = t._split_div(pj, pi) if pi.args else (ZERO, pj)
            div_ok = not r.args and q.args
            if i < ns and (div_ok or j >= nd):
                gi.append(i); pi = mul(pi, src[i]); i += 1
            elif j < nd:
                gj.append(j); pj = mul(pj, dst[j]); j += 1
            elif i < ns:
                gi.append(i); pi = mul(pi, src[i]); i += 1
            else:
                raise TorchError(f"shape mismatch in reshape: {src} -> {dst}")
        # absorb trailing ones lazily: nothing to do
        groups.append((gi, gj))

    def f(idx):
        out = [None] * ns
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[gi[0]] = idx[gj[0]]
                continue
            sgi = [a for a in gi if src[a] is not ONE]
            sgj = [a for a in gj if dst[a] is not ONE]
            for a in gi:
                if src[a] is ONE:
                    out[a] = ZERO
            if len(sgi) == 1 and len(sgj) == 1:
                out[sgi[0]] = idx[sgj[0]]
                continue
            lin = ZERO
            for a in sgj:
                lin = add(mul(lin, dst[a]), idx[a])
            rest = lin
            suffix = [ONE]
            for a in reversed(sgi):
                suffix.append(mul(suffix[-1], src[a]))
            suffix = list(reversed(suffix))[1:]
            for n_, (a, s) in enumerate(zip(sgi, suffix)):
                if n_ == len(sgi) - 1:
                    out[a] = rest
                else:
                    q = t.idiv(rest, s)
                    out[a] = q
                    rest = sub(rest, mul(q, s))
        return tuple(out)

    return f


def reshape_dims(old, new):
    """resolve -1; returns list of polys; checks element counts."""
    numel = t.prod(old)
    neg1 = [k for k, d in enumerate(new) if t.is_const(d) and t.cval(d) == -1]
    if len(neg1) > 1:
        raise TorchError("only one dimension can be inferred")
    if neg1:
        known = t.prod([d for k, d in enumerate(new) if k != neg1[0]])
        q = exact_div(numel, known)
        new = list(new)
        new[neg1[0]] = q
    else:
        if not same_dim(numel, t.prod(new)):
            raise TorchError(f"shape '{new}' is invalid for input of size {numel}")
    return list(new)


def exact_div(a, b):
    if b is ONE:
        return a
    q, r = t._split_div(a, b)
    if not r.args:
        return q
    q2, r2 = t.poly_divmod(a, b)
    if not r2.args:
        return q2
    # factorwise: cancel common polynomial factors is not attempted
    q = t.idiv(a, b)
    if not E.decide(t.eq(mul(q, b), a)):
        raise TorchError(f"shape is invalid: {a} not divisible by {b}")
    return q


# ------------------------------------------------------------------ tensors
def dimkw(f):
    """dim/axis/dims as keyword, keepdim as second positional"""

    def g(self, *a, **k):
        for key in ("dim", "axis", "dims"):
            if key in k:
                v = k.pop(key)
                if v is not None:
                    a = a + (v,)
        if len(a) > 1 and isinstance(a[-1], bool) and f.__name__ not in ("permute", "flip"):
            k["keepdim"] = a[-1]
            a = a[:-1]
        return f(self, *a, **k)

    g.__name__ = f.__name__
    return g


class STensor:
    _is_tensor = True
    __array_priority__ = 1000

    def __init__(self, st, views, dims, dtype, contiguous=True):
        self._st = st
        self._views = views
        self._dims = list(dims)
        self.dtype = dtype
        self._contig = contiguous
        self.requires_grad = False
        self.grad = None
        self.grad_fn = None
        self.is_leaf = True

    # -- construction
    @staticmethod
    def new(dims, fn, dtype=float32):
        return STensor(Storage(list(dims), memo(fn)), [], dims, dtype)

    def _read(self):
        """Pure element function of the present contents."""
        base = self._st.fn
        views = list(self._views)
        if not views:
            return base

        def fn(idx):
            for v in reversed(views):
                idx = v.fwd(idx)
            return base(idx)

        return memo(fn)

    def _view(self, step, dims, contig=False):
        r = STensor(self._st, self._views + [step], dims, self.dtype, contig)
        r.requires_grad = self.requires_grad
        r._base = self
        return r

    def _write(self, cond, val):
        """In-place: element idx becomes val(idx) where cond(idx)."""
        views = list(self._views)
        old = self._st.fn
        vdims = list(self._dims)
        isb = self.dtype is bool_

        def fn(b):
            c = TRUE
            idx = b
            for v in views:
                ci, idx = v.inv(idx)
                c = band(c, ci)
                if c is FALSE:
                    return old(b)
            c = band(c, cond(idx))
            if c is FALSE:
                return old(b)
            nv = val(idx)
            if c is TRUE:
                return nv
            ov = old(b)
            if isb:
                return (t.bite(c, nv[0], ov[0]), FALSE)
            return (ite(c, nv[0], ov[0]), t.bite(c, nv[1], ov[1]))

        if E.loops:
            E.loop_write(self._st, views, cond, vdims)
            old = self._st.fn
        self._st.fn = memo(fn)
        self._st.version += 1

    # -- shape
    @property
    def shape(self):
        return Size([dimint(d) for d in self._dims])

    def size(self, dim=None):
        s = self.shape
        return s if dim is None else s[dim]

    def dim(self):
        return len(self._dims)

    @property
    def ndim(self):
        return len(self._dims)

    ndimension = dim

    def numel(self):
        return dimint(t.prod(self._dims))

    nelement = numel

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, SymNum):
            raise Unsupported("len() of a symbolic dimension")
        return d

    @property
    def device(self):
        return CPU

    is_cuda = False
    is_sparse = False
    layout = None

    @property
    def data(self):
        r = STensor(self._st, self._views, self._dims, self.dtype, self._contig)
        return r

    @data.setter
    def data(self, v):
        v = as_tensor(v)
        self._st = Storage(list(v._dims), v._read())
        self._views = []
        self._dims = list(v._dims)
        if E.loops:
            raise Unsupported("data assignment inside a symbolic loop")

    @property
    def T(self):
        return self.permute(*reversed(range(self.dim())))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def is_contiguous(self):
        return self._contig

    def element_size(self):
        return 4

    def is_floating_point(self):
        return self.dtype.is_floating_point

    # -- elements
    def at(self, *idx):
        return self._read()(tuple(P(i) for i in idx))

    def _scalar(self):
        """(poly, isint) of a one-element tensor"""
        if not all(d is ONE for d in self._dims):
            for d in self._dims:
                if not same_dim(d, ONE):
                    raise TorchError("only one element tensors can be converted to Python scalars")
        v, nan = self._read()(tuple(ZERO for _ in self._dims))
        if self.dtype is bool_:
            return ind(v), True
        return v, not self.dtype.is_floating_point

    def _tobool(self):
        if not all(d is ONE for d in self._dims):
            for d in self._dims:
                if not same_dim(d, ONE):
                    raise TorchError("Boolean value of Tensor with more than one value is ambiguous")
        v, nan = self._read()(tuple(ZERO for _ in self._dims))
        if self.dtype is bool_:
            return v
        return bor(t.nonzero(v), nan)

    def item(self):
        v, nan = self._read()(tuple(ZERO for _ in self._dims)) if all(d is ONE for d in self._dims) else (None, None)
        if v is None:
            p, i = self._scalar()
            return wrap(p, i)
        if self.dtype is bool_:
            return wrapb(v)
        return wrap(v, not self.dtype.is_floating_point)

    def __bool__(self):
        return bool(wrapb(self._tobool()))

    def __int__(self):
        return operator.index(wrap(self._scalar()[0], True))

    def __index__(self):
        return operator.index(wrap(self._scalar()[0], True))

    def __float__(self):
        return float(wrap(self._scalar()[0], False))

    def tolist(self):
        return _tolist(self)

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, SymNum):
            raise Unsupported("iteration over a symbolic dimension")
        for i in range(n):
            yield self[i]

    def __repr__(self):
        return f"STensor{list(self._dims)}:{self.dtype}"

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __contains__(self, x):
        return bool((self == x).any())

    # -- views
    def _d(self, d, extra=0):
        d = operator.index(d)
        n = self.dim() + extra
        if n == 0:
            n = 1
        if not -n <= d < n:
            raise IndexError(f"Dimension out of range (got {d}, tensor has {n} dims)")
        return d % n

    def unsqueeze(self, dim):
        d = self._d(dim, 1)
        return self._view(VUnsq(d), self._dims[:d] + [ONE] + self._dims[d:], self._contig)

    def unsqueeze_(self, dim):
        r = self.unsqueeze(dim)
        self._views, self._dims = r._views, r._dims
        return self

    @dimkw
    def squeeze(self, *dim):
        if dim and dim[0] is not None:
            ds = dim[0] if isinstance(dim[0], (tuple, list)) else dim
            ds = sorted({self._d(d) for d in ds}, reverse=True)
        else:
            ds = list(range(self.dim()))[::-1]
        r = self
        for d in ds:
            n = r._dims[d]
            if n is ONE or (not t.is_const(n) and E.decide(t.eq(n, ONE))):
                r = r._view(VSelect(d, ZERO), r._dims[:d] + r._dims[d + 1 :], r._contig)
        if r is self:
            r = self._view(VReshape(lambda i: i, lambda i: i), self._dims, self._contig)
        return r

    def squeeze_(self, *dim):
        r = self.squeeze(*dim)
        self._views, self._dims = r._views, r._dims
        return self

    @dimkw
    def permute(self, *dims):
        ds = [self._d(d) for d in flat_shape(dims)]
        if sorted(ds) != list(range(self.dim())):
            raise TorchError("permute: invalid dims")
        return self._view(VPerm(ds), [self._dims[d] for d in ds], ds == list(range(self.dim())) and self._contig)

    def transpose(self, a, b):
        a, b = self._d(a), self._d(b)
        p = list(range(self.dim()))
        p[a], p[b] = p[b], p[a]
        return self.permute(*p)

    swapaxes = transpose
    swapdims = transpose

    def t(self):
        return self.transpose(0, 1) if self.dim() == 2 else self

    def movedim(self, src, dst):
        srcs = [self._d(s) for s in (src if isinstance(src, (tuple, list)) else [src])]
        dsts = [self._d(s) for s in (dst if isinstance(dst, (tuple, list)) else [dst])]
        rest = [k for k in range(self.dim()) if k not in srcs]
        p = [None] * self.dim()
        for s, d in zip(srcs, dsts):
            p[d] = s
        it = iter(rest)
        for k in range(self.dim()):
            if p[k] is None:
                p[k] = next(it)
        return self.permute(*p)

    moveaxis = movedim

    def expand(self, *shape):
        sh = [pdim(x) for x in flat_shape(shape)]
        lead = len(sh) - self.dim()
        if lead < 0:
            raise TorchError("expand: too few dimensions")
        dims = []
        mask = []
        for k, s in enumerate(sh):
            if k < lead:
                if t.is_const(s) and t.cval(s) == -1:
                    raise TorchError("expand: -1 not allowed in a leading dimension")
                dims.append(s)
                continue
            cur = self._dims[k - lead]
            if t.is_const(s) and t.cval(s) == -1:
                dims.append(cur)
                mask.append(False)
            elif cur is ONE:
                dims.append(s)
                mask.append(True)
            elif same_dim(cur, s):
                dims.append(cur)
                mask.append(False)
            elif E.decide(t.eq(cur, ONE)):
                dims.append(s)
                mask.append(True)
            else:
                raise TorchError(f"The expanded size of the tensor ({s}) must match the existing size ({cur})")
        return self._view(VExpand(mask, lead), dims, not any(mask) and lead == 0 and self._contig)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], DType):
            return self.to(shape[0])
        return self._reshape(flat_shape(shape))

    def _reshape(self, shape):
        new = reshape_dims(self._dims, [pdim(x) for x in shape])
        f = _unflatten_map(self._dims, new)
        g = _unflatten_map(new, self._dims)
        return self._view(VReshape(f, g), new, self._contig)

    def reshape(self, *shape):
        src = self if self._contig else self.clone()
        return src._reshape(flat_shape(shape))

    def view_as(self, o):
        return self.view(*o.shape)

    def reshape_as(self, o):
        return self.reshape(*o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        if self.dim() == 0:
            return self.reshape(1)
        a, b = self._d(start_dim), self._d(end_dim)
        sh = self._dims[:a] + [t.prod(self._dims[a : b + 1])] + self._dims[b + 1 :]
        return self.reshape(*[dimint(x) for x in sh])

    def unflatten(self, dim, sizes):
        d = self._d(dim)
        sizes = [pdim(s) for s in sizes]
        if any(t.is_const(s) and t.cval(s) == -1 for s in sizes):
            sizes = reshape_dims([self._dims[d]], sizes)
        sh = self._dims[:d] + sizes + self._dims[d + 1 :]
        return self.view(*[dimint(x) for x in sh])

    def ravel(self):
        return self.flatten()

    def contiguous(self, **k):
        return self if self._contig else self.clone()

    def narrow(self, dim, start, length):
        d = self._d(dim)
        s, l = P(start), P(length)
        return self._view(VSlice(d, s, ONE, l), self._dims[:d] + [l] + self._dims[d + 1 :])

    def select(self, dim, i):
        return self[(slice(None),) * self._d(dim) + (i,)]

    def chunk(self, n, dim=0):
        d = self._d(dim)
        size = t.neg(t.idiv(t.neg(self._dims[d]), P(n)))
        return self.split(dimint(size), dim)

    def split(self, size, dim=0):
        d = self._d(dim)
        n = self._dims[d]
        if isinstance(size, (list, tuple)):
            out, off = [], ZERO
            for s in size:
                out.append(self.narrow(d, dimint(off), s))
                off = add(off, P(s))
            return tuple(out)
        s = P(size)
        q, r = t._split_div(n, s)
        if not r.args and t.is_const(q):
            return tuple(self.narrow(d, dimint(mul(const(k), s)), dimint(s)) for k in range(int(t.cval(q))))
        raise Unsupported("split into a symbolic number of chunks")

    def unbind(self, dim=0):
        d = self._d(dim)
        n = self.shape[d]
        if isinstance(n, SymNum):
            raise Unsupported("unbind of a symbolic dimension")
        return tuple(self.select(d, i) for i in range(n))

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if offset:
            raise Unsupported("diagonal offset")
        a, b = self._d(dim1), self._d(dim2)
        src = self._read()
        rest = [k for k in range(self.dim()) if k not in (a, b)]
        dims = [self._dims[k] for k in rest] + [self._dims[a]]

        def fn(idx):
            full = [None] * (len(rest) + 2)
            for k, r in enumerate(rest):
                full[r] = idx[k]
            full[a] = full[b] = idx[-1]
            return src(tuple(full))

        return STensor.new(dims, fn, self.dtype)

    # -- copies / casts
    def clone(self, **k):
        f = self._read()
        r = STensor(Storage(list(self._dims), f), [], self._dims, self.dtype)
        r.requires_grad = self.requires_grad
        return r

    def detach(self):
        return self._view(VReshape(lambda i: i, lambda i: i), self._dims, self._contig)

    def detach_(self):
        return self

    def requires_grad_(self, b=True):
        self.requires_grad = b
        return self

    def cpu(self):
        return self

    cuda = cpu

    def pin_memory(self):
        return self

    def numpy(self):
        return self

    def to(self, *a, dtype=None, device=None, copy=False, **k):
        for x in a:
            if isinstance(x, DType):
                dtype = x
            elif isinstance(x, STensor):
                dtype = x.dtype
        if dtype is None or dtype is self.dtype:
            return self
        return self._cast(dtype)

    def type(self, dt=None):
        return self if dt is None else self.to(dt)

    def type_as(self, o):
        return self.to(o.dtype)

    def _cast(self, dt):
        if dt is self.dtype:
            return self
        f = self._read()
        if dt is bool_:
            return STensor.new(self._dims, lambda i: (bor(t.nonzero(f(i)[0]), f(i)[1]), FALSE), bool_)
        if self.dtype is bool_:
            return STensor.new(self._dims, lambda i: (ind(f(i)[0]), FALSE), dt)
        if dt.is_floating_point or not self.dtype.is_floating_point:
            return STensor.new(self._dims, f, dt)
        return STensor.new(self._dims, lambda i: (trunc(f(i)[0]), FALSE), dt)

    def float(self):
        return self.to(float32)

    def double(self):
        return self.to(float64)

    def half(self):
        return self.to(float16)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(bool_)

    def nan_to_num(self, nan=0.0, **k):
        f = self._read()
        v = P(nan)
        return STensor.new(self._dims, lambda i: (ite(f(i)[1], v, f(i)[0]), FALSE), self.dtype)

    def nan_to_num_(self, nan=0.0, **k):
        return self.copy_(self.nan_to_num(nan))

    # -- elementwise
    def __add__(self, o):
        return binop(self, o, add)

    def __radd__(self, o):
        return binop(o, self, add)

    def __sub__(self, o):
        return binop(self, o, sub)

    def __rsub__(self, o):
        return binop(o, self, sub)

    def __mul__(self, o):
        return binop(self, o, mul)

    def __rmul__(self, o):
        return binop(o, self, mul)

    def __truediv__(self, o):
        return binop(self, o, t.div_real, out="float")

    def __rtruediv__(self, o):
        return binop(o, self, t.div_real, out="float")

    def __floordiv__(self, o):
        from .sym import floordiv

        return binop(self, o, floordiv)

    def __rfloordiv__(self, o):
        from .sym import floordiv

        return binop(o, self, floordiv)

    def __mod__(self, o):
        from .sym import floormod

        return binop(self, o, floormod)

    remainder = __mod__

    def __pow__(self, o):
        if isinstance(o, STensor):
            p = o._scalar()[0]
        else:
            p = P(o)
        if not t.is_const(p):
            raise Unsupported("symbolic exponent")
        e = t.cval(p)
        return unop(self, lambda x: t.power(x, e))

    def __rpow__(self, o):
        from .sym import pow_const

        return unop(self, lambda x: pow_const(Fraction(o), x))

    def pow(self, e):
        return self ** e

    def square(self):
        return self ** 2

    def __neg__(self):
        return unop(self, neg)

    neg = __neg__
    negative = __neg__

    def __abs__(self):
        return unop(self, lambda x: ite(t.le(ZERO, x), x, t.neg(x)))

    abs = __abs__

    def __invert__(self):
        if self.dtype is not bool_:
            raise Unsupported("bitwise not on integers")
        f = self._read()
        return STensor.new(self._dims, lambda i: (bnot(f(i)[0]), FALSE), bool_)

    logical_not = __invert__

    def __and__(self, o):
        return boolop(self, o, band)

    __rand__ = __and__
    logical_and = __and__

    def __or__(self, o):
        return boolop(self, o, bor)

    __ror__ = __or__
    logical_or = __or__

    def __xor__(self, o):
        return boolop(self, o, t.bxor)

    logical_xor = __xor__

    def __eq__(self, o):
        if o is None:
            return False
        return cmpop(self, o, t.eq)

    def __ne__(self, o):
        if o is None:
            return True
        return cmpop(self, o, lambda a, b: bnot(t.eq(a, b)), nanval=TRUE)

    def __lt__(self, o):
        return cmpop(self, o, t.lt)

    def __le__(self, o):
        return cmpop(self, o, t.le)

    def __gt__(self, o):
        return cmpop(self, o, lambda a, b: t.lt(b, a))

    def __ge__(self, o):
        return cmpop(self, o, lambda a, b: t.le(b, a))

    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else alpha * o)

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 else alpha * o)

    subtract = sub

    def mul(self, o):
        return self * o

    multiply = mul

    def div(self, o, rounding_mode=None):
        if rounding_mode is None:
            return self / o
        if rounding_mode == "floor":
            return self // o
        r = self / o
        out = unop(r, trunc)
        if not self.dtype.is_floating_point:
            out.dtype = self.dtype
        return out

    divide = div
    true_divide = __truediv__

    def exp(self):
        return unop(self, t.exp, "float")

    def log(self):
        return unop(self, t.log, "float")

    def log2(self):
        return unop(self, lambda x: t.div_real(t.log(x), t.log(const(2))), "float")

    def log1p(self):
        return unop(self, lambda x: t.log(add(x, ONE)), "float")

    def expm1(self):
        return unop(self, lambda x: sub(t.exp(x), ONE), "float")

    def sqrt(self):
        return unop(self, t.sqrt, "float")

    def rsqrt(self):
        return unop(self, lambda x: t.power(x, Fraction(-1, 2)), "float")

    def reciprocal(self):
        return unop(self, lambda x: t.power(x, -1), "float")

    def sigmoid(self):
        return unop(self, lambda x: t.power(add(ONE, t.exp(t.neg(x))), -1), "float")

    def logsigmoid(self):
        return unop(self, lambda x: t.neg(t.log(add(ONE, t.exp(t.neg(x))))), "float")

    def tanh(self):
        return unop(self, lambda x: t.func("tanh", x), "float")

    def lgamma(self):
        return unop(self, _lgamma, "float")

    def sin(self):
        return unop(self, lambda x: t.func("sin", x), "float")

    def floor(self):
        return unop(self, t.floor)

    def ceil(self):
        return unop(self, t.ceil)

    def round(self):
        return unop(self, lambda x: t.floor(add(x, const(Fraction(1, 2)))))

    def trunc(self):
        return unop(self, trunc)

    def sign(self):
        return unop(self, lambda x: ite(t.lt(ZERO, x), ONE, ite(t.lt(x, ZERO), const(-1), ZERO)))

    def relu(self):
        return unop(self, lambda x: ite(t.le(ZERO, x), x, ZERO))

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = binop(r, min, lambda a, b: ite(t.le(b, a), a, b))
        if max is not None:
            r = binop(r, max, lambda a, b: ite(t.le(a, b), a, b))
        return r

    clip = clamp

    def clamp_(self, min=None, max=None):
        return self.copy_(self.clamp(min, max))

    clip_ = clamp_

    def clamp_min(self, v):
        return self.clamp(min=v)

    def clamp_max(self, v):
        return self.clamp(max=v)

    def maximum(self, o):
        return binop(self, o, lambda a, b: ite(t.le(b, a), a, b))

    def minimum(self, o):
        return binop(self, o, lambda a, b: ite(t.le(a, b), a, b))

    def logaddexp(self, o):
        return binop(self, o, lambda a, b: t.log(add(t.exp(a), t.exp(b))))

    def isnan(self):
        f = self._read()
        return STensor.new(self._dims, lambda i: (f(i)[1], FALSE), bool_)

    def isinf(self):
        return STensor.new(self._dims, lambda i: (FALSE, FALSE), bool_)

    def isfinite(self):
        return ~self.isnan()

    def where(self, cond, other):
        return where(cond, self, other)

    def masked_fill(self, mask, v):
        return where(mask, v, self)

    def masked_fill_(self, mask, v):
        return self.copy_(where(mask, v, self))

    # -- in-place arithmetic
    def _inplace(self, r):
        return self.copy_(r)

    def add_(self, o, alpha=1):
        return self.copy_(self + (o if alpha == 1 else alpha * o))

    def sub_(self, o):
        return self.copy_(self - o)

    def mul_(self, o):
        return self.copy_(self * o)

    def div_(self, o, rounding_mode=None):
        return self.copy_(self.div(o, rounding_mode))

    def exp_(self):
        return self.copy_(self.exp())

    def log_(self):
        return self.copy_(self.log())

    def sqrt_(self):
        return self.copy_(self.sqrt())

    def neg_(self):
        return self.copy_(-self)

    def floor_(self):
        return self.copy_(self.floor())

    def sigmoid_(self):
        return self.copy_(self.sigmoid())

    def __iadd__(self, o):
        return self.copy_(self + o)

    def __isub__(self, o):
        return self.copy_(self - o)

    def __imul__(self, o):
        return self.copy_(self * o)

    def __itruediv__(self, o):
        return self.copy_(self / o)

    def copy_(self, o, non_blocking=False):
        o = as_tensor(o)
        sh = bcast(self._dims, o._dims)
        if len(sh) != len(self._dims):
            raise TorchError("output with shape doesn't match the broadcast shape")
        for a, b in zip(sh, self._dims):
            if not same_dim(a, b):
                raise TorchError("output with shape doesn't match the broadcast shape")
        f = bread(o, self._dims, self.dtype)
        self._write(lambda i: TRUE, f)
        return self

    def fill_(self, v):
        if isinstance(v, STensor):
            return self.copy_(v)
        e = elem(v, self.dtype)
        self._write(lambda i: TRUE, lambda i: e)
        return self

    def zero_(self):
        return self.fill_(0)

    def normal_(self, mean=0.0, std=1.0):
        return self.copy_(randn(*self.shape) * std + mean)

    def uniform_(self, a=0.0, b=1.0):
        return self.copy_(rand(*self.shape) * (b - a) + a)

    def bernoulli_(self, p=0.5):
        return self.copy_((rand(*self.shape) < p).to(self.dtype))

    def set_(self, o):
        raise Unsupported("set_")

    # -- reductions
    def _axes(self, dim):
        if dim is None or (isinstance(dim, (tuple, list)) and len(dim) == 0):
            return list(range(self.dim()))
        if isinstance(dim, (tuple, list)):
            return sorted({self._d(d) for d in dim})
        return [self._d(dim)] if self.dim() else []

    def _reduce(self, dim, keepdim, vf, nf, dtype):
        """vf(ns, f) value over reduced axes; f maps tuple of reduced indices -> element"""
        ax = self._axes(dim)
        f = self._read()
        nd = self.dim()
        ns = [self._dims[a] for a in ax]
        dims = [d for k, d in enumerate(self._dims) if k not in ax]

        def fn(idx):
            if keepdim:
                idx = tuple(x for k, x in enumerate(idx) if k not in ax)

            def g(red):
                full = []
                it, rt = iter(idx), iter(red)
                for k in range(nd):
                    full.append(next(rt) if k in ax else next(it))
                return f(tuple(full))

            return vf(ns, g), nf(ns, g)

        odims = [ONE if k in ax else d for k, d in enumerate(self._dims)] if keepdim else dims
        return STensor.new(odims, fn, dtype)

    @dimkw
    def sum(self, *dim, keepdim=False, dtype=None):
        d = _dimarg(dim, None)
        src = self
        if self.dtype is bool_:
            src = self.to(int64)
        return src._reduce(d, keepdim, lambda ns, g: nest(t.summ, ns, lambda r: g(r)[0]), nan_any, dtype or src.dtype)

    @dimkw
    def nansum(self, *dim, keepdim=False):
        return self.nan_to_num(0.0).sum(*dim, keepdim=keepdim)

    @dimkw
    def mean(self, *dim, keepdim=False, dtype=None):
        d = _dimarg(dim, None)
        ax = self._axes(d)
        n = t.prod([self._dims[a] for a in ax])
        return self.sum(d, keepdim=keepdim) / wrap(n, True)

    def prod(self, dim=None, keepdim=False):
        ax = self._axes(dim)
        for a in ax:
            if not t.is_const(self._dims[a]):
                raise Unsupported("product over a symbolic dimension")
        def vf(ns, g):
            out = ONE
            import itertools
            for r in itertools.product(*[range(int(t.cval(n))) for n in ns]):
                out = mul(out, g(tuple(const(x) for x in r))[0])
            return out
        return self._reduce(dim, keepdim, vf, nan_any, self.dtype)

    @dimkw
    def var(self, *dim, keepdim=False, unbiased=True, correction=None):
        d = _dimarg(dim, None)
        ax = self._axes(d)
        n = t.prod([self._dims[a] for a in ax])
        m = self.mean(d, keepdim=True)
        k = (1 if unbiased else 0) if correction is None else correction
        return ((self - m) ** 2).sum(d, keepdim=keepdim) / (wrap(n, True) - k)

    @dimkw
    def std(self, *dim, **k):
        return self.var(*dim, **k).sqrt()

    @dimkw
    def any(self, *dim, keepdim=False):
        src = self.to(bool_)
        return src._reduce(_dimarg(dim, None), keepdim, lambda ns, g: nest(t.anyb, ns, lambda r: g(r)[0]), nonan, bool_)

    @dimkw
    def all(self, *dim, keepdim=False):
        src = self.to(bool_)
        return src._reduce(_dimarg(dim, None), keepdim, lambda ns, g: nest(t.allb, ns, lambda r: g(r)[0]), nonan, bool_)

    def logsumexp(self, dim, keepdim=False):
        return self._reduce(dim, keepdim, lambda ns, g: t.log(nest(t.summ, ns, lambda r: t.exp(g(r)[0]))), nan_any, self.dtype)

    def amax(self, dim=None, keepdim=False):
        return self._reduce(dim, keepdim, lambda ns, g: nest(t.maxx, ns, lambda r: g(r)[0]), nan_any, self.dtype)

    def amin(self, dim=None, keepdim=False):
        return -((-self).amax(dim, keepdim))

    def max(self, dim=None, keepdim=False):
        if isinstance(dim, STensor):
            return self.maximum(dim)
        if dim is None:
            return self.amax(None)
        return MinMax((self.amax(dim, keepdim), self.argmax(dim, keepdim)))

    def min(self, dim=None, keepdim=False):
        if isinstance(dim, STensor):
            return self.minimum(dim)
        if dim is None:
            return self.amin(None)
        return MinMax((self.amin(dim, keepdim), (-self).argmax(dim, keepdim)))

    def argmax(self, dim=None, keepdim=False):
        if dim is None:
            return self.flatten().argmax(0)
        return self._reduce(self._d(dim), keepdim, lambda ns, g: t.argmax(ns[0], lambda r: g((r,))[0]), nonan, int64)

    def argmin(self, dim=None, keepdim=False):
        return (-self).argmax(dim, keepdim)

    def softmax(self, dim=-1, dtype=None):
        return (self - self.logsumexp(dim, True)).exp()

    def log_softmax(self, dim=-1, dtype=None):
        return self - self.logsumexp(dim, True)

    def norm(self, p=2, dim=None, keepdim=False):
        return (self * self).sum(dim, keepdim=keepdim).sqrt()

    def cumsum(self, dim=0):
        d = self._d(dim)
        f = self._read()

        def fn(idx):
            return (t.summ(add(idx[d], ONE), lambda k: f(idx[:d] + (k,) + idx[d + 1 :])[0]), FALSE)

        return STensor.new(self._dims, fn, self.dtype)

    def argsort(self, dim=-1, descending=False):
        return argsort(self, dim, descending)

    def sort(self, *a, **k):
        raise Unsupported("sort")

    def topk(self, *a, **k):
        raise Unsupported("topk")

    # -- repetition
    def repeat(self, *reps):
        reps = [pdim(x) for x in flat_shape(reps)]
        lead = len(reps) - self.dim()
        if lead < 0:
            raise TorchError("Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
        f = self._read()
        base = [ONE] * lead + self._dims
        dims = [mul(a, b) for a, b in zip(base, reps)]

        def fn(idx):
            out = []
            for k in range(lead, len(idx)):
                n = base[k]
                if reps[k] is ONE:
                    out.append(idx[k])
                elif n is ONE:
                    out.append(ZERO)
                else:
                    out.append(t.imod(idx[k], n))
            return f(tuple(out))

        return STensor.new(dims, fn, self.dtype)

    def tile(self, *reps):
        reps = flat_shape(reps)
        reps = [1] * (self.dim() - len(reps)) + list(reps)
        return self.repeat(*reps)

    def repeat_interleave(self, repeats, dim=None, output_size=None):
        if dim is None:
            return self.flatten().repeat_interleave(repeats, 0)
        if isinstance(repeats, STensor):
            if repeats.dim() and not all(d is ONE for d in repeats._dims):
                raise Unsupported("repeat_interleave with a tensor of repeats")
            repeats = wrap(repeats._scalar()[0], True)
        d = self._d(dim)
        r = P(repeats)
        f = self._read()
        dims = self._dims[:d] + [mul(self._dims[d], r)] + self._dims[d + 1 :]
        return STensor.new(dims, lambda i: f(i[:d] + (t.idiv(i[d], r),) + i[d + 1 :]), self.dtype)

    @dimkw
    def flip(self, *dims):
        ds = [self._d(d) for d in flat_shape(dims)]
        f = self._read()
        D = self._dims
        return STensor.new(
            D, lambda i: f(tuple(sub(sub(D[k], ONE), x) if k in ds else x for k, x in enumerate(i))), self.dtype
        )

    def roll(self, shifts, dims=0):
        d = self._d(dims)
        f = self._read()
        s, n = P(shifts), self._dims[d]
        return STensor.new(self._dims, lambda i: f(i[:d] + (t.imod(sub(i[d], s), n),) + i[d + 1 :]), self.dtype)

    def tril(self, diagonal=0):
        f = self._read()
        k = const(diagonal)
        return STensor.new(
            self._dims,
            lambda i: (mul(ind(t.le(i[-1], add(i[-2], k))), f(i)[0]), band(t.le(i[-1], add(i[-2], k)), f(i)[1])),
            self.dtype,
        )

    def triu(self, diagonal=0):
        f = self._read()
        k = const(diagonal)
        return STensor.new(self._dims, lambda i: (mul(ind(t.le(add(i[-2], k), i[-1])), f(i)[0]), f(i)[1]), self.dtype)

    def diag_embed(self):
        f = self._read()
        return STensor.new(
            self._dims + [self._dims[-1]],
            lambda i: (mul(ind(t.eq(i[-1], i[-2])), f(i[:-1])[0]), band(t.eq(i[-1], i[-2]), f(i[:-1])[1])),
            self.dtype,
        )

    # -- linear algebra
    def matmul(self, o):
        a, b = self, as_tensor(o)
        if a.dim() == 1 and b.dim() == 1:
            return (a * b).sum()
        if a.dim() == 1:
            return (a.unsqueeze(-1) * b).sum(-2)
        if b.dim() == 1:
            return (a * b).sum(-1)
        return (a.unsqueeze(-1) * b.unsqueeze(-3)).sum(-2)

    __matmul__ = matmul
    mm = matmul
    bmm = matmul
    mv = matmul

    # -- gather / scatter
    def gather(self, dim, index, sparse_grad=False):
        d = self._d(dim)
        if index.dim() != self.dim():
            raise TorchError("Index tensor must have the same number of dimensions as input tensor")
        if index.dtype.is_floating_point or index.dtype is bool_:
            raise TorchError("gather(): Expected dtype int64 for index")
        for k in range(self.dim()):
            if k != d and not known_eq(index._dims[k], self._dims[k]):
                if not E.decide(t.le(index._dims[k], self._dims[k])):
                    raise TorchError("Size does not match at dimension %d expected index to be smaller than self" % k)
        f, g = self._read(), index._read()
        check_range(index, self._dims[d], "gather index")
        return STensor.new(index._dims, lambda i: f(i[:d] + (g(i)[0],) + i[d + 1 :]), self.dtype)

    def take_along_dim(self, index, dim=None):
        d = self._d(dim)
        sh = bcast(self._dims[:d] + [ONE] + self._dims[d + 1 :], index._dims[:d] + [ONE] + index._dims[d + 1 :])
        a = self.expand(*[dimint(self._dims[k] if k == d else sh[k]) for k in range(self.dim())])
        b = index.expand(*[dimint(index._dims[k] if k == d else sh[k]) for k in range(self.dim())])
        return a.gather(d, b)

    def index_select(self, dim, index):
        d = self._d(dim)
        return self[(slice(None),) * d + (index,)]

    def take(self, index):
        return self.flatten()[index]

    def scatter_(self, dim, index, src=None, value=None, reduce=None):
        d = self._d(dim)
        if src is None:
            src = value
        if reduce is not None:
            raise Unsupported("scatter reduce")
        g = index._read()
        check_range(index, self._dims[d], "scatter index")
        n = index._dims[d]
        sv = src._read() if isinstance(src, STensor) else None
        e = None if sv else elem(src, self.dtype)
        if not t.is_const(n):
            raise Unsupported("scatter along a symbolic dimension")
        for k in range(self.dim()):
            if k != d and not known_eq(index._dims[k], self._dims[k]):
                # only a sub-block is written
                if not E.decide(t.le(index._dims[k], self._dims[k])):
                    raise TorchError("scatter: index larger than self")
        for j in range(int(t.cval(n))):
            cj = const(j)

            def cond(i, cj=cj):
                ii = i[:d] + (cj,) + i[d + 1 :]
                inside = TRUE
                for k in range(len(i)):
                    if k != d and index._dims[k] is not self._dims[k]:
                        inside = band(inside, t.lt(i[k], index._dims[k]))
                return band(inside, t.eq(g(ii)[0], i[d]))

            self._write(cond, (lambda i: e) if sv is None else (lambda i, cj=cj: sv(i[:d] + (cj,) + i[d + 1 :])))
        return self

    def scatter(self, dim, index, src=None, value=None, reduce=None):
        return self.clone().scatter_(dim, index, src, value, reduce)

    def scatter_add_(self, dim, index, src):
        raise Unsupported("scatter_add_")

    def index_copy_(self, dim, index, src):
        d = self._d(dim)
        self[(slice(None),) * d + (index,)] = src
        return self

    def index_fill_(self, dim, index, v):
        d = self._d(dim)
        self[(slice(None),) * d + (index,)] = v
        return self

    def index_fill(self, dim, index, v):
        return self.clone().index_fill_(dim, index, v)

    def new_zeros(self, *s, dtype=None, **k):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_ones(self, *s, dtype=None, **k):
        return ones(*s, dtype=dtype or self.dtype)

    def new_empty(self, *s, dtype=None, **k):
        return empty(*s, dtype=dtype or self.dtype)

    def new_full(self, s, v, dtype=None, **k):
        return full(s, v, dtype=dtype or self.dtype)

    def new_tensor(self, v, dtype=None, **k):
        return tensor(v, dtype=dtype or self.dtype)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def register_hook(self, *a):
        pass

    def backward(self, *a, **k):
        raise Unsupported("backward")

    def retain_grad(self):
        pass

    def __deepcopy__(self, m):
        r = self.clone()
        r.__class__ = self.__class__
        r.requires_grad = self.requires_grad
        return r


class MinMax(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def _dimarg(dim, axis):
    if axis is not None:
        return axis
    if not dim:
        return None
    if len(dim) == 1:
        return dim[0]
    return tuple(dim)


def nonan(ns, g):
    return FALSE


def nan_any(ns, g):
    return nest(t.anyb, ns, lambda r: g(r)[1])


def nest(op, ns, f):
    """op over several axes"""
    if not ns:
        return f(())
    if len(ns) == 1:
        return op(ns[0], lambda i: f((i,)))
    return op(ns[0], lambda i: nest(op, ns[1:], lambda r: f((i,) + r)))


def check_range(index, n, what):
    """obligation: every entry of an index tensor lies in [0, n)"""
    if any(t.is_const(d) and t.cval(d) == 0 for d in index._dims):
        return
    idx = tuple(t.atom(t.fresh_index(d, "q")) if d is not ONE else ZERO for d in index._dims)
    v = index._read()(idx)[0]
    if v.h or True:
        goal = band(t.le(ZERO, v), t.lt(v, n))
        E.obligation(what + " in range", goal=goal, implicit=True, budget=5.0)


# ------------------------------------------------------------------ scalars to elements
def elem(v, dtype):
    if isinstance(v, STensor):
        p, _ = v._scalar()
        vv, nan = v._read()(tuple(ZERO for _ in v._dims))
        if v.dtype is bool_:
            vv = ind(vv)
        if dtype is bool_:
            return (t.nonzero(vv), FALSE)
        return (vv, nan)
    if isinstance(v, float) and v != v:
        return (ZERO, TRUE)
    if isinstance(v, float) and v == float("-inf"):
        return (t.log(ZERO), FALSE)
    if isinstance(v, float) and v == float("inf"):
        return (t.neg(t.log(ZERO)), FALSE)
    if dtype is bool_:
        return (tobool(v), FALSE)
    p = P(v)
    return (p, FALSE)


def scalar_dtype(v):
    if isinstance(v, (bool, SymBool)):
        return bool_
    if isinstance(v, SymNum):
        return int64 if v.isint else _default[0]
    if isinstance(v, int):
        return int64
    if isinstance(v, (float, Fraction)):
        return _default[0]
    m = type(v).__module__
    if m == "numpy":
        return scalar_dtype(v.item())
    raise TypeError(f"unsupported operand of type {type(v)} for a tensor operation")


def as_tensor(v, dtype=None):
    if isinstance(v, STensor):
        return v
    dt = dtype or scalar_dtype(v)
    e = elem(v, dt)
    return STensor.new([], lambda i: e, dt)


_rank = {"bool": 0, "uint8": 1, "int8": 1, "int16": 2, "int32": 3, "int64": 4, "float16": 5, "bfloat16": 5, "float32": 6, "float64": 7}


def promote(a, b, sa=False, sb=False):
    """sa/sb: operand is a python scalar or 0-dim tensor"""
    if a is b:
        return a
    ca = 2 if a.is_floating_point else (0 if a is bool_ else 1)
    cb = 2 if b.is_floating_point else (0 if b is bool_ else 1)
    if ca == cb and sa != sb:
        return b if sa else a
    if ca != cb:
        return a if ca > cb else b
    return a if _rank[a.name] >= _rank[b.name] else b


def bread(x, dims, dtype=None):
    """element function of x broadcast to dims (cast to dtype class)"""
    f = x._read()
    n, m = len(dims), x.dim()
    lead = n - m
    ones_ = [x._dims[k] is ONE and dims[lead + k] is not ONE for k in range(m)]
    if dtype is bool_ and x.dtype is not bool_:
        g = f
        f = lambda i: (bor(t.nonzero(g(i)[0]), g(i)[1]), FALSE)
    elif dtype is not None and dtype is not bool_ and x.dtype is bool_:
        g = f
        f = lambda i: (ind(g(i)[0]), FALSE)
    elif dtype is not None and not dtype.is_floating_point and x.dtype.is_floating_point:
        g = f
        f = lambda i: (trunc(g(i)[0]), FALSE)
    # dims known equal to 1 only through the path condition also broadcast
    for k in range(m):
        if not ones_[k] and x._dims[k] is not dims[lead + k] and not known_eq(x._dims[k], dims[lead + k]):
            ones_[k] = True

    def fn(idx):
        idx = idx[lead:]
        return f(tuple(ZERO if o else i for o, i in zip(ones_, idx)))

    return fn


def binop(a, b, op, out=None):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return masked_bin(a, b, op, out)
    if not isinstance(a, STensor):
        if not _num_like(a):
            return NotImplemented
    if not isinstance(b, STensor):
        if not _num_like(b):
            return NotImplemented
    sa = not isinstance(a, STensor) or a.dim() == 0
    sb = not isinstance(b, STensor) or b.dim() == 0
    a, b = as_tensor(a), as_tensor(b)
    dt = promote(a.dtype, b.dtype, sa, sb)
    if out == "float" and not dt.is_floating_point:
        dt = _default[0]
    if dt is bool_:
        dt = int64 if op in (add, sub) else bool_
    dims = bcast(a._dims, b._dims)
    cast = dt if dt is not bool_ else int64
    fa, fb = bread(a, dims, None if a.dtype is not bool_ else int64), bread(b, dims, None if b.dtype is not bool_ else int64)

    def fn(i):
        x, nx = fa(i)
        y, ny = fb(i)
        return (op(x, y), bor(nx, ny))

    r = STensor.new(dims, fn, cast)
    if dt is bool_:
        r = r.to(bool_)
    r.requires_grad = a.requires_grad or b.requires_grad
    return r


def _num_like(x):
    return isinstance(x, (int, float, bool, SymNum, SymBool, Fraction)) or (type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0)


def boolop(a, b, op):
    a, b = as_tensor(a), as_tensor(b)
    dims = bcast(a._dims, b._dims)
    fa, fb = bread(a, dims, bool_), bread(b, dims, bool_)
    return STensor.new(dims, lambda i: (op(fa(i)[0], fb(i)[0]), FALSE), bool_)


def cmpop(a, b, op, nanval=FALSE):
    if isinstance(b, float) and b in (float("inf"), float("-inf")):
        # values are mathematical reals: only log 0 is -inf
        if b < 0:
            b_ = t.log(ZERO)
            f = a._read()
            return STensor.new(a._dims, lambda i: (op(f(i)[0], b_), FALSE), bool_)
        return STensor.new(a._dims, lambda i: (FALSE, FALSE), bool_)
    if not isinstance(b, STensor) and not _num_like(b):
        return NotImplemented
    a, b = as_tensor(a), as_tensor(b)
    dims = bcast(a._dims, b._dims)
    fa, fb = bread(a, dims, None if a.dtype is not bool_ else int64), bread(b, dims, None if b.dtype is not bool_ else int64)

    def fn(i):
        x, nx = fa(i)
        y, ny = fb(i)
        n = bor(nx, ny)
        return (t.bite(n, nanval, op(x, y)), FALSE)

    return STensor.new(dims, fn, bool_)


def unop(a, op, out=None):
    a = as_tensor(a)
    f = a._read()
    if a.dtype is bool_:
        g = f
        f = lambda i: (ind(g(i)[0]), FALSE)
    dt = a.dtype if a.dtype is not bool_ else int64
    if out == "float" and not dt.is_floating_point:
        dt = _default[0]
    r = STensor.new(a._dims, lambda i: (op(f(i)[0]), f(i)[1]), dt)
    r.requires_grad = a.requires_grad
    return r


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    c = as_tensor(c)
    sa, sb = not isinstance(a, STensor), not isinstance(b, STensor)
    a, b = as_tensor(a), as_tensor(b)
    dt = promote(a.dtype, b.dtype, sa or a.dim() == 0, sb or b.dim() == 0)
    dims = bcast(c._dims, a._dims, b._dims)
    fc, fa, fb = bread(c, dims, bool_), bread(a, dims, dt), bread(b, dims, dt)

    def fn(i):
        cc = fc(i)[0]
        if cc is TRUE:
            return fa(i)
        if cc is FALSE:
            return fb(i)
        x, nx = fa(i)
        y, ny = fb(i)
        if dt is bool_:
            return (t.bite(cc, x, y), FALSE)
        return (ite(cc, x, y), t.bite(cc, nx, ny))

    r = STensor.new(dims, fn, dt)
    r.requires_grad = a.requires_grad or b.requires_grad
    return r


# ------------------------------------------------------------------ indexing
class Masked:
    """x[mask]: a one-dimensional selection whose length depends on the data."""

    def __init__(self, dims, mask, fn, tail, dtype):
        self.mdims, self.mask, self.fn, self.tail, self.dtype = dims, mask, fn, tail, dtype

    @property
    def shape(self):
        return MaskShape(self)

    def size(self):
        return MaskShape(self)

    def to(self, *a, dtype=None, **k):
        dt = dtype
        for x in a:
            if isinstance(x, DType):
                dt = x
        if dt is None:
            return self
        tmp = STensor.new(self.mdims + self.tail, self.fn, self.dtype)
        return Masked(self.mdims, self.mask, tmp.to(dt)._read(), self.tail, dt)

    def float(self):
        return self.to(float32)

    def long(self):
        return self.to(int64)

    def clone(self):
        return self

    def __getattr__(self, n):
        raise Unsupported(f"operation {n} on a boolean-mask selection")

    def __mul__(self, o):
        return masked_bin(self, o, mul, None)

    __rmul__ = __mul__

    def __add__(self, o):
        return masked_bin(self, o, add, None)

    __radd__ = __add__

    def __sub__(self, o):
        return masked_bin(self, o, sub, None)


class MaskShape:
    def __init__(self, m):
        self.m = m


def masked_bin(a, b, op, out):
    m = a if isinstance(a, Masked) else b
    def full(x):
        if isinstance(x, Masked):
            return STensor.new(x.mdims + x.tail, x.fn, x.dtype)
        return x
    r = binop(full(a), full(b), op, out)
    return Masked(m.mdims, m.mask, r._read(), m.tail, r.dtype)


def slice_bounds(n, s):
    """(start, step, size) polys of a slice of a dimension of size n"""
    step = ONE if s.step is None else pdim(s.step)
    if not t.nonneg(sub(step, ONE)):
        raise Unsupported("slice step")

    def norm(x, default):
        if x is None:
            return default
        p = pdim(x)
        if t.is_const(p):
            if t.cval(p) < 0:
                p = add(n, p)
                if not t.nonneg(p) and not E.decide(t.le(ZERO, p)):
                    p = ZERO
                return p
        elif not t.nonneg(p) and not t.prove(t.le(ZERO, p)):
            if not E.decide(t.le(ZERO, p)):
                p = add(n, p)
                if not t.nonneg(p) and not E.decide(t.le(ZERO, p)):
                    p = ZERO
                return p
        return p

    start, stop = norm(s.start, ZERO), norm(s.stop, n)
    if stop is not n and not t.nonneg(sub(n, stop)):
        if not E.decide(t.le(stop, n)):
            stop = n
    if start is not ZERO and not t.nonneg(sub(n, start)):
        if not E.decide(t.le(start, n)):
            start = n
    length = sub(stop, start)
    if not t.nonneg(length):
        if not E.decide(t.le(ZERO, length)):
            length = ZERO
    size = length if step is ONE else t.idiv(add(length, sub(step, ONE)), step)
    return start, step, size


def _norm_key(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, STensor) and k.dtype is bool_:
            n += k.dim()
        else:
            n += 1
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    for k in key:
        if k is Ellipsis:
            out.extend([slice(None)] * (x.dim() - n))
        else:
            out.append(k)
    if n > x.dim():
        raise IndexError("too many indices for tensor")
    return out


def _is_adv(k):
    return isinstance(k, (STensor, list)) or type(k).__name__ in ("ndarray", "SymList", "SArray")


def _adv_tensor(k):
    if isinstance(k, STensor):
        if k.dtype.is_floating_point:
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        return k
    if isinstance(k, list) or type(k).__name__ == "SymList":
        return tensor(k, dtype=int64) if len_or(k) != 0 else zeros(0, dtype=int64)
    return tensor(k)


def len_or(k):
    if type(k).__name__ == "SymList":
        return int(t.cval(k.n)) if t.is_const(k.n) else -1
    try:
        return len(k)
    except Exception:
        return -1


def norm_index(i, n):
    """python-style wrap of a scalar index; obligation that it is in range"""
    p = pdim(i)
    if t.is_const(p) and t.cval(p) < 0:
        p = add(n, p)
    elif not t.is_const(p) and not t.nonneg(p) and not t.prove(t.le(ZERO, p)):
        p = ite(t.le(ZERO, p), p, add(n, p))
    ok = band(t.le(ZERO, p), t.lt(p, n))
    if ok is not TRUE:
        if not E.decide(ok):
            raise IndexError(f"index {i} is out of bounds for dimension with size {n}")
    return p


def getitem(x, key):
    keys = _norm_key(x, key)
    # boolean mask
    if any(isinstance(k, STensor) and k.dtype is bool_ and k.dim() > 0 for k in keys):
        return mask_get(x, keys)
    r = x
    d = 0
    adv = []
    for k in keys:
        if k is None:
            r = r.unsqueeze(d)
            d += 1
        elif isinstance(k, slice):
            n = r._dims[d]
            if k.start is None and k.stop is None and k.step is None:
                d += 1
                continue
            st, sp, size = slice_bounds(n, k)
            r = r._view(VSlice(d, st, sp, size), r._dims[:d] + [size] + r._dims[d + 1 :])
            d += 1
        elif _is_adv(k):
            kt = _adv_tensor(k)
            if kt.dim() == 0:
                i = norm_index(kt, r._dims[d])
                r = r._view(VSelect(d, i), r._dims[:d] + r._dims[d + 1 :])
            else:
                adv.append((d, kt))
                d += 1
        elif isinstance(k, bool):
            raise Unsupported("bool scalar index")
        else:
            i = norm_index(k, r._dims[d])
            r = r._view(VSelect(d, i), r._dims[:d] + r._dims[d + 1 :])
    if r is x:
        r = x._view(VReshape(lambda i: i, lambda i: i), x._dims, x._contig)
    if adv:
        return adv_get(r, adv)
    return r


def _adv_plan(r, adv):
    sh = bcast(*[k._dims for _, k in adv])
    pos = [p for p, _ in adv]
    contiguous = all(pos[j + 1] == pos[j] + 1 for j in range(len(pos) - 1))
    rest = [k for k in range(r.dim()) if k not in pos]
    lead = pos[0] if contiguous else 0
    before = [k for k in rest if k < pos[0]] if contiguous else []
    after = [k for k in rest if k not in before]
    return sh, pos, before, after


def _wrap_neg(v, n):
    if t.nonneg(v):
        return v
    if t.is_const(v):
        return add(v, n) if t.cval(v) < 0 else v
    if t.prove(t.le(ZERO, v)):
        return v
    return ite(t.le(ZERO, v), v, add(v, n))


def adv_get(r, adv):
    sh, pos, before, after = _adv_plan(r, adv)
    fs = [bread(k, sh) for _, k in adv]
    for p, k in adv:
        check_adv_range(k, r._dims[p])
    f = r._read()
    dims = [r._dims[k] for k in before] + sh + [r._dims[k] for k in after]
    nb, ns = len(before), len(sh)
    nd = r.dim()

    def fn(idx):
        b, s, a = idx[:nb], idx[nb : nb + ns], idx[nb + ns :]
        full = [None] * nd
        for k, v in zip(before, b):
            full[k] = v
        for k, v in zip(after, a):
            full[k] = v
        for p, g in zip(pos, fs):
            full[p] = _wrap_neg(g(s)[0], r._dims[p])
        return f(tuple(full))

    return STensor.new(dims, fn, r.dtype)


def check_adv_range(k, n):
    idx = tuple(t.atom(t.fresh_index(d, "q")) if d is not ONE else ZERO for d in k._dims)
    v = k._read()(idx)[0]
    goal = band(t.le(neg(n), v), t.lt(v, n))
    E.obligation("advanced index in range", goal=goal, implicit=True, budget=5.0)


def mask_get(x, keys):
    if not (isinstance(keys[0], STensor) and keys[0].dtype is bool_ and all(isinstance(k, slice) and k == slice(None) for k in keys[1:])):
        raise Unsupported("boolean mask combined with other indices")
    m = keys[0]
    for a, b in zip(m._dims, x._dims):
        if not same_dim(a, b):
            raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
    return Masked(m._dims, m._read(), x._read(), x._dims[m.dim() :], x.dtype)


def setitem(x, key, val):
    keys = _norm_key(x, key)
    if isinstance(x, STensor) and any(isinstance(k, STensor) and k.dtype is bool_ and k.dim() > 0 for k in keys):
        return mask_set(x, keys, val)
    # resolve basic part to a view
    r = x
    d = 0
    adv = []
    for k in keys:
        if k is None:
            r = r.unsqueeze(d)
            d += 1
        elif isinstance(k, slice):
            n = r._dims[d]
            if not (k.start is None and k.stop is None and k.step is None):
                st, sp, size = slice_bounds(n, k)
                r = r._view(VSlice(d, st, sp, size), r._dims[:d] + [size] + r._dims[d + 1 :])
            d += 1
        elif _is_adv(k):
            kt = _adv_tensor(k)
            if kt.dim() == 0:
                r = r._view(VSelect(d, norm_index(kt, r._dims[d])), r._dims[:d] + r._dims[d + 1 :])
            else:
                adv.append((d, kt))
                d += 1
        else:
            r = r._view(VSelect(d, norm_index(k, r._dims[d])), r._dims[:d] + r._dims[d + 1 :])
    if isinstance(val, Masked):
        raise Unsupported("assignment of a mask selection")
    if not adv:
        if isinstance(val, STensor):
            v = val
            while v.dim() > r.dim() and v._dims[0] is ONE:
                v = v[0]
            r.copy_(v)
        else:
            r.fill_(val)
        return
    sh, pos, before, after = _adv_plan(r, adv)
    for p, k in adv:
        check_adv_range(k, r._dims[p])
    fs = [bread(k, sh) for _, k in adv]
    dims = [r._dims[k] for k in before] + sh + [r._dims[k] for k in after]
    nb, ns = len(before), len(sh)
    v = as_tensor(val)
    if isinstance(val, STensor):
        bs = bcast(v._dims, dims)
        for a, b in zip(bs, dims):
            if not same_dim(a, b):
                raise TorchError("shape mismatch: value tensor cannot be broadcast to indexing result")
    fv = bread(v, dims, r.dtype)
    # element full is written iff exists s: for all p: g_p(s) = full[p]; solvable symbolically when the index
    # tensors hold an injective affine range, otherwise via existential + last-writer choice
    uniform = v.dim() == 0 or all(v._dims[len(v._dims) - len(dims) + nb + k] is ONE if len(v._dims) - len(dims) + nb + k >= 0 else True for k in range(ns))

    def cond(full):
        def g(s):
            return band(*[t.eq(_wrap_neg(f(s)[0], r._dims[p]), full[p]) for f, p in zip(fs, pos)])

        return nest_any(sh, g)

    def value(full):
        if uniform:
            s = tuple(ZERO for _ in sh)
        else:
            s = _solve_adv(sh, fs, pos, full, r)
        idx = tuple(full[k] for k in before) + s + tuple(full[k] for k in after)
        return fv(idx)

    r._write(cond, value)


def nest_any(ns, f):
    return nest(t.anyb, ns, f)


def _solve_adv(sh, fs, pos, full, r):
    """index s with g(s) = full[pos] for single injective index tensors (arange / permutation)."""
    if len(fs) == 1 and len(sh) == 1:
        v = t.fresh_index(sh[0], "w")
        g = fs[0]((t.atom(v),))[0]
        lin = t._linear_in(g, v)
        if lin is not None:
            return (t.scale(sub(full[pos[0]], lin[1]), lin[0]),)
        if len(g.args) == 1 and g.args[0][1] == 1:
            m = g.args[0][0]
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "uf" and m[0][0].args[0] in t.facts.perm:
                a = m[0][0]
                if a.args[2][-1] is t.atom(v):
                    return (t.uf(t.facts.perm[a.args[0]], "I", list(a.args[2][:-1]) + [full[pos[0]]]),)
        if t.is_const(sh[0]):
            n = int(t.cval(sh[0]))
            out = const(0)
            for k in range(n):
                out = ite(t.eq(fs[0]((const(k),))[0], full[pos[0]]), const(k), out)
            return (out,)
    raise Unsupported("scatter-style assignment with a non-injective index")


def mask_set(x, keys, val):
    if not (isinstance(keys[0], STensor) and all(isinstance(k, slice) and k == slice(None) for k in keys[1:])):
        raise Unsupported("boolean mask combined with other indices")
    m = keys[0]
    for a, b in zip(m._dims, x._dims):
        if not same_dim(a, b):
            raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
    nm = m.dim()
    fm = m._read()
    if isinstance(val, Masked):
        # same selection?
        for a, b in zip(val.mdims, m._dims):
            if not same_dim(a, b):
                raise Unsupported("assignment between different selections")
        idx = tuple(t.atom(t.fresh_index(d, "q")) for d in m._dims)
        same = t.biff(fm(idx)[0], val.mask(idx)[0])
        if not E.obligation("mask selection and mask assignment agree", goal=same, implicit=True):
            pass
        tmp = STensor.new(val.mdims + val.tail, val.fn, val.dtype)
        fv = bread(tmp, x._dims, x.dtype)
        x._write(lambda i: fm(i[:nm])[0], fv)
        return
    v = as_tensor(val)
    if not all(d is ONE for d in v._dims):
        raise Unsupported("masked assignment of a non-scalar tensor")
    e = elem(v, x.dtype)
    x._write(lambda i: fm(i[:nm])[0], lambda i: e)


# ------------------------------------------------------------------ factories
def _shape_args(size, kw_size=None):
    if kw_size is not None:
        size = (kw_size,)
    if len(size) == 1 and isinstance(size[0], MaskShape):
        return size[0]
    return [pdim(x) for x in flat_shape(size)]


def _mkfull(dims, e, dtype):
    if isinstance(dims, MaskShape):
        m = dims.m
        return Masked(m.mdims, m.mask, lambda i: e, m.tail, dtype)
    return STensor.new(dims, lambda i: e, dtype)


def zeros(*size, dtype=None, device=None, requires_grad=False, **k):
    r = _mkfull(_shape_args(size, k.get("size")), (ZERO, FALSE) if dtype is not bool_ else (FALSE, FALSE), _dt(dtype) or _default[0])
    r.requires_grad = requires_grad
    return r


def ones(*size, dtype=None, device=None, requires_grad=False, **k):
    r = _mkfull(_shape_args(size, k.get("size")), (ONE, FALSE) if dtype is not bool_ else (TRUE, FALSE), _dt(dtype) or _default[0])
    r.requires_grad = requires_grad
    return r


def _dt(d):
    if d is None or isinstance(d, DType):
        return d
    n = getattr(d, "__name__", str(d))
    if "int" in n:
        return int64
    if "float" in n:
        return float64 if n.endswith("64") else _default[0]
    if "bool" in n:
        return bool_
    raise Unsupported(f"dtype {d}")


def full(size, fill_value, dtype=None, **k):
    dt = _dt(dtype) or (scalar_dtype(fill_value) if not isinstance(fill_value, STensor) else fill_value.dtype)
    return _mkfull([pdim(x) for x in flat_shape((size,))], elem(fill_value, dt), dt)


_uninit = [0]


def empty(*size, dtype=None, device=None, requires_grad=False, **k):
    dt = _dt(dtype) or _default[0]
    dims = _shape_args(size, k.get("size"))
    name = t.fresh_name("uninit")
    if dt is bool_:
        return STensor.new(dims, lambda i: (t.uf(name, "B", list(i)), FALSE), dt)
    return STensor.new(dims, lambda i: (t.uf(name, "R" if dt.is_floating_point else "I", list(i)), FALSE), dt)


def zeros_like(x, dtype=None, **k):
    return zeros(*x.shape, dtype=dtype or x.dtype) if not isinstance(x, Masked) else zeros(x.shape, dtype=x.dtype)


def ones_like(x, dtype=None, **k):
    return ones(*x.shape, dtype=dtype or x.dtype)


def empty_like(x, dtype=None, **k):
    return empty(*x.shape, dtype=dtype or x.dtype)


def full_like(x, v, dtype=None, **k):
    return full(tuple(x.shape), v, dtype=dtype or x.dtype)


def arange(*a, start=None, end=None, step=1, dtype=None, device=None, **k):
    if len(a) == 1:
        start, end = 0, a[0]
    elif len(a) == 2:
        start, end = a
    elif len(a) == 3:
        start, end, step = a
    if start is None:
        start = 0
    s, e, p = P(start), P(end), P(step)
    isint = all(t.is_int(x) for x in (s, e, p)) and not any(isinstance(x, float) for x in (start, end, step))
    if p is ONE:
        n = sub(e, s)
        if not t.is_int(n):
            n = t.ceil(n)
        if not t.nonneg(n) and not E.decide(t.le(ZERO, n)):
            raise TorchError("arange: upper bound smaller than lower bound")
    else:
        n = t.ceil(t.div_real(sub(e, s), p))
    return STensor.new([n], lambda i: (add(s, mul(i[0], p)), FALSE), _dt(dtype) or (int64 if isint else _default[0]))


def linspace(a, b, n, **k):
    a_, b_, n_ = P(a), P(b), P(n)
    return STensor.new([n_], lambda i: (add(a_, mul(i[0], t.div_real(sub(b_, a_), sub(n_, ONE)))), FALSE), _default[0])


def eye(n, m=None, dtype=None, **k):
    n_ = P(n)
    m_ = n_ if m is None else P(m)
    return STensor.new([n_, m_], lambda i: (ind(t.eq(i[0], i[1])), FALSE), dtype or _default[0])


class SymList:
    """List produced by a comprehension over symbolic ranges: element as a function of the (flattened) position."""

    def __init__(self, ranges, vars_, elt):
        self.ranges, self.vars, self.elt = ranges, vars_, elt

    @property
    def n(self):
        return t.prod(self.ranges)

    def sub_at(self, pos):
        """element at flattened position pos"""
        mp = {}
        rest = pos
        suffix = [ONE]
        for r in reversed(self.ranges):
            suffix.append(mul(suffix[-1], r))
        suffix = list(reversed(suffix))[1:]
        for k, (v, s) in enumerate(zip(self.vars, suffix)):
            if k == len(self.vars) - 1:
                mp[v] = rest
            else:
                q = t.idiv(rest, s)
                mp[v] = q
                rest = sub(rest, mul(q, s))
        return subst_obj(self.elt, mp)

    def __len__(self):
        raise Unsupported("len() of a list over a symbolic range")

    def __iter__(self):
        raise Unsupported("iteration over a list built from a symbolic range")

    def __eq__(self, o):
        if isinstance(o, SortedList):
            return o == self
        if isinstance(o, SymList):
            if not E.decide(t.eq(self.n, o.n)):
                return False
            return wrapb(t.allb(self.n, lambda i: t.eq(_int_elt(self, i), _int_elt(o, i))))
        raise Unsupported("comparison of a list built from a symbolic range")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else wrapb(t.bnot(r.b))

    __hash__ = None


def _int_elt(l, i):
    e = l.sub_at(i)
    if isinstance(e, STensor) and e.dim() == 0:
        e = e.item()
    if not (isinstance(e, int) or isinstance(e, SymNum) and e.isint):
        raise Unsupported("list of something else than integers")
    return P(e)


class SymConcat(SymList):
    """one list after another (elements, or symbolic lists)"""

    def __init__(self, parts, made=None):
        self.parts, self.made = parts, made
        self.elt = parts[0].elt

    @property
    def n(self):
        return t.add(*[p.n for p in self.parts])

    def sub_at(self, pos):
        e, off = None, t.ZERO
        offs = []
        for p in self.parts:
            offs.append(off)
            off = add(off, p.n)
        for p, o in reversed(list(zip(self.parts, offs))):
            x = P(p.sub_at(sub(pos, o))) if not isinstance(p.elt, STensor) else P(p.sub_at(sub(pos, o)).item())
            e = x if e is None else t.ite(t.lt(pos, add(o, p.n)), x, e)
        return wrap(e, True)


class SortedList:
    """sorted(l) for a symbolic list l of integers, comparable with 0, 1, ..., m-1: equal exactly when l has m elements, all of them
    in range and pairwise different"""

    def __init__(self, l):
        self.l = l
        self.n = l.n
        v = t.fresh_index(l.n, "o")
        e = _int_elt(l, t.atom(v))
        a = e.args[0][0][0][0] if len(e.args) == 1 and len(e.args[0][0]) == 1 and e.args[0][1] == 1 else None
        ok = e is t.atom(v)
        if a is not None and a.op == "uf" and a.args[0] in t.facts.perm and len(a.args[2]) == 1 and a.args[2][0] is t.atom(v):
            hi = t.facts.hi[a.args[0]]
            hi = hi(*a.args[2]) if callable(hi) else hi
            ok = t.prove(t.eq(add(hi, t.ONE), l.n))
        self.perm = ok  # l is known to be a permutation of 0..n-1

    def is_range(self, m):
        """sorted(l) == [0, ..., m-1]"""
        if self.perm:
            return t.eq(self.n, m)
        inside = t.allb(self.n, lambda i: t.band(t.le(t.ZERO, _int_elt(self.l, i)), t.lt(_int_elt(self.l, i), m)))
        distinct = t.allb(self.n, lambda i: t.allb(self.n, lambda k: t.bor(t.eq(i, k), t.bnot(t.eq(_int_elt(self.l, i), _int_elt(self.l, k))))))
        return t.band(t.eq(self.n, m), inside, distinct)

    def as_range(self):
        if not self.perm:
            raise Unsupported("elements of a sorted symbolic list")
        v = t.fresh_index(self.n, "o")
        return SymList([self.n], [v], wrap(t.atom(v), True))

    def __eq__(self, o):
        if self.perm:
            if isinstance(o, SortedList):
                o = o.as_range()
            return self.as_range() == o
        if isinstance(o, SymList) and o.n is not None:
            v = t.fresh_index(o.n, "o")
            if _int_elt(o, t.atom(v)) is t.atom(v):
                return wrapb(self.is_range(o.n))
        raise Unsupported("comparison of a sorted symbolic list")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else wrapb(t.bnot(r.b))

    __hash__ = None


def subst_obj(o, mp):
    if isinstance(o, SymNum):
        return wrap(t.subst(o.p, mp), o.isint)
    if isinstance(o, SymBool):
        return wrapb(t.subst(o.b, mp))
    if isinstance(o, (tuple, list)):
        return type(o)(subst_obj(x, mp) for x in o)
    if isinstance(o, STensor):
        f = o._read()
        return STensor.new(
            [t.subst(d, mp) for d in o._dims],
            lambda i: tuple(t.subst(x, mp) for x in f(i)),
            o.dtype,
        )
    return o


def tensor(v, dtype=None, device=None, requires_grad=False, **k):
    r = _tensor(v, _dt(dtype))
    r.requires_grad = requires_grad
    return r


def _tensor(v, dtype):
    if isinstance(v, STensor):
        return v.clone().to(dtype) if dtype else v.clone()
    if isinstance(v, SymList):
        probe = _tensor(v.elt, dtype)
        dims = [v.n] + probe._dims

        def fn(i):
            e = v.sub_at(i[0])
            x = _tensor(e, probe.dtype)
            return x._read()(i[1:])

        return STensor.new(dims, fn, probe.dtype)
    if type(v).__name__ == "SArray":
        return _tensor(v.to_nested(), dtype)
    if type(v).__module__ == "numpy" and hasattr(v, "tolist"):
        return _tensor(v.tolist(), dtype)
    if isinstance(v, (list, tuple)):
        parts = [_tensor(x, dtype) for x in v]
        if not parts:
            return STensor.new([ZERO], lambda i: (ZERO, FALSE), dtype or _default[0])
        dt = dtype or reduce(lambda a, b: promote(a, b), [p.dtype for p in parts])
        parts = [p.to(dt) for p in parts]
        return stack(parts)
    dt = dtype or scalar_dtype(v)
    e = elem(v, dt)
    if not dt.is_floating_point and dt is not bool_ and not t.is_int(e[0]):
        e = (trunc(e[0]), FALSE)
    return STensor.new([], lambda i: e, dt)


def stack(ts, dim=0):
    if isinstance(ts, SymList):
        probe = ts.elt
        d = probe._d(dim, 1)
        dims = probe._dims[:d] + [ts.n] + probe._dims[d:]
        return STensor.new(dims, lambda i: ts.sub_at(i[d])._read()(i[:d] + i[d + 1 :]), probe.dtype)
    ts = list(ts)
    if not ts:
        raise TorchError("stack expects a non-empty TensorList")
    d = ts[0]._d(dim, 1)
    for x in ts[1:]:
        if x.dim() != ts[0].dim():
            raise TorchError("stack expects each tensor to be equal size")
        for a, b in zip(x._dims, ts[0]._dims):
            if not same_dim(a, b):
                raise TorchError("stack expects each tensor to be equal size")
    return cat([x.unsqueeze(d) for x in ts], d)


def cat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    if isinstance(ts, SymList):
        raise Unsupported("cat over a symbolic list")
    ts = [x for x in ts if not (x.dim() == 1 and x._dims[0] is ZERO)] or list(ts)[:1]
    d = ts[0]._d(dim)
    dt = reduce(lambda a, b: promote(a, b), [x.dtype for x in ts])
    for x in ts[1:]:
        if x.dim() != ts[0].dim():
            raise TorchError("Tensors must have same number of dimensions")
        for k in range(x.dim()):
            if k != d and not same_dim(x._dims[k], ts[0]._dims[k]):
                raise TorchError(f"Sizes of tensors must match except in dimension {d}")
    fs = [bread(x, x._dims, dt) for x in ts]
    total = t.add(*[x._dims[d] for x in ts])
    offs = [ZERO]
    for x in ts:
        offs.append(add(offs[-1], x._dims[d]))

    def fn(i):
        out = None
        for k in reversed(range(len(ts))):
            if out is None:
                out = lambda i=i, k=k: fs[k](i[:d] + (sub(i[d], offs[k]),) + i[d + 1 :])
                continue
            prev = out

            def out(k=k, prev=prev):
                c = t.lt(i[d], offs[k + 1])
                if c is TRUE:
                    return fs[k](i[:d] + (sub(i[d], offs[k]),) + i[d + 1 :])
                if c is FALSE:
                    return prev()
                a, na = fs[k](i[:d] + (sub(i[d], offs[k]),) + i[d + 1 :])
                b, nb = prev()
                if dt is bool_:
                    return (t.bite(c, a, b), FALSE)
                return (ite(c, a, b), t.bite(c, na, nb))

        return out()

    r = STensor.new(ts[0]._dims[:d] + [total] + ts[0]._dims[d + 1 :], fn, dt)
    r.requires_grad = any(x.requires_grad for x in ts)
    return r


concat = cat


def _lgamma(x):
    """the log gamma function; at 1, 2, ..., 300 log((x - 1)!)"""
    if t.is_const(x):
        c = t.cval(x)
        if c == int(c) and 1 <= c <= 300:
            return t.log(t.const(_math.factorial(int(c) - 1)))
    return t.func("lgamma", x)


def _tolist(x):
    if x.dim() == 0:
        return x.item()
    n = x.shape[0]
    if isinstance(n, SymNum):
        f = x._read()
        v = t.fresh_index(P(n), "t")
        return SymList([P(n)], [v], _tolist(x[wrap(t.atom(v), True)]))
    return [_tolist(x[i]) for i in range(n)]


# ------------------------------------------------------------------ randomness
def _draw(kind, dims, dtype, sort="R", setup=None):
    sid = E.advance()
    name = f"{kind}@{sid}"
    lv = E.loop_atoms()
    if kind == "rand":
        t.facts.pos.add(name)
        t.facts.lo[name] = ZERO
        t.facts.hi[name] = t.const(1 - 2.0 ** -53)
    if setup:
        setup(name)
    if isinstance(dims, MaskShape):
        m = dims.m
        return Masked(m.mdims, m.mask, lambda i: (t.uf(name, sort, lv + list(i)), FALSE), m.tail, dtype)
    r = STensor.new(dims, lambda i: (t.uf(name, sort, lv + list(i)), FALSE), dtype)
    if kind == "rand":
        E.uniforms.append((r._dims, r._read()))
    return r


def rand(*size, dtype=None, device=None, generator=None, requires_grad=False, **k):
    return _draw("rand", _shape_args(size, k.get("size")), dtype or _default[0])


def randn(*size, dtype=None, device=None, generator=None, requires_grad=False, **k):
    return _draw("randn", _shape_args(size, k.get("size")), dtype or _default[0])


def rand_like(x, dtype=None, **k):
    return rand(*x.shape, dtype=dtype or x.dtype) if not isinstance(x, Masked) else rand(x.shape)


def randn_like(x, dtype=None, **k):
    return randn(*x.shape, dtype=dtype or x.dtype)


def randint(*a, size=None, dtype=None, **k):
    a = list(a)
    if size is None:
        size = a.pop()
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    lo_, hi_ = P(lo), P(hi)

    def setup(n):
        t.facts.lo[n] = lo_
        t.facts.hi[n] = sub(hi_, ONE)

    return _draw("randint", [pdim(x) for x in flat_shape((size,))], int64, "I", setup)


def normal(mean, std=None, size=None, **k):
    if isinstance(mean, STensor):
        return mean + randn_like(mean) * std
    if isinstance(std, STensor):
        return mean + randn_like(std) * std
    return randn(*size) * std + mean


def bernoulli(p, **k):
    return (rand_like(p) < p).to(p.dtype)


def declare_perm(name, n):
    """name is a permutation of range(n) (last argument) with inverse name^-1"""
    inv = name + "^-1"
    t.facts.perm[name] = inv
    t.facts.perm[inv] = name
    for x in (name, inv):
        t.facts.lo[x] = ZERO
        t.facts.hi[x] = (lambda *a: sub(n(*a), ONE)) if callable(n) else (lambda *a: sub(n, ONE))
    return inv


def randperm(n, dtype=None, device=None, generator=None, **k):
    n_ = P(n)
    sid = E.advance()
    name = f"perm@{sid}"
    lv = E.loop_atoms()
    declare_perm(name, n_)
    return STensor.new([n_], lambda i: (t.uf(name, "I", lv + [i[0]]), FALSE), int64)


def bincount(x, weights=None, minlength=0):
    """counts of 0..minlength-1 (every entry is below minlength)"""
    if weights is not None or x.dim() != 1:
        raise Unsupported("weighted bincount")
    n, m = x._dims[0], P(minlength)
    f = x._read()
    k = t.fresh_index(n, "o")
    if not t.prove(t.lt(f((t.atom(k),))[0], m)):
        raise Unsupported("bincount of unknown length")
    return STensor.new([m], lambda i: (t.summ(n, lambda r: t.ite(t.eq(f((r,))[0], i[0]), ONE, ZERO)), FALSE), int64)


def _const_vector(x):
    """entries of a vector whose length and entries are all literal numbers, else None"""
    if len(x._dims) != 1 or not t.is_const(x._dims[0]):
        return None
    f = x._read()
    out = []
    for k in range(int(t.cval(x._dims[0]))):
        v, m = f((t.const(k),))
        if not t.is_const(v) or m is not FALSE:
            return None
        out.append(t.cval(v))
    return out


def argsort(x, dim=-1, descending=False, stable=False):
    d = x._d(dim)
    c = _const_vector(x)
    if c is not None:
        o = sorted(range(len(c)), key=lambda k: -c[k] if descending else c[k])
        return tensor(o, dtype=int64)
    if descending:
        raise Unsupported("descending argsort")
    v = t.fresh_index(x._dims[d], "o")
    idx = tuple(t.atom(t.fresh_index(n, "o")) for n in x._dims)
    idx = idx[:d] + (t.atom(v),) + idx[d + 1 :]
    g = x._read()(idx)[0]
    if len(g.args) == 1 and g.args[0][1] == 1:
        m = g.args[0][0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "uf":
            a = m[0][0]
            if a.args[0] in t.facts.perm and a.args[2][-1] is t.atom(v):
                inv = t.facts.perm[a.args[0]]
                f = x._read()

                def fn(i):
                    q = f(i)[0].args[0][0][0][0]
                    return (t.uf(inv, "I", list(q.args[2][:-1]) + [i[d]]), FALSE)

                return STensor.new(x._dims, fn, int64)
    lin = t._linear_in(g, v)
    if lin is not None and lin[0] == 1 and not lin[1].args:
        return STensor.new(x._dims, lambda i: (i[d], FALSE), int64)
    raise Unsupported("argsort of a general tensor")


# ------------------------------------------------------------------ einsum / conv / pad / one_hot
def einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    eq = eq.replace(" ", "")
    if "..." in eq:
        raise Unsupported("einsum ellipsis")
    if "->" in eq:
        lhs, out = eq.split("->")
    else:
        lhs = eq
        cnt = {}
        for ch in lhs.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise TorchError("einsum(): wrong number of operands")
    dims = {}
    one = {}
    for s, o in zip(ins, ops):
        if len(s) != o.dim():
            raise TorchError("einsum(): subscripts do not match operand dims")
        for ch, d in zip(s, o._dims):
            if ch in dims and dims[ch] is not ONE and d is not ONE:
                if not same_dim(dims[ch], d):
                    if E.decide(t.eq(d, ONE)):
                        continue
                    raise TorchError(f"einsum(): operands do not broadcast for subscript {ch}")
            elif ch not in dims or dims[ch] is ONE:
                dims[ch] = d
    red = []
    for s in ins:
        for ch in s:
            if ch not in out and ch not in red:
                red.append(ch)
    fs = [o._read() for o in ops]
    odims = [o._dims for o in ops]
    dt = reduce(lambda a, b: promote(a, b), [o.dtype for o in ops])

    def fn(idx):
        env = dict(zip(out, idx))

        def body(r):
            e = dict(env)
            e.update(zip(red, r))
            v = ONE
            n = FALSE
            for s, f, od in zip(ins, fs, odims):
                x, nx = f(tuple(ZERO if d is ONE else e[ch] for ch, d in zip(s, od)))
                v = mul(v, x)
                n = bor(n, nx)
            return v, n

        ns = [dims[c] for c in red]
        return (nest(t.summ, ns, lambda r: body(r)[0]), nest(t.anyb, ns, lambda r: body(r)[1]))

    return STensor.new([dims[c] for c in out], fn, dt)


def pad(x, pad, mode="constant", value=0):
    pads = list(pad)
    nd = x.dim()
    lo = [ZERO] * nd
    hi = [ZERO] * nd
    for k in range(len(pads) // 2):
        d = nd - 1 - k
        lo[d], hi[d] = P(pads[2 * k]), P(pads[2 * k + 1])
    f = x._read()
    D = x._dims
    dims = [add(D[k], lo[k], hi[k]) for k in range(nd)]
    if mode in ("reflect", "replicate", "circular"):
        if mode == "replicate":
            def fn(i):
                out = []
                for k in range(nd):
                    j = sub(i[k], lo[k])
                    if lo[k] is ZERO and hi[k] is ZERO:
                        out.append(i[k]); continue
                    out.append(ite(t.lt(j, ZERO), ZERO, ite(t.lt(j, D[k]), j, sub(D[k], ONE))))
                return f(tuple(out))
        elif mode == "reflect":
            def fn(i):
                out = []
                for k in range(nd):
                    j = sub(i[k], lo[k])
                    if lo[k] is ZERO and hi[k] is ZERO:
                        out.append(i[k]); continue
                    out.append(ite(t.lt(j, ZERO), t.neg(j), ite(t.lt(j, D[k]), j, sub(sub(add(D[k], D[k]), const(2)), j))))
                return f(tuple(out))
        else:
            raise Unsupported("pad mode " + mode)
        return STensor.new(dims, fn, x.dtype)
    e = elem(value, x.dtype)

    def fn(i):
        c = TRUE
        out = []
        for k in range(nd):
            j = sub(i[k], lo[k])
            out.append(j)
            if lo[k] is not ZERO:
                c = band(c, t.le(ZERO, j))
            if hi[k] is not ZERO:
                c = band(c, t.lt(j, D[k]))
        if c is TRUE:
            return f(tuple(out))
        if c is FALSE:
            return e
        v, n = f(tuple(out))
        return (ite(c, v, e[0]), t.bite(c, n, e[1]))

    return STensor.new(dims, fn, x.dtype)


def convnd(x, w, nd, stride=1, padding=0, groups=1, bias=None, dilation=1):
    """cross-correlation, no padding; depthwise when groups == channels"""
    def tup(v):
        return [P(a) for a in v] if isinstance(v, (tuple, list)) else [P(v)] * nd

    st = tup(stride)
    if padding not in (0, (0,) * nd, [0] * nd) or dilation not in (1, (1,) * nd):
        raise Unsupported("convolution padding/dilation")
    N, C = x._dims[0], x._dims[1]
    O, Ci = w._dims[0], w._dims[1]
    K = w._dims[2:]
    S = x._dims[2:]
    outS = [add(t.idiv(sub(s, k), q), ONE) for s, k, q in zip(S, K, st)]
    # size formula simplification when k == stride and k | s
    for a in range(nd):
        if K[a] is st[a]:
            q, r = t._split_div(S[a], K[a])
            outS[a] = q if not r.args else t.idiv(S[a], K[a])
    f, g = x._read(), w._read()
    G = P(groups)
    if G is ONE:
        if not same_dim(Ci, C):
            raise TorchError("conv: channel mismatch")

        def fn(i):
            n, o, s = i[0], i[1], i[2:]
            return (
                nest(t.summ, [C] + K, lambda r: mul(
                    f((n, r[0]) + tuple(add(mul(a, q), b) for a, q, b in zip(s, st, r[1:])))[0],
                    g((o, r[0]) + r[1:])[0])),
                nest(t.anyb, [C] + K, lambda r: f((n, r[0]) + tuple(add(mul(a, q), b) for a, q, b in zip(s, st, r[1:])))[1]),
            )
    else:
        if not (known_eq(G, C) and Ci is ONE and known_eq(O, C)):
            raise Unsupported("grouped convolution other than depthwise")

        def fn(i):
            n, o, s = i[0], i[1], i[2:]
            return (
                nest(t.summ, list(K), lambda r: mul(
                    f((n, o) + tuple(add(mul(a, q), b) for a, q, b in zip(s, st, r)))[0], g((o, ZERO) + r)[0])),
                nest(t.anyb, list(K), lambda r: f((n, o) + tuple(add(mul(a, q), b) for a, q, b in zip(s, st, r)))[1]),
            )

    out = STensor.new([N, O] + outS, fn, x.dtype)
    if bias is not None:
        out = out + bias.view(1, -1, *([1] * nd))
    return out


def one_hot(x, num_classes=-1):
    if num_classes == -1:
        # classes = max + 1; determined when the maximum is attained structurally
        n = _declared_max(x)
    else:
        n = P(num_classes)
    f = x._read()
    return STensor.new(x._dims + [n], lambda i: (ind(t.eq(f(i[:-1])[0], i[-1])), FALSE), int64)


def _declared_max(x):
    """max + 1 for index tensors such as arange(S).repeat_interleave(S)"""
    best = None
    vs = [t.fresh_index(d, "o") for d in x._dims]
    g = x._read()(tuple(t.atom(v) for v in vs))[0]
    # upper bound by monotone substitution
    ub = g
    for v in vs:
        a = [at for m, _ in ub.args for at, _ in m if v in at.fv]
    cand = set()
    for m, _ in g.args:
        for a, _ in m:
            cand.add(a)
    for d in x._dims:
        pass
    # try: every dimension-like polynomial c for which 0<=g<c is provable and g=c-1 attained
    pool = []
    for d in x._dims:
        pool.append(d)
        c_, mono, prim = t.factor(d) if d.args else (0, {}, ONE)
        for a in mono:
            pool.append(t.atom(a))
    for d in x._dims:
        n = t.cval(d) if t.is_const(d) else None
        if n is not None and 0 < n <= 4096:
            pool += [const(k) for k in range(1, int(n) + 1) if n % k == 0]
    for c in pool:
        if t.nonneg(sub(sub(c, ONE), g)) or t.prove(t.le(g, sub(c, ONE))):
            # attained?
            last = t.subst(g, {v: sub(d, ONE) for v, d in zip(vs, x._dims)})
            if last is sub(c, ONE) or t.prove(t.eq(last, sub(c, ONE))):
                return c
    raise Unsupported("one_hot without num_classes")


def logsumexp(x, dim, keepdim=False):
    return x.logsumexp(dim, keepdim)
