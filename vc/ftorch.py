"""Stand-in `torch` package for the symbolic run: nn.Module machinery, distributions and the functional namespace.

Every function below is an assumed contract on a dependency (listed in the evidence as trusted base)."""
import sys
import types
import contextlib
import functools

from . import terms as t
from . import storch as S
from .engine import E
from .storch import STensor, Size, as_tensor, DType, Device, TorchError, _draw, unop, binop
from .sym import SymBool, SymNum, P, num, tobool, wrap, wrapb
from .terms import FALSE, ONE, TRUE, ZERO, Unsupported, add, band, bnot, bor, const, ind, ite, mul, neg, sub


class Auto(types.ModuleType):
    """A module whose missing attributes raise Unsupported only when used."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self.__name__}.{n}")


class MissingMeta(type):
    pass


class Missing:
    """Placeholder of a dependency that has no contract; using it leaves the verifier's reach."""

    def __init__(self, name="missing"):
        object.__setattr__(self, "_name", name)

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__name__",):
            raise AttributeError(n)
        return Missing(f"{self._name}.{n}")

    def __call__(self, *a, **k):
        raise Unsupported(f"no contract for {self._name}")

    def __mro_entries__(self, bases):
        return (object,)

    def __instancecheck__(self, x):
        return False

    def __or__(self, o):
        return object

    __ror__ = __or__

    def __getitem__(self, i):
        return self

    def __iter__(self):
        raise Unsupported(f"no contract for {self._name}")


# ------------------------------------------------------------------ nn
class Parameter(STensor):
    def __init__(self, data=None, requires_grad=True):
        if data is None:
            data = S.empty(0)
        d = as_tensor(data)
        super().__init__(d._st, d._views, d._dims, d.dtype, d._contig)
        self.requires_grad = requires_grad

    def __deepcopy__(self, m):
        return Parameter(self.clone(), self.requires_grad)


class Module:
    training = True

    def __init__(self, *a, **k):
        object.__setattr__(self, "_parameters", {})
        object.__setattr__(self, "_buffers", {})
        object.__setattr__(self, "_modules", {})
        self.training = True

    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, Parameter):
            if "_parameters" not in d:
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            for x in (d, d["_buffers"], d["_modules"]):
                x.pop(k, None)
            d["_parameters"][k] = v
            return
        if "_parameters" in d and k in d["_parameters"]:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v)}' as parameter '{k}' (torch.nn.Parameter or None expected)")
            d["_parameters"][k] = v
            return
        if isinstance(v, Module):
            if "_modules" not in d:
                raise AttributeError("cannot assign module before Module.__init__() call")
            for x in (d, d["_parameters"], d["_buffers"]):
                x.pop(k, None)
            d["_modules"][k] = v
            return
        if "_buffers" in d and k in d["_buffers"]:
            d["_buffers"][k] = v
            return
        object.__setattr__(self, k, v)

    def __getattr__(self, k):
        for x in ("_parameters", "_buffers", "_modules"):
            d = self.__dict__.get(x)
            if d is not None and k in d:
                return d[k]
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{k}'")

    def __delattr__(self, k):
        for x in ("_parameters", "_buffers", "_modules"):
            if k in self.__dict__.get(x, {}):
                del self.__dict__[x][k]
                return
        object.__delattr__(self, k)

    def register_buffer(self, name, tensor, persistent=True):
        if hasattr(self, name) and name not in self._buffers:
            raise KeyError(f"attribute '{name}' already exists")
        self._buffers[name] = tensor

    def register_parameter(self, name, p):
        self._parameters[name] = p

    def register_module(self, name, m):
        self._modules[name] = m

    add_module = register_module

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def forward(self, *a, **k):
        raise NotImplementedError("forward")

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def named_children(self):
        return iter([(k, m) for k, m in self._modules.items() if m is not None])

    def named_modules(self, memo=None, prefix=""):
        memo = set() if memo is None else memo
        if id(self) in memo:
            return
        memo.add(id(self))
        yield prefix, self
        for k, m in self._modules.items():
            if m is not None:
                yield from m.named_modules(memo, prefix + ("." if prefix else "") + k)

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def named_parameters(self, recurse=True):
        for pre, m in self.named_modules() if recurse else [("", self)]:
            for k, p in m._parameters.items():
                if p is not None:
                    yield (pre + "." if pre else "") + k, p

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse):
            yield p

    def named_buffers(self, recurse=True):
        for pre, m in self.named_modules() if recurse else [("", self)]:
            for k, p in m._buffers.items():
                if p is not None:
                    yield (pre + "." if pre else "") + k, p

    def buffers(self, recurse=True):
        for _, b in self.named_buffers(recurse):
            yield b

    def train(self, mode=True):
        for m in self.modules():
            m.training = mode
        return self

    def eval(self):
        return self.train(False)

    def apply(self, fn):
        for c in self.children():
            c.apply(fn)
        fn(self)
        return self

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    def float(self):
        return self

    def double(self):
        return self

    def requires_grad_(self, b=True):
        for p in self.parameters():
            p.requires_grad = b
        return self

    def zero_grad(self, *a, **k):
        pass

    def state_dict(self):
        r = {}
        for k, p in self.named_parameters():
            r[k] = p.detach()
        for k, p in self.named_buffers():
            r[k] = p
        return r

    def load_state_dict(self, sd, strict=True):
        own = dict(self.named_parameters())
        own.update(self.named_buffers())
        for k, v in sd.items():
            own[k].copy_(v)

    def extra_repr(self):
        return ""

    def __repr__(self):
        return type(self).__name__


class Loss(Module):
    fn = None

    def __init__(self, *a, **k):
        super().__init__()
        self.args = (a, k)

    def forward(self, x, target):
        return sys.modules[__name__].__dict__["LOSSES"][type(self).__name__](x, target, *self.args[0], **self.args[1])


class NLLLoss(Loss):
    pass


class CrossEntropyLoss(Loss):
    pass


LOSSES = {}


class ModuleList(Module):
    def __init__(self, modules=None):
        super().__init__()
        if modules is not None:
            if isinstance(modules, S.SymList):
                raise Unsupported("ModuleList over a symbolic range")
            for i, m in enumerate(modules):
                self._modules[str(i)] = m

    def __iter__(self):
        return iter(list(self._modules.values()))

    def __len__(self):
        return len(self._modules)

    def __getitem__(self, i):
        l = list(self._modules.values())
        if isinstance(i, slice):
            return ModuleList(l[i])
        return l[i.__index__() if not isinstance(i, int) else i]

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def insert(self, i, m):
        l = list(self._modules.values())
        l.insert(i, m)
        self._modules.clear()
        for k, x in enumerate(l):
            self._modules[str(k)] = x

    def __reversed__(self):
        return reversed(list(self._modules.values()))


class Sequential(ModuleList):
    def __init__(self, *a):
        super().__init__(a)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class ModuleDict(Module):
    def __init__(self, d=None):
        super().__init__()
        for k, v in (d or {}).items():
            self._modules[k] = v

    def __getitem__(self, k):
        return self._modules[k]

    def __setitem__(self, k, v):
        self._modules[k] = v

    def items(self):
        return self._modules.items()

    def values(self):
        return self._modules.values()

    def keys(self):
        return self._modules.keys()


class ParameterList(Module):
    def __init__(self, ps=()):
        super().__init__()
        for i, p in enumerate(ps):
            self._parameters[str(i)] = p

    def __iter__(self):
        return iter(self._parameters.values())

    def __getitem__(self, i):
        return list(self._parameters.values())[i]

    def __len__(self):
        return len(self._parameters)


class Linear(Module):
    def __init__(self, i, o, bias=True):
        super().__init__()
        self.in_features, self.out_features = i, o
        self.weight = Parameter(S.randn(o, i))
        self.bias = Parameter(S.randn(o)) if bias else None

    def forward(self, x):
        r = x.matmul(self.weight.transpose(0, 1))
        return r + self.bias if self.bias is not None else r


class Identity(Module):
    def forward(self, x):
        return x


class SiLU(Module):
    def forward(self, x):
        return x * x.sigmoid()


class ReLU(Module):
    def forward(self, x):
        return x.relu()


# ------------------------------------------------------------------ distributions
def _vget(x):
    return as_tensor(x)


def _bshape(*ts):
    return S.bcast(*[x._dims for x in ts])


def _support(name, x, pred):
    """implicit obligation: every entry of x satisfies pred (distribution argument/value validation)"""
    idx = tuple(t.atom(t.fresh_index(d, "q")) if d is not ONE else ZERO for d in x._dims)
    v, nan = x._read()(idx)
    if x.dtype is S.bool_:
        v = ind(v)
    E.obligation(name, goal=band(bnot(nan), pred(v)), implicit=True, budget=5.0)


LOG_SQRT_2PI = None


def log_2pi():
    return t.log(t.mul(const(2), t.atom(t.var("pi", "R"))))


class Distribution:
    arg_constraints = {}
    has_rsample = False

    def _extended(self, sample_shape):
        return [S.pdim(x) for x in S.flat_shape((sample_shape,))] + self._bdims

    @property
    def batch_shape(self):
        return Size([S.dimint(d) for d in self._bdims])

    event_shape = Size()

    def rsample(self, sample_shape=()):
        return self.sample(sample_shape)


class Normal(Distribution):
    def __init__(self, loc, scale, validate_args=None):
        self.loc, self.scale = as_tensor(loc), as_tensor(scale)
        self._bdims = _bshape(self.loc, self.scale)
        if validate_args is not False:
            _support("Normal scale positive", self.scale, lambda v: t.lt(ZERO, v))
        self.loc = self.loc.expand(*[S.dimint(d) for d in self._bdims]) if self.loc._dims != self._bdims else self.loc
        self.scale = self.scale.expand(*[S.dimint(d) for d in self._bdims]) if self.scale._dims != self._bdims else self.scale

    mean = property(lambda s: s.loc)
    mode = property(lambda s: s.loc)
    stddev = property(lambda s: s.scale)
    variance = property(lambda s: s.scale * s.scale)

    def log_prob(self, x):
        x = as_tensor(x)
        _support("Normal value is a number", x, lambda v: TRUE)
        z = (x - self.loc) / self.scale
        half = const("1/2") if False else t.div_real(ONE, const(2))
        c = wrap(t.mul(half, log_2pi()), False)
        return -(z * z) * 0.5 - self.scale.log() - c

    def sample(self, sample_shape=()):
        eps = _draw("randn", self._extended(sample_shape), self.loc.dtype)
        return self.loc + self.scale * eps

    def entropy(self):
        raise Unsupported("entropy")

    def cdf(self, x):
        raise Unsupported("cdf")


class _ProbLogit(Distribution):
    def __init__(self, probs=None, logits=None):
        if (probs is None) == (logits is None):
            raise ValueError("Either `probs` or `logits` must be specified, but not both.")
        self._probs = None if probs is None else as_tensor(probs)
        self._logits = None if logits is None else as_tensor(logits)

    @property
    def probs(self):
        if self._probs is None:
            self._probs = logits_to_probs(self._logits, self.is_binary)
        return self._probs

    @property
    def logits(self):
        if self._logits is None:
            self._logits = probs_to_logits(self._probs, self.is_binary)
        return self._logits


class Bernoulli(_ProbLogit):
    is_binary = True

    def __init__(self, probs=None, logits=None, validate_args=None):
        super().__init__(probs, logits)
        self._bdims = (self._probs if self._probs is not None else self._logits)._dims
        if probs is not None and validate_args is not False:
            _support("Bernoulli probs in [0,1]", self._probs, lambda v: band(t.le(ZERO, v), t.le(v, ONE)))

    @property
    def mean(self):
        return self.probs

    def log_prob(self, x):
        x = as_tensor(x)
        _support("Bernoulli value in {0,1}", x, lambda v: bor(t.eq(v, ZERO), t.eq(v, ONE)))
        p = self.probs
        return x * p.log() + (1 - x) * (1 - p).log()

    def sample(self, sample_shape=()):
        if isinstance(sample_shape, S.MaskShape):
            u = _draw("rand", sample_shape, self.probs.dtype)
            pv = self.probs._scalar()[0]
            f = u.fn
            return S.Masked(u.mdims, u.mask, lambda i: (ind(t.lt(f(i)[0], pv)), FALSE), u.tail, u.dtype)
        u = _draw("rand", self._extended(sample_shape), self.probs.dtype)
        return (u < self.probs).to(self.probs.dtype)


class Binomial(_ProbLogit):
    is_binary = True

    def __init__(self, total_count=1, probs=None, logits=None, validate_args=None):
        super().__init__(probs, logits)
        p = self._probs if self._probs is not None else self._logits
        self.total_count = as_tensor(total_count).to(p.dtype)
        self._bdims = _bshape(self.total_count, p)
        self.total_count = self.total_count.expand(*[S.dimint(d) for d in self._bdims])
        if probs is not None and validate_args is not False:
            _support("Binomial probs in [0,1]", p, lambda v: band(t.le(ZERO, v), t.le(v, ONE)))
        _support("Binomial total_count non-negative", self.total_count, lambda v: t.le(ZERO, v))

    def log_prob(self, x):
        x = as_tensor(x)
        tc = self.total_count._read()(tuple(ZERO for _ in self._bdims))[0]
        _support("Binomial value in {0..n}", x, lambda v: band(t.le(ZERO, v), t.le(v, tc), t.eq(t.floor(v), v)))
        p = self.probs
        n = self.total_count
        lg = n_choose(n, x)
        return lg + x * p.log() + (n - x) * (1 - p).log()

    mean = property(lambda s: s.total_count * s.probs)

    def sample(self, sample_shape=()):
        u = _draw("rand", self._extended(sample_shape), self.probs.dtype)
        name = "qbinom"
        t.facts.lo[name] = ZERO
        t.facts.hi[name] = lambda u, n, p: n
        fu, fp, fn_ = S.bread(u, u._dims), S.bread(self.probs, u._dims), S.bread(self.total_count, u._dims)
        return STensor.new(u._dims, lambda i: (t.uf(name, "I", [fu(i)[0], fn_(i)[0], fp(i)[0]]), FALSE), self.probs.dtype)


def n_choose(n, x):
    n, x = as_tensor(n), as_tensor(x)
    return (n + 1).lgamma() - (x + 1).lgamma() - (n - x + 1).lgamma()


class Categorical(_ProbLogit):
    is_binary = False

    def __init__(self, probs=None, logits=None, validate_args=None):
        super().__init__(probs, logits)
        x = self._probs if self._probs is not None else self._logits
        if x.dim() < 1:
            raise ValueError("`probs` parameter must be at least one-dimensional.")
        if probs is not None:
            self._probs = self._probs / self._probs.sum(-1, keepdim=True)
        else:
            self._logits = self._logits - self._logits.logsumexp(dim=-1, keepdim=True)
        self._bdims = x._dims[:-1]
        self._k = x._dims[-1]
        self._num_events = S.dimint(self._k)

    def log_prob(self, x):
        x = as_tensor(x).long()
        k = self._k
        _support("Categorical value in {0..K-1}", x, lambda v: band(t.le(ZERO, v), t.lt(v, k)))
        dims = S.bcast(x._dims, self._bdims)
        fx = S.bread(x, dims)
        fl = S.bread(self.logits, list(dims) + [k])
        return STensor.new(dims, lambda i: fl(tuple(i) + (fx(i)[0],)), self.logits.dtype)

    def sample(self, sample_shape=()):
        dims = self._extended(sample_shape)
        g = _draw("gumbel", dims + [self._k], S._default[0])
        fg = g._read()
        fl = S.bread(self.logits, dims + [self._k])
        k = self._k

        def fn(i):
            return (t.argmax(k, lambda j: add(fl(tuple(i) + (j,))[0], fg(tuple(i) + (j,))[0])), FALSE)

        return STensor.new(dims, fn, S.int64)


class OneHotCategorical(Categorical):
    def sample(self, sample_shape=()):
        s = super().sample(sample_shape)
        return S.one_hot(s, self._num_events).to(self.logits.dtype)


class Uniform(Distribution):
    def __init__(self, low, high, validate_args=None):
        self.low, self.high = as_tensor(low), as_tensor(high)
        self._bdims = _bshape(self.low, self.high)

    def sample(self, sample_shape=()):
        u = _draw("rand", self._extended(sample_shape), S._default[0])
        return self.low + u * (self.high - self.low)


class Gumbel(Distribution):
    def __init__(self, loc, scale, validate_args=None):
        self.loc, self.scale = as_tensor(loc), as_tensor(scale)
        self._bdims = _bshape(self.loc, self.scale)

    def sample(self, sample_shape=()):
        return self.loc + self.scale * _draw("gumbel", self._extended(sample_shape), S._default[0])


class MultivariateNormal(Distribution):
    """loc [.., K], scale_tril [.., K, K] with a concrete K (forward substitution)."""

    def __init__(self, loc, covariance_matrix=None, precision_matrix=None, scale_tril=None, validate_args=None):
        if scale_tril is None:
            raise Unsupported("MultivariateNormal without scale_tril")
        self.loc, self.scale_tril = as_tensor(loc), as_tensor(scale_tril)
        self._bdims = S.bcast(self.loc._dims[:-1], self.scale_tril._dims[:-2])
        self._k = self.loc._dims[-1]
        self.event_shape = Size([S.dimint(self._k)])

    mean = property(lambda s: s.loc)
    mode = property(lambda s: s.loc)

    def log_prob(self, x):
        if not t.is_const(self._k):
            raise Unsupported("multivariate normal density with a symbolic cardinality")
        K = int(t.cval(self._k))
        x = as_tensor(x)
        _support("MultivariateNormal value is a number", x, lambda v: TRUE)
        d = x - self.loc
        L = self.scale_tril
        zs = []
        for i in range(K):
            r = d[..., i]
            for j in range(i):
                r = r - L[..., i, j] * zs[j]
            zs.append(r / L[..., i, i])
        q = sum((z * z for z in zs[1:]), zs[0] * zs[0])
        ld = sum((L[..., i, i].log() for i in range(1, K)), L[..., 0, 0].log())
        c = wrap(t.scale(log_2pi(), t.Fraction(K, 2)), False)
        return q * (-0.5) - ld - c

    def sample(self, sample_shape=()):
        dims = self._extended(sample_shape) + [self._k]
        eps = _draw("randn", dims, self.loc.dtype)
        fe = eps._read()
        fl = S.bread(self.loc, dims)
        k = self._k
        ft = S.bread(self.scale_tril, dims + [k])

        def fn(i):
            return (
                add(fl(i)[0], t.summ(k, lambda j: mul(ft(tuple(i) + (j,))[0], fe(tuple(i[:-1]) + (j,))[0]))),
                FALSE,
            )

        return STensor.new(dims, fn, self.loc.dtype)


def probs_to_logits(p, is_binary=False):
    p = as_tensor(p)
    if is_binary:
        return p.log() - (1 - p).log()
    return p.log()


def logits_to_probs(l, is_binary=False):
    l = as_tensor(l)
    return l.sigmoid() if is_binary else l.softmax(-1)


# ------------------------------------------------------------------ grad mode / rng
class _GradMode:
    mode = False

    def __init__(self, *a):
        if a:
            self.mode = a[0]

    def __enter__(self):
        self._old = E.grad_enabled
        E.grad_enabled = self.mode
        return self

    def __exit__(self, *a):
        E.grad_enabled = self._old
        return False

    def __call__(self, f):
        @functools.wraps(f)
        def g(*a, **k):
            with type(self)():
                return f(*a, **k)

        return g


class no_grad(_GradMode):
    mode = False

    def __new__(cls, f=None):
        o = object.__new__(cls)
        if f is not None:
            return o(f)
        return o

    def __init__(self, f=None):
        pass


class inference_mode(no_grad):
    pass


class enable_grad(no_grad):
    mode = True


class set_grad_enabled(_GradMode):
    pass


class RngState:
    def __init__(self, s):
        self.s = s

    def clone(self):
        return self

    def __eq__(self, o):
        return isinstance(o, RngState) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


def _seedkey(s):
    return ("seed", s.p.id if isinstance(s, SymNum) else (s.item() if hasattr(s, "item") else s))


class Generator:
    """its own stream: equal seeds give equal draws, and drawing from it leaves the global stream alone"""

    def __init__(self, device=None):
        self.state = ("generator default",)

    def manual_seed(self, s):
        self.state = _seedkey(s)
        return self

    def get_state(self):
        return RngState(self.state)

    def set_state(self, s):
        self.state = s.s
        return self


def drawing(f):
    """honours generator=g"""

    def g(*a, generator=None, **k):
        if generator is None:
            return f(*a, **k)
        outer, E.rng = E.rng, generator.state
        try:
            return f(*a, **k)
        finally:
            generator.state, E.rng = E.rng, outer

    g.__name__ = f.__name__
    return g


def manual_seed(s):
    E.rng = _seedkey(s)
    return None


def get_rng_state():
    return RngState(E.rng)


def set_rng_state(s):
    E.rng = s.s


@contextlib.contextmanager
def fork_rng(devices=None, enabled=True, **k):
    s = E.rng
    try:
        yield
    finally:
        if enabled:
            E.rng = s


# ------------------------------------------------------------------ package assembly
TENSOR_FUNCS = """exp log log2 log1p expm1 sqrt rsqrt sigmoid tanh lgamma sin floor ceil round trunc sign relu clamp isnan isinf isfinite
masked_fill sum nansum mean prod var std any all amax amin max min argmax argmin softmax log_softmax norm cumsum argsort sort topk
unsqueeze squeeze permute transpose movedim reshape flatten gather index_select scatter take_along_dim repeat_interleave flip roll tril triu diag_embed
matmul add sub mul div pow square abs neg logsumexp logaddexp maximum minimum clone detach numel narrow select chunk split unbind
reciprocal masked_select tile diagonal take bmm mm nan_to_num eq ne lt le gt ge logical_not logical_and logical_or""".split()


def build():
    m = {}

    def mod(name, pkg=True):
        x = Auto(name)
        if pkg:
            x.__path__ = []
        m[name] = x
        return x

    torch = mod("torch")
    torch.__version__ = "2.0.0"
    torch.Tensor = STensor
    torch.Size = Size
    torch.dtype = DType
    torch.device = Device
    torch.Generator = Generator
    for n in ("float32", "float64", "float16", "bfloat16", "int64", "int32", "int16", "int8", "uint8"):
        setattr(torch, n, getattr(S, n))
    torch.float, torch.double, torch.half, torch.long, torch.int, torch.bool = S.float32, S.float64, S.float16, S.int64, S.int32, S.bool_
    torch.short, torch.LongTensor, torch.FloatTensor, torch.BoolTensor = S.int16, Missing("LongTensor"), Missing("FloatTensor"), Missing("BoolTensor")
    torch.nan, torch.inf, torch.pi = float("nan"), float("inf"), wrap(t.atom(t.var("pi", "R")), False)
    torch.legacy_contiguous_format = torch.contiguous_format = torch.preserve_format = None
    torch.get_default_dtype = lambda: S._default[0]

    def set_default_dtype(d):
        S._default[0] = d

    torch.set_default_dtype = set_default_dtype
    for n in ("zeros ones full empty zeros_like ones_like empty_like full_like arange linspace eye tensor stack cat concat rand randn rand_like"
              " randn_like randint normal bernoulli randperm where einsum argsort bincount").split():
        setattr(torch, n, getattr(S, n))
    for n in "rand randn rand_like randn_like randint normal bernoulli randperm".split():
        setattr(torch, n, drawing(getattr(S, n)))
    torch.as_tensor = lambda v, dtype=None, device=None: v if isinstance(v, STensor) and dtype is None else S.tensor(v, dtype=dtype)
    torch.from_numpy = lambda v: S.tensor(v)
    torch.scalar_tensor = lambda v, **k: S.tensor(v, **k)
    for n in TENSOR_FUNCS:
        if hasattr(torch, n) and n in torch.__dict__:
            continue

        def f(x, *a, _n=n, **k):
            x = as_tensor(x) if not isinstance(x, S.Masked) else x
            k.pop("out", None)
            if "input" in k:
                k.pop("input")
            return getattr(x, _n)(*a, **k)

        f.__name__ = n
        setattr(torch, n, f)
    torch.concatenate = S.cat
    torch.logical_not = lambda x: ~x.bool()
    torch.logical_and = lambda a, b: a.bool() & b.bool()
    torch.logical_or = lambda a, b: a.bool() | b.bool()
    torch.subtract, torch.multiply, torch.divide, torch.absolute = torch.sub, torch.mul, torch.div, torch.abs
    torch.is_tensor = lambda x: isinstance(x, STensor)
    torch.is_floating_point = lambda x: x.dtype.is_floating_point
    torch.hstack = lambda ts: S.cat(list(ts), 0 if list(ts)[0].dim() == 1 else 1)
    torch.vstack = lambda ts: S.cat(list(ts), 0)
    torch.broadcast_tensors = lambda *ts: tuple(x.expand(*[S.dimint(d) for d in S.bcast(*[y._dims for y in ts])]) for x in ts)
    torch.broadcast_to = lambda x, s: x.expand(*s)
    torch.allclose = Missing("torch.allclose")
    torch.equal = lambda a, b: tequal(a, b)
    torch.numel = lambda x: x.numel()
    torch.diff = lambda x, n=1, dim=-1: x.narrow(dim, 1, x.shape[dim] - 1) - x.narrow(dim, 0, x.shape[dim] - 1)
    torch.trapezoid = torch.trapz = trapezoid
    torch.searchsorted = searchsorted
    torch.bucketize = lambda x, b, right=False, **k: searchsorted(b, x, right=right)
    torch.no_grad, torch.enable_grad, torch.inference_mode, torch.set_grad_enabled = no_grad, enable_grad, inference_mode, set_grad_enabled
    torch.is_grad_enabled = lambda: E.grad_enabled
    torch.manual_seed, torch.get_rng_state, torch.set_rng_state = manual_seed, get_rng_state, set_rng_state
    torch.random = mod("torch.random")
    torch.random.manual_seed, torch.random.get_rng_state, torch.random.set_rng_state, torch.random.fork_rng = manual_seed, get_rng_state, set_rng_state, fork_rng
    torch.unravel_index = unravel_index

    class _Jit(Auto):
        pass

    torch.jit = mod("torch.jit")
    torch.jit.script = lambda f: f

    cuda = torch.cuda = mod("torch.cuda")
    cuda.is_available = lambda: False
    cuda.device_count = lambda: 0
    cuda.manual_seed = cuda.manual_seed_all = lambda s: None
    cuda.get_rng_state = lambda *a: RngState(("cuda",))
    cuda.set_rng_state = lambda *a: None
    torch.backends = mod("torch.backends")
    torch.backends.cudnn = mod("torch.backends.cudnn")

    nn = torch.nn = mod("torch.nn")
    nn.NLLLoss, nn.CrossEntropyLoss = NLLLoss, CrossEntropyLoss
    nn.Module, nn.Parameter, nn.ModuleList, nn.Sequential, nn.Linear, nn.SiLU, nn.ReLU = Module, Parameter, ModuleList, Sequential, Linear, SiLU, ReLU
    nn.ModuleDict, nn.ParameterList, nn.Identity = ModuleDict, ParameterList, Identity
    nn.parameter = mod("torch.nn.parameter")
    nn.parameter.Parameter = Parameter
    nn.modules = mod("torch.nn.modules")
    nn.init = mod("torch.nn.init")

    F = nn.functional = mod("torch.nn.functional")
    F.log_softmax = lambda x, dim=None, dtype=None, **k: x.log_softmax(dim=dim)
    F.softmax = lambda x, dim=None, dtype=None, **k: x.softmax(dim=dim)
    F.pad = S.pad
    F.one_hot = S.one_hot

    def nll_loss(x, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
        if weight is not None or size_average is not None or reduce is not None or x.dim() != 2:
            raise Unsupported("nll_loss with weights")
        r = -x.gather(1, target.unsqueeze(1)).squeeze(1)
        return r.mean() if reduction == "mean" else r.sum() if reduction == "sum" else r

    F.nll_loss = nll_loss
    LOSSES.update(NLLLoss=nll_loss, CrossEntropyLoss=lambda x, target, **k: F.cross_entropy(x, target, **k))
    F.cross_entropy = lambda x, target, reduction="mean", **k: nll_loss(x.log_softmax(dim=1), target, reduction=reduction, **k)
    F.relu = lambda x, inplace=False: x.relu()
    F.sigmoid = lambda x: x.sigmoid()
    F.logsigmoid = lambda x: x.logsigmoid()
    F.tanh = lambda x: x.tanh()
    F.silu = lambda x, inplace=False: x * x.sigmoid()
    F.softplus = lambda x, **k: (x.exp() + 1).log()
    F.conv1d = lambda x, weight=None, bias=None, stride=1, padding=0, dilation=1, groups=1: S.convnd(x, weight, 1, stride, padding, groups, bias, dilation)
    F.conv2d = lambda x, weight=None, bias=None, stride=1, padding=0, dilation=1, groups=1: S.convnd(x, weight, 2, stride, padding, groups, bias, dilation)
    F.conv3d = lambda x, weight=None, bias=None, stride=1, padding=0, dilation=1, groups=1: S.convnd(x, weight, 3, stride, padding, groups, bias, dilation)

    def sum_pool(nd):
        def f(x, kernel_size, stride=None, padding=0, **k):
            if padding:
                raise Unsupported("padded pooling")
            ks = (kernel_size,) * nd if not isinstance(kernel_size, (tuple, list)) else tuple(kernel_size)
            st = ks if stride is None else ((stride,) * nd if not isinstance(stride, (tuple, list)) else tuple(stride))
            C = x.shape[1]
            w = S.ones(C, 1, *ks)
            tot = 1
            for q in ks:
                tot = tot * q
            return S.convnd(x, w, nd, st, 0, C, None, 1) / tot

        return f

    F.avg_pool1d, F.avg_pool2d, F.avg_pool3d = sum_pool(1), sum_pool(2), sum_pool(3)
    F.gumbel_softmax = gumbel_softmax
    F.linear = lambda x, w, b=None: x.matmul(w.transpose(0, 1)) + (b if b is not None else 0)

    d = torch.distributions = mod("torch.distributions")
    for c in (Distribution, Normal, Bernoulli, Binomial, Categorical, OneHotCategorical, Uniform, Gumbel, MultivariateNormal):
        setattr(d, c.__name__, c)
    d.utils = mod("torch.distributions.utils")
    d.utils.probs_to_logits, d.utils.logits_to_probs = probs_to_logits, logits_to_probs
    for n, c in (("normal", Normal), ("bernoulli", Bernoulli), ("binomial", Binomial), ("categorical", Categorical)):
        q = mod("torch.distributions." + n)
        setattr(q, c.__name__, c)
        setattr(d, n, q)

    torch.special = mod("torch.special")
    torch.special.logsumexp = lambda x, dim, keepdim=False: x.logsumexp(dim, keepdim)
    torch.linalg = mod("torch.linalg")

    prof = torch.profiler = mod("torch.profiler")

    class record_function:
        def __init__(self, n):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    prof.record_function = record_function
    torch.autograd = mod("torch.autograd")

    utils = torch.utils = mod("torch.utils")
    data = utils.data = mod("torch.utils.data")

    class Dataset:
        def __class_getitem__(cls, i):
            return cls

    class Sampler(Dataset):
        def __init__(self, data_source=None):
            pass

    class DataLoader(Dataset):
        pass

    class Subset(Dataset):
        def __init__(self, dataset, indices):
            self.dataset, self.indices = dataset, indices

    class TensorDataset(Dataset):
        def __init__(self, *ts):
            self.tensors = ts

    data.Dataset, data.Sampler, data.DataLoader, data.Subset, data.TensorDataset = Dataset, Sampler, DataLoader, Subset, TensorDataset
    data.sampler = mod("torch.utils.data.sampler")
    data.sampler.Sampler = Sampler
    data.dataset = mod("torch.utils.data.dataset")
    data.dataset.Dataset, data.dataset.Subset = Dataset, Subset
    torch.optim = mod("torch.optim")
    torch.optim.lr_scheduler = mod("torch.optim.lr_scheduler")
    return m


def tequal(a, b):
    if a.dim() != b.dim():
        return False
    for x, y in zip(a._dims, b._dims):
        if not S.same_dim(x, y):
            return False
    return bool((a == b).all())


def trapezoid(y, x=None, dx=1, dim=-1):
    n = y.shape[dim]
    a, b = y.narrow(dim, 1, n - 1), y.narrow(dim, 0, n - 1)
    if x is not None:
        w = x.narrow(-1, 1, n - 1) - x.narrow(-1, 0, n - 1)
        return ((a + b) * w * 0.5).sum(dim)
    return ((a + b) * dx * 0.5).sum(dim)


def searchsorted(seq, x, right=False, side=None, **k):
    """number of entries of a sorted sequence that are < x (<= x when right); the precondition 'sorted' is on the caller"""
    if side == "right":
        right = True
    x = as_tensor(x)
    n = seq._dims[-1]
    fs, fx = seq._read(), x._read()
    lead = seq.dim() - 1

    def fn(i):
        v = fx(i)[0]
        pre = tuple(i[:lead])
        cmp = (lambda s: t.le(s, v)) if right else (lambda s: t.lt(s, v))
        return (t.summ(n, lambda j: ind(cmp(fs(pre + (j,))[0]))), FALSE)

    return STensor.new(x._dims, fn, S.int64)


def gumbel_softmax(logits, tau=1, hard=False, eps=1e-10, dim=-1):
    g = _draw("gumbel", logits._dims, logits.dtype)
    y = ((logits + g) / tau).softmax(dim)
    if hard:
        idx = y.max(dim, keepdim=True)[1]
        h = S.zeros_like(logits).scatter_(dim, idx, 1.0)
        return h - y.detach() + y
    return y


def unravel_index(x, shape):
    out = []
    rest = x
    dims = list(shape)
    for k in reversed(range(len(dims))):
        out.append(rest % dims[k])
        rest = rest // dims[k]
    return tuple(reversed(out))
