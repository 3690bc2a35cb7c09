"""Symbolic backend of the contracts: every size and every tensor entry is universally quantified."""
import sys
import time
import traceback
import math
import os

from . import terms as t
from . import prover
from . import storch as S
from . import ftorch
from .engine import E, PathPruned, model_dict
from .loader import Chunk, Loader, vc_float, vc_int
from .sym import SymBool, SymNum, P, is_sym, num, tobool, wrap, wrapb
from .terms import FALSE, ONE, TRUE, ZERO, Unsupported, T


class ContractError(Exception):
    """The contract text itself is wrong."""


def pv(x):
    """any scalar -> polynomial"""
    if isinstance(x, T):
        return x
    if isinstance(x, S.STensor):
        return x._scalar()[0]
    return P(x)


class SymBackend:
    symbolic = True

    def __init__(self, repo="/repo", variant=None, name="", budget=20.0):
        self.loader = Loader(repo)
        self.variant = variant or {}
        self.name = name
        self.ob_budget = budget
        self.torch = self.loader.fakes["torch"]
        self.nobl = 0
        self.bounded = set()
        self.stubbed = set()

    # ---- environment
    def load(self, mod):
        here = os.getcwd()
        try:
            os.chdir(self.loader.repo)  # some modules read files next to them
            return self.loader.load(mod)
        finally:
            os.chdir(here)

    def passes(self, it, n, k):
        """the first k blocks of n consecutive elements of a stream"""
        out = []
        for _ in range(k):
            x = next(it)
            if not isinstance(x, Chunk):
                raise Unsupported("a stream that is not made of whole chunks")
            x = x.tensor if isinstance(x.tensor, S.STensor) else S.tensor(x.tensor)
            self._ob("a pass has as many elements as the dataset", goal=t.eq(x._dims[0], pv(n)))
            out.append(x)
        return out

    def begin(self):
        for k in [k for k, m in sys.modules.items() if getattr(m, "__vc__", None) is self.loader]:
            del sys.modules[k]
        S._default[0] = S.float32
        self._n = {}
        self.noise_seen = None
        self.path_draws = []

    def uname(self, base):
        k = self._n.get(base, 0)
        self._n[base] = k + 1
        return base if k == 0 else f"{base}.{k}"

    def note_bounded(self, why):
        self.bounded.add(why)

    # ---- inputs
    def dim(self, name, lo=1, hi=None, **k):
        v = t.dim_var(name, lo)
        if hi is not None:
            a = v.args[0][0][0][0]
            t.facts.hi[a] = t.const(hi)
        return wrap(v, True)

    integer = dim

    def int_between(self, name, lo, hi):
        """an arbitrary integer in [lo, hi] (hi may be symbolic)"""
        a = t.var(name, "I")
        t.facts.lo[a] = pv(lo)
        t.facts.hi[a] = pv(hi)
        return wrap(t.atom(a), True)

    def real(self, name, lo=None, hi=None, pos=False, lo_open=False):
        a = t.var(name, "R")
        if lo is not None:
            t.facts.lo[a] = t.const(lo)
        if hi is not None:
            t.facts.hi[a] = t.const(hi)
        if pos or (lo_open and lo == 0):
            t.facts.pos.add(a)
        return wrap(t.atom(a), False)

    def choice(self, name, options):
        for k, o in enumerate(options[:-1]):
            b = t._mkb("ufb", (f"choice:{name}={k}", ()))
            if E.decide(b):
                return o
        return options[-1]

    def tensor(self, name, dims, lo=None, hi=None, integer=False, nan=False, dtype=None, pos=False, loglik=False):
        dt = dtype or (S.float32)
        if isinstance(dt, str):
            dt = getattr(S, dt)
        sort = "I" if integer or not dt.is_floating_point else "R"
        if lo is not None:
            t.facts.lo[name] = pv(lo)
        if hi is not None:
            t.facts.hi[name] = pv(hi)
        if pos:
            t.facts.pos.add(name)

        def fn(i):
            return (t.uf(name, sort, list(i)), t.lift_bool(name + "?nan", list(i)) if nan else FALSE)

        return S.STensor.new([pv(d) for d in dims], fn, dt)

    def increasing(self, name, dims):
        """strictly increasing along the last axis (a precondition for the code; the prover does not use it)"""
        return self.tensor(name, dims)

    def below(self, n, fn, x):
        """number of k < n with fn(k) < x"""
        return wrap(t.summ(pv(n), lambda k: t.ind(t.lt(pv(fn(wrap(k, True))), pv(x)))), True)

    def opaque(self, name, x):
        """forget everything about the tensor but its shape (a callee's result, known by its contract only)"""
        name = self.uname("any." + name)
        return S.STensor.new(list(x._dims), lambda i: (t.uf(name, "R", list(i)), FALSE), x.dtype)

    def companion(self, name, *xs):
        """a tensor of which nothing is known but that it is a function of the given parts of input tensors, which must be the same part"""
        k = t.atom(t.fresh_index(xs[0]._dims[-1], "q"))
        keys = []
        for x in xs:
            v, _ = x._read()((k,))
            if not prover.is_single_atom(v, "uf") or v.args[0][0][0][0].args[2][-1] is not k or len(x._dims) != 1:
                raise Unsupported(f"not a part of an input: {v!r}")
            keys.append(v.args[0][0][0][0].args[2][:-1])
        if any(len(q) != len(keys[0]) or any(a is not b for a, b in zip(q, keys[0])) for q in keys):
            raise Unsupported("different parts of the inputs")
        return S.STensor.new(list(xs[0]._dims), lambda i: (t.uf(name, "R", list(keys[0]) + list(i)), FALSE), xs[0].dtype)

    def known_same(self, a, b):
        """syntactically the same tensor"""
        if len(a._dims) != len(b._dims) or any(p is not q for p, q in zip(a._dims, b._dims)):
            return False
        idx = tuple(t.atom(t.fresh_index(d, "q")) if d is not ONE else ZERO for d in a._dims)
        (va, na), (vb, nb) = a._read()(idx), b._read()(idx)
        return na is nb and (va is vb or t.is_zero(t.sub(va, vb)) if hasattr(t, "is_zero") else va is vb)

    def opaque_choice(self, name, x, n, one_hot):
        """forget everything about a tensor of choices but that they lie in range(n)"""
        name = self.uname("any." + name)
        if one_hot:
            return self.one_hot_tensor(name, [wrap(d, True) for d in x._dims[:-1]], n)[1]
        return self.index_tensor(name, [wrap(d, True) for d in x._dims], n)

    def distinct_draws(self):
        """from here on, every draw that is checked must use randomness of its own"""
        self.noise_seen = set()

    def mask(self, name, dims):
        return S.STensor.new([pv(d) for d in dims], lambda i: (t.lift_bool(name, list(i)), FALSE), S.bool_)

    def index_tensor(self, name, dims, n):
        return self.tensor(name, dims, lo=0, hi=pv(t.sub(pv(n), ONE)), integer=True, dtype="int64")

    def one_hot_tensor(self, name, dims, n):
        """(index function, tensor [*dims, n] one-hot along the last dim)"""
        t.facts.lo[name] = ZERO
        t.facts.hi[name] = t.sub(pv(n), ONE)
        ten = S.STensor.new([pv(d) for d in dims] + [pv(n)], lambda i: (t.ind(t.eq(i[-1], t.uf(name, "I", list(i[:-1])))), FALSE), S.float32)
        return (lambda *idx: wrap(t.uf(name, "I", [pv(x) for x in idx]), True)), ten

    def permutation(self, name, n):
        """a tensor holding an arbitrary permutation of range(n), and its inverse function"""
        inv = S.declare_perm(name, pv(n))
        ten = S.STensor.new([pv(n)], lambda i: (t.uf(name, "I", list(i)), FALSE), S.int64)
        invname = name + "^-1"
        return ten, (lambda k: wrap(t.uf(invname, "I", [pv(k)]), True))

    int, float = vc_int, vc_float

    def randomize(self, module, prefix=None, limit=None):
        """arbitrary values for every trainable parameter"""
        pre = prefix or self.uname("theta")
        for name, p in module.named_parameters():
            if p.requires_grad:
                nm = f"{pre}.{name}"
                p._write(lambda i: TRUE, lambda i, nm=nm: (t.uf(nm, "R", list(i)), FALSE))

    def rng_key(self):
        return E.rng

    def set_rng(self, tag):
        E.rng = ("user", tag)
        E.uniforms = []

    # ---- reading
    def at(self, x, *idx):
        if not isinstance(x, S.STensor):
            x = S.as_tensor(x)
        v, nan = x._read()(tuple(pv(i) for i in idx))
        if x.dtype is S.bool_:
            return wrapb(v)
        return wrap(v, not x.dtype.is_floating_point)

    def isnan(self, x, *idx):
        return wrapb(x._read()(tuple(pv(i) for i in idx))[1])

    def snapshot(self, x):
        if x is None:
            return None
        f = x._read()
        return S.STensor.new(list(x._dims), f, x.dtype)

    # ---- spec functions
    def sum(self, n, fn):
        return wrap(t.summ(pv(n), lambda k: pv(fn(wrap(k, True)))), False)

    def exists(self, n, fn):
        return wrapb(t.anyb(pv(n), lambda i: tobool(fn(wrap(i, True)))))

    def exp(self, x):
        return wrap(t.exp(pv(x)), False)

    def log(self, x):
        return wrap(t.log(pv(x)), False)

    def sqrt(self, x):
        return wrap(t.sqrt(pv(x)), False)

    def lse(self, n, fn):
        return wrap(t.log(t.summ(pv(n), lambda k: t.exp(pv(fn(wrap(k, True)))))), False)

    def log_softmax(self, n, fn):
        """returns function k -> fn(k) - lse fn"""
        z = self.lse(n, fn)
        return lambda k: fn(k) - z

    def maxi(self, n, fn):
        return wrap(t.maxx(pv(n), lambda k: pv(fn(wrap(k, True)))), False)

    def argmaxi(self, n, fn):
        return wrap(t.argmax(pv(n), lambda k: pv(fn(wrap(k, True)))), True)

    def floor(self, x):
        return wrap(t.floor(pv(x)), True)

    def idiv(self, a, b):
        return wrap(t.idiv(pv(a), pv(b)), True)

    def imod(self, a, b):
        return wrap(t.imod(pv(a), pv(b)), True)

    def ite(self, c, a, b):
        return wrap(t.ite(tobool(c), pv(a), pv(b)), False)

    def ind(self, c):
        return wrap(t.ind(tobool(c)), True)

    def both(self, *cs):
        return wrapb(t.band(*[tobool(c) for c in cs]))

    def either(self, *cs):
        return wrapb(t.bor(*[tobool(c) for c in cs]))

    def neg(self, c):
        return wrapb(t.bnot(tobool(c)))

    def implies(self, a, b):
        return wrapb(t.bor(t.bnot(tobool(a)), tobool(b)))

    def sigmoid(self, x):
        e = t.exp(t.neg(pv(x)))
        return wrap(t.div_real(ONE, t.add(ONE, e)), False)

    def tanh(self, x):
        return wrap(t.func("tanh", pv(x)), False) if hasattr(t, "func") else None

    def lgamma(self, x):
        return self.at(S.as_tensor(wrap(pv(x), False)).lgamma())

    @property
    def pi(self):
        return wrap(t.atom(t.var("pi", "R")), False)

    def normal_logpdf(self, x, mu, sigma):
        z = (x - mu) / sigma
        return -(z * z) * 0.5 - self.log(sigma) - 0.5 * wrap(ftorch.log_2pi(), False)

    # ---- obligations
    def _ob(self, name, **k):
        self.nobl += 1
        return E.obligation(name, budget=k.pop("budget", self.ob_budget), **k)

    def forall(self, dims, fn):
        idx = []
        for d in dims:
            p = pv(d)
            if p is ONE:
                idx.append(0)
            else:
                idx.append(wrap(t.atom(t.fresh_index(p, "q")), True))
        return fn(*idx)

    def eq(self, name, a, b, tol=None):
        return self._ob(name, eqn=(pv(a), pv(b)))

    def eq_at(self, name, x, idx, val, tol=None):
        x = S.as_tensor(x)
        if len(idx) != len(x._dims):
            return self._ob(name + ": rank", goal=FALSE, note=f"rank {len(x._dims)} expected {len(idx)}")
        v, nan = x._read()(tuple(pv(i) for i in idx))
        if x.dtype is S.bool_:
            v = t.ind(v)
        ok = True
        if nan is not FALSE:
            ok = self._ob(name + ": not NaN", goal=t.bnot(nan))
        return self._ob(name, eqn=(v, pv(val))) and ok

    def nan_at(self, name, x, idx):
        v, nan = x._read()(tuple(pv(i) for i in idx))
        return self._ob(name, goal=nan)

    def notnan_at(self, name, x, idx):
        v, nan = x._read()(tuple(pv(i) for i in idx))
        return self._ob(name, goal=t.bnot(nan))

    def true(self, name, cond, note=""):
        return self._ob(name, goal=tobool(cond), note=note)

    def shape(self, name, x, dims):
        if len(x._dims) != len(dims):
            return self._ob(name, goal=FALSE, note=f"rank {len(x._dims)} != {len(dims)}")
        return self._ob(name, goal=t.band(*[t.eq(a, pv(b)) for a, b in zip(x._dims, dims)]))

    def same(self, name, a, b, tol=None):
        """elementwise equal, including where NaN"""
        if len(a._dims) != len(b._dims):
            return self._ob(name + ": rank", goal=FALSE)
        g = t.band(*[t.eq(p, q) for p, q in zip(a._dims, b._dims)])
        ok = True
        if g is not TRUE:
            ok = self._ob(name + ": shape", goal=g)
            if not ok:
                return False
        idx = tuple(t.atom(t.fresh_index(d, "q")) if d is not ONE else ZERO for d in a._dims)
        va, na = a._read()(idx)
        vb, nb = b._read()(idx)
        if na is not nb:
            ok = self._ob(name + ": NaN pattern", goal=t.biff(na, nb)) and ok
        if a.dtype is S.bool_:
            return self._ob(name, goal=t.biff(va, vb)) and ok
        hyps = () if na is FALSE else (t.bnot(na),)
        return self._ob(name, eqn=(va, vb), hyps=hyps) and ok

    unchanged = same

    def raises(self, name, fn, types=Exception):
        try:
            fn()
        except Unsupported:
            raise
        except PathPruned:
            raise
        except types as ex:
            if _engine_gap(ex):
                raise Unsupported(f"engine: {ex}")
            self._ob(name, goal=TRUE)
            return True
        self._ob(name, goal=FALSE, note="no exception was raised")
        return False

    def attempt(self, fn):
        """(value, None) or (None, exception)"""
        try:
            return fn(), None
        except (Unsupported, PathPruned):
            raise
        except Exception as ex:
            if _engine_gap(ex):
                raise Unsupported(f"engine: {ex}")
            return None, ex

    def is_argmax(self, name, val, n, fn):
        v = pv(val)
        n = pv(n)
        ok = self._ob(name + ": range", goal=t.band(t.le(ZERO, v), t.lt(v, n)))
        if t.is_const(n) and t.cval(n) <= 6:
            best = pv(fn(wrap(v, True)))
            for k in range(int(t.cval(n))):
                ok = self._ob(name, goal=t.le(pv(fn(k)), best)) and ok
            return ok
        return self._ob(name, eqn=(v, t.argmax(n, lambda k: pv(fn(wrap(k, True)))))) and ok

    def is_onehot_argmax(self, name, vfn, n, fn):
        k = t.atom(t.fresh_index(pv(n), "q"))
        a = t.argmax(pv(n), lambda j: pv(fn(wrap(j, True))))
        return self._ob(name, eqn=(pv(vfn(wrap(k, True))), t.ind(t.eq(k, a))))

    # ---- draws
    def is_draw(self, name, val, n, logp, idx):
        """val is one draw k ~ exp(logp(k)), independent for different idx"""
        v = self._resolve(pv(val))
        return self._draw_check(name, v, pv(n), logp, idx)

    def is_value_draw(self, name, val, n, value, logp, idx):
        """val = value(k) for one draw k ~ exp(logp(k))"""
        v = self._resolve(pv(val))
        draws = [a for a in _walk(v) if a.op == "argmax" and _noise_atoms(a)]
        if len(draws) != 1:
            if t.prove(t.eq(pv(n), ONE)):
                return self._ob(name, eqn=(v, pv(value(wrap(ZERO, True)))))
            return self._unk(name, f"not one draw: {v!r}"[:600])
        k = t.atom(draws[0])
        ok = self._ob(name + ": value", eqn=(v, pv(value(wrap(k, True)))))
        return self._draw_check(name, k, pv(n), logp, idx) and ok

    def is_onehot_draw(self, name, vfn, n, logp, idx):
        v = self.sum(n, lambda i: i * vfn(i))
        k = t.atom(t.fresh_index(pv(n), "q"))
        ok = self._ob(name + ": one-hot", eqn=(pv(vfn(wrap(k, True))), t.ind(t.eq(k, pv(v)))))
        return self.is_draw(name, v, n, logp, idx) and ok

    def _resolve(self, v):
        for _ in range(20):
            i = t.first_ind(v)
            if i is None:
                return v
            v = t.set_ind(v, i, 1 if E.decide(i.args[0]) else 0)
        return v

    def _unk(self, name, why, status="failed"):
        self.nobl += 1
        E.obligations.append({"name": name, "implicit": False, "status": status, "why": why, "path": [repr(p)[:200] for p in t.facts.path], "time": 0.0, "note": "", "pattern": True})
        return False

    def _draw_check(self, name, v, n, logp, idx):
        if n is ONE or (t.is_const(n) and t.cval(n) == 1):
            return self._ob(name, eqn=(v, ZERO))
        if not (prover.is_single_atom(v, "argmax")):
            if t.prove(t.eq(n, ONE)):
                return self._ob(name, eqn=(v, ZERO))
            if t.is_const(v):
                # the path was chosen by a draw having this value
                for b in t.facts.path:
                    for a in _walk(b):
                        zs = _noise_atoms(a) if a.op == "argmax" and a.args[0] is n else []
                        key = [(z.args[0], tuple(q.id for q in z.args[2] if t.is_const(q))) for z in zs]
                        if zs and key not in self.path_draws and t.prove(t.eq(t.atom(a), v)):
                            self.path_draws.append(key)
                            return self._draw_check(name, t.atom(a), n, logp, idx)
            return self._unk(name, f"not a draw: {v!r}"[:600])
        a = v.args[0][0][0][0]
        ok = self._ob(name + ": range", eqn=(a.args[0], n))
        k1, body1 = t.open_binder(a)
        l1 = pv(logp(wrap(t.atom(k1), True)))
        noise = _fresh_noise(body1, l1)
        if len(noise) != 1:
            return self._unk(name, f"draw with {len(noise)} noise terms: {noise}"[:600])
        z = noise[0]
        pos = [i for i, q in enumerate(z.args[2]) if q is t.atom(k1)]
        if len(pos) != 1:
            return self._unk(name, "the noise of a draw does not vary with the category")
        if self._reused(z):
            return self._unk(name, "a draw reuses earlier randomness")
        # split body into noise part and the rest; a positive common factor does not change the argmax
        part = t._poly_from_dict({m: c for m, c in body1.args if any(_mentions_atom(x, z) for x, _ in m)})
        rest = t.sub(body1, part)
        if not _gumbel_like(part, z):
            c = _coefficient(part, z)
            if c is None or k1 in c.fv or not t.prove(t.lt(ZERO, c)):
                return self._unk(name, f"noise term is not Gumbel: {part!r}"[:600])
            rest = t.div_real(rest, c)
        k2 = t.fresh_index(n, "k")
        r2 = t.subst(rest, {k1: t.atom(k2)})
        l2 = pv(logp(wrap(t.atom(k2), True)))
        ok = self._ob(name, eqn=(t.sub(rest, r2), t.sub(l1, l2))) and ok
        # independence: different idx use different noise
        args = z.args[2][: pos[0]] + z.args[2][pos[0] + 1 :]
        hs = []
        mp = {}
        for x in idx:
            q = pv(x)
            if t.is_const(q):
                continue
            av = q.args[0][0][0][0]
            f = t.var(t.fresh_name("w"), "I")
            if av in t.facts.lo:
                t.facts.lo[f] = t.facts.lo[av]
            if av in t.facts.hi:
                t.facts.hi[f] = t.facts.hi[av]
            mp[av] = t.atom(f)
        if mp:
            same_args = t.band(*[t.eq(x, t.subst(x, mp)) for x in args])
            same_idx = t.band(*[t.eq(t.atom(av), f) for av, f in mp.items()])
            ok = self._ob(name + ": independent", goal=t.bor(t.bnot(same_args), same_idx)) and ok
        return ok

    def is_affine_draw(self, name, val, mu, sigma, idx, kind="randn", clip=None):
        """val = mu + sigma*Z with Z a fresh standard draw of the given kind, independent for different idx"""
        v = self._resolve(pv(val)) if clip is None else pv(val)
        noise = _fresh_noise(v, pv(mu), pv(sigma))
        if len(noise) != 1:
            return self._unk(name, f"draw with {len(noise)} noise terms: {v!r}"[:600])
        z = noise[0]
        if not z.args[0].startswith(kind + "@"):
            return self._unk(name, f"noise {z!r} is not {kind}")
        if self._reused(z):
            return self._unk(name, "a draw reuses earlier randomness")
        w = t.add(pv(mu), t.mul(pv(sigma), t.atom(z)))
        if clip is not None:
            lo, hi = pv(clip[0]), pv(clip[1])
            w = t.ite(t.lt(w, lo), lo, t.ite(t.lt(hi, w), hi, w))
        ok = self._ob(name, eqn=(v, w))
        return self._indep(name, z.args[2], idx) and ok

    def is_shifted_noise(self, name, val, mu, idx, scale):
        """val = mu + s*Z with Z a standard normal draw of its own and one s >= 0 for the whole tensor"""
        v = self._resolve(pv(val))
        noise = _fresh_noise(v, pv(mu))
        if len(noise) != 1 or not noise[0].args[0].startswith("randn@"):
            return self._unk(name, f"noise {noise} in {v!r}"[:600])
        z = noise[0]
        if self._reused(z):
            return self._unk(name, "a draw reuses earlier randomness")
        v0, v1 = t.replace_atom(v, z, ZERO), t.replace_atom(v, z, ONE)
        s = t.sub(v1, v0)
        ok = self._ob(name, eqn=(v0, pv(mu)))
        ok &= self._ob(name + ": linear in the noise", eqn=(v, t.add(v0, t.mul(s, t.atom(z)))))
        for i in idx:
            if not t.is_const(pv(i)) and pv(i).fv & s.fv:
                return self._unk(name, "the scale of the noise varies")
        return self._indep(name, z.args[2], idx) and ok

    def is_piecewise_linear_draw(self, name, val, n, xs, ys, idx, cdf):
        """val is a draw from the density proportional to the linear interpolation of the points (xs(k), ys(k))"""
        v = self._resolve(pv(val))
        noise = _fresh_noise(v, *[pv(f(wrap(t.atom(t.fresh_index(pv(n), "q")), True))) for f in (xs, ys)])
        if len(noise) != 1 or not noise[0].args[0].startswith("rand@"):
            return self._unk(name, f"not one uniform number: {noise} in {v!r}"[:600])
        z = noise[0]
        if self._reused(z):
            return self._unk(name, "a draw reuses earlier randomness")
        u = wrap(t.atom(z), False)
        k = wrap(t.summ(pv(n), lambda j: t.ind(t.le(pv(cdf(wrap(j, True))), t.atom(z)))), True)
        k = wrap(self._resolve(pv(self.ite(k < 1, 1, self.ite(k < n, k, n - 1)) - 1)), True)
        f = (u - cdf(k)) / (cdf(k + 1) - cdf(k))
        w0, w1 = ys(k) / (ys(k) + ys(k + 1)), ys(k + 1) / (ys(k) + ys(k + 1))
        d = w0 + self.sqrt((1 - f) * w0 * w0 + f * w1 * w1)
        d = wrap(self._resolve(pv(self.ite(d < 1e-8, 1e-8, d))), False)
        ok = self._ob(name, eqn=(v, pv(xs(k) + (xs(k + 1) - xs(k)) * (f / d))))
        return self._indep(name, z.args[2], idx) and ok

    def dropped(self, dims, p):
        """the indicator function of the first Bernoulli(p) draws since the random state was set (used by some_children)"""
        for u in E.uniforms:
            if len(u[0]) == len(dims) and all(t.prove(t.eq(pv(a), pv(b))) for a, b in zip(u[0], dims)):
                f, pr = u[1], pv(p)
                return lambda *i: wrap(t.ind(t.lt(f(tuple(pv(q) for q in i))[0], pr)), True)
        raise Unsupported("no uniform draw of the expected shape")

    def some_children(self, name, out, outs, at, groups, term):
        """for one node: out[at(o)] is the mixture of the terms of a non-empty set of children, for all o the same set"""
        for n, drop in groups:
            self.true(name + ": a child remains", self.neg(self.sum(n, lambda i: 1 - drop(i)) == 0))

        def one(o):
            def total(gs, i):
                if not gs:
                    return self.exp(term(o, *i))
                (n, drop), rest = gs[0], gs[1:]
                return self.sum(n, lambda k: (1 - drop(k)) * total(rest, i + (k,)))

            self.eq_at(name, out, at(o), self.log(total(groups, ())))

        self.forall([outs], one)

    def residual_noise(self, val, mu):
        """the standard normal Z with val = mu + Z, if val has that form"""
        d = t.sub(self._resolve(pv(val)), pv(mu))
        if not (len(d.args) == 1 and d.args[0][1] == 1 and len(d.args[0][0]) == 1):
            return None
        a, e = d.args[0][0][0]
        return a if e == 1 and a.op == "uf" and a.args[0].startswith("randn@") else None

    def separate_noise(self, name, zs):
        """no two of these draws are the same draw"""
        for i, z in enumerate(zs):
            for y in zs[:i]:
                if y.args[0] == z.args[0]:
                    self._ob(name, goal=t.bnot(t.band(*[t.eq(p, q) for p, q in zip(y.args[2], z.args[2])])))

    def is_joint_draw(self, name, vals, mus, L, idx):
        """vals = mus + L eps with independent standard normal eps (L lower triangular, positive diagonal)"""
        zs = []
        ok = True
        for j, val in enumerate(vals):
            v = self._resolve(pv(val))
            new = [z for z in _noise_atoms(v) if not any(z is y for y in zs)]
            if len(new) != 1 or not new[0].args[0].startswith("randn@"):
                return self._unk(name, f"component {j} is not a draw: {v!r}"[:600])
            z = new[0]
            if zs and z.args[0] != zs[0].args[0] or not zs and self._reused(z):
                return self._unk(name, "a draw reuses earlier randomness")
            zs.append(z)
            w = pv(mus[j])
            for k in range(j + 1):
                w = t.add(w, t.mul(pv(L[j][k]), t.atom(zs[k])))
            ok = self._ob(f"{name} {j}", eqn=(v, w)) and ok
            # components use different noise: some argument is a different constant
            for y in zs[:-1]:
                ok = self._ob(name + ": components independent", goal=t.bnot(t.band(*[t.eq(p, q) for p, q in zip(y.args[2], z.args[2])]))) and ok
        # other draws (another idx) use other noise, also across components
        for y in zs:
            ok = self._indep(name, zs[0].args[2], idx, y.args[2]) and ok
        return ok

    def is_bernoulli_draw(self, name, val, p, idx):
        """val = 1 with probability p"""
        v = pv(val)
        noise = _fresh_noise(v, pv(p))
        if len(noise) != 1 or not noise[0].args[0].startswith("rand@"):
            return self._unk(name, f"not a Bernoulli draw: {v!r}"[:600])
        z = noise[0]
        ok = self._ob(name, eqn=(v, t.ind(t.lt(t.atom(z), pv(p)))))
        return self._indep(name, z.args[2], idx) and ok

    def is_binomial_draw(self, name, val, n, p, idx):
        v = self._resolve(pv(val))
        noise = _fresh_noise(v, pv(n), pv(p))
        if len(noise) != 1:
            return self._unk(name, f"not a Binomial draw: {v!r}"[:600])
        z = noise[0]
        t.facts.lo["qbinom"] = ZERO
        t.facts.hi["qbinom"] = lambda u, n, p: n
        ok = self._ob(name, eqn=(v, t.uf("qbinom", "I", [t.atom(z), pv(n), pv(p)])))
        return self._indep(name, z.args[2], idx) and ok

    def _indep(self, name, args, idx, other=None):
        mp = {}
        for x in idx:
            q = pv(x)
            if t.is_const(q):
                continue
            av = q.args[0][0][0][0]
            f = t.var(t.fresh_name("w"), "I")
            if av in t.facts.lo:
                t.facts.lo[f] = t.facts.lo[av]
            if av in t.facts.hi:
                t.facts.hi[f] = t.facts.hi[av]
            mp[av] = t.atom(f)
        if not mp:
            return True
        same_args = t.band(*[t.eq(x, t.subst(y, mp)) for x, y in zip(args, other or args)])
        same_idx = t.band(*[t.eq(t.atom(av), f) for av, f in mp.items()])
        return self._ob(name + ": independent", goal=t.bor(t.bnot(same_args), same_idx))

    def _reused(self, z):
        if self.noise_seen is None:
            return False
        if z.args[0] in self.noise_seen:
            return True
        self.noise_seen.add(z.args[0])
        return False

    def deterministic(self, name, *xs):
        """no randomness occurs in the tensors"""
        ok = True
        for x in xs:
            idx = tuple(t.atom(t.fresh_index(d, "q")) if d is not ONE else ZERO for d in x._dims)
            v, _ = x._read()(idx)
            ns = [z for z in _noise_atoms(v)]
            if ns:
                ok = self._unk(name, f"depends on randomness: {ns}"[:400]) and ok
            else:
                ok = self._ob(name, goal=TRUE) and ok
        return ok


NOISE = ("rand@", "randn@", "gumbel@", "randint@", "perm@")


def _walk(x):
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        yield y
        stack.extend(t.children(y))


def _find(x, op):
    return [y for y in _walk(x) if y.op == op]


def _noise_atoms(x):
    return [y for y in _walk(x) if y.op == "uf" and y.args[0].startswith(NOISE) and not y.args[0].startswith("perm@")]


def _fresh_noise(x, *given):
    """noise of x that does not come from the quantities it is conditioned on"""
    old = {y.args[0] for g in given for y in _noise_atoms(g)}
    return [y for y in _noise_atoms(x) if y.args[0] not in old]


def _mentions_atom(x, z):
    return any(y is z for y in _walk(x))


def numeval(p, env):
    if p.op == "poly":
        s = 0.0
        for m, c in p.args:
            v = float(c)
            for a, e in m:
                v *= numeval(a, env) ** float(e)
            s += v
        return s
    if p in env:
        return env[p]
    if p.op == "exp":
        return math.exp(numeval(p.args[0], env))
    if p.op == "log":
        return math.log(numeval(p.args[0], env))
    if p.op == "pp":
        return numeval(p.args[0], env)
    raise Unsupported(f"numeric evaluation of {p.op}")


def _coefficient(part, z):
    """c free of z with part/c standard Gumbel; None otherwise"""
    if len(part.args) == 0:
        return None
    common = None
    for m, co in part.args:
        e = {a: x for a, x in m if not _mentions_atom(a, z)}
        common = e if common is None else {a: x for a, x in common.items() if e.get(a) == x}
    c = t._poly_from_dict({tuple(sorted(common.items(), key=lambda q: q[0].id)): 1}) if common else ONE
    q = t.div_real(part, c) if common else part
    return c if common and _gumbel_like(q, z) else None


def _gumbel_like(part, z):
    if z.args[0].startswith("gumbel@"):
        return part is t.atom(z)
    if z.args[0].startswith("rand@"):
        try:
            ds = [numeval(part, {z: u}) + math.log(-math.log(u)) for u in (1e-4, 0.03, 0.2, 0.5, 0.77, 0.95, 0.9999)]
            return max(ds) - min(ds) < 1e-5  # an additive constant does not change the argmax
        except (Unsupported, ValueError, ZeroDivisionError, OverflowError):
            return False
    return False


def _engine_gap(ex):
    """an ordinary Python error raised inside the engine rather than by the code under verification"""
    if isinstance(ex, (S.TorchError,)):
        return False
    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    inside = last is not None and os.path.abspath(last).startswith(here)
    if inside and isinstance(ex, (AttributeError, TypeError, KeyError, NotImplementedError, RecursionError, AssertionError, ZeroDivisionError, NameError)):
        return True
    if isinstance(ex, TypeError) and ("unexpected keyword" in str(ex) or "positional argument" in str(ex)):
        return "simple_einet" not in str(ex) and "_get_base" not in str(ex)
    if isinstance(ex, IndexError) and str(ex).startswith("only integers, slices"):
        return True  # a real numpy array indexed by a symbolic integer
    return isinstance(ex, RecursionError)


# ------------------------------------------------------------------ running one contract symbolically
def run_symbolic(fn, variant, name, repo="/repo", seconds=100.0, max_paths=400, ob_budget=20.0):
    sys.setrecursionlimit(20000)
    B = SymBackend(repo, variant, name, ob_budget)
    E.reset_all()
    t_end = time.time() + seconds
    E.deadline = t_end
    res = {"name": name, "variant": variant, "paths": 0, "pruned": 0, "status": "proved", "reason": "", "obligations": 0, "discharged": 0}
    covered = {}
    root = os.path.abspath(repo)
    mon = sys.monitoring
    TOOL = 3
    try:
        mon.use_tool_id(TOOL, "vc")
    except ValueError:
        pass

    def started(code, off):
        f = code.co_filename
        if f.startswith(root):
            covered[(f[len(root) + 1:], code.co_qualname)] = True
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.PY_START, started)
    mon.set_events(TOOL, mon.events.PY_START)
    t0 = time.time()
    for k in prover.stats:
        prover.stats[k] = 0
    excs = []
    try:
        first = True
        while True:
            if not first and not E.next_path():
                break
            first = False
            E.start_path()
            B.begin()
            E.paths += 1
            if E.paths > max_paths:
                raise Unsupported("too many paths")
            try:
                fn(B)
                res["paths"] += 1
            except PathPruned:
                res["pruned"] += 1
            except Unsupported:
                raise
            except Exception as ex:
                if _engine_gap(ex):
                    raise Unsupported(f"engine: {type(ex).__name__}: {ex} @ {_where(ex)}")
                path = list(t.facts.path)
                st = None
                try:
                    st = str(prover.z3_check(path, 4000)) if path else "sat"
                except Unsupported:
                    st = "unknown"
                if st == "unsat":
                    res["pruned"] += 1
                    continue
                rec = {
                    "name": "no exception is raised", "implicit": True, "status": "failed" if st == "sat" else "unknown", "time": 0.0,
                    "why": f"{type(ex).__name__}: {ex}"[:500], "path": [repr(p)[:200] for p in path], "site": _where(ex, root), "note": "",
                    "pattern": isinstance(ex, (TypeError, AttributeError, KeyError, NotImplementedError)),
                }
                if path and st == "sat":
                    r, m, z = prover.z3_check(path, 4000, model=True)
                    if m is not None:
                        rec["model"] = model_dict((m, z))
                E.obligations.append(rec)
                if sum(1 for o in E.obligations if o["status"] != "proved") > 12:
                    break
    except Unsupported as ex:
        res["status"] = "unsupported"
        res["reason"] = f"{ex} @ {_where(ex, root)}"
    finally:
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
    obs = E.obligations
    res["obligations"] = len(obs)
    res["discharged"] = sum(1 for o in obs if o["status"] == "proved")
    bad = [o for o in obs if o["status"] != "proved"]
    if bad:
        if any(o["status"] == "failed" for o in bad):
            res["status"] = "failed"
        elif res["status"] == "proved":
            res["status"] = "unknown"
    if res["status"] == "proved" and (res["paths"] == 0 or res["obligations"] == 0):
        res["status"] = "vacuous"
        res["reason"] = "no obligation was generated on any feasible path"
    res["bad"] = bad[:8]
    res["by"] = dict(prover.stats)
    res["functions"] = sorted(f"{a}::{b}" for a, b in covered)
    res["files"] = sorted(set(B.loader.files.values()))
    res["bounded"] = sorted(B.bounded)
    res["stubs"] = sorted(B.stubbed)
    res["seconds"] = round(time.time() - t0, 3)
    return res


def _where(ex, root=None):
    tb = ex.__traceback__
    fr = []
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if root is None or f.startswith(root):
            fr.append(f"{f}:{tb.tb_lineno}")
        tb = tb.tb_next
    return fr[-1] if fr else "?"
