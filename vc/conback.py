"""Concrete backend of the contracts: the same contract text evaluated against the real torch on concrete inputs.

Used to (a) replay counterexamples, (b) cross-check the assumed contracts of torch, (c) stand in, with a stated bound,
for obligations outside the verifier's reach."""
import importlib
import itertools
import math
import os
import random
import sys
import traceback
import types
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("TQDM_DISABLE", "1")


class Violation(Exception):
    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


class Skip(Exception):
    """The drawn sizes do not satisfy a precondition of the contract."""


def stubs():
    """fast_pytorch_kmeans is not installed here: assumed contract of KMeans"""
    if "fast_pytorch_kmeans" in sys.modules:
        return
    try:
        import fast_pytorch_kmeans  # noqa

        return
    except Exception:
        pass
    m = types.ModuleType("fast_pytorch_kmeans")

    class KMeans:
        def __init__(self, n_clusters=None, mode=None, verbose=0, init_method=None, **k):
            self.n_clusters, self.mode = n_clusters, mode
            self.centroids = None

        @staticmethod
        def max_sim(a, b):
            import torch

            d = -torch.cdist(a.to(torch.float64), b.to(torch.float64))
            r = d.max(dim=-1)
            return r.values, r.indices

        def fit(self, X, centroids=None):
            self.fit_predict(X, centroids)

        def predict(self, X):
            return self.max_sim(X, self.centroids)[1]

        def fit_predict(self, X, centroids=None):
            import torch

            c = X[: self.n_clusters].clone()
            for _ in range(10):
                a = self.max_sim(X, c)[1]
                for k in range(self.n_clusters):
                    if (a == k).any():
                        c[k] = X[a == k].mean(0)
            self.centroids = c
            return self.max_sim(X, c)[1]

    m.KMeans = KMeans
    sys.modules["fast_pytorch_kmeans"] = m


class ConBackend:
    symbolic = False

    def __init__(self, repo="/repo", variant=None, name="", seed=0, dims=None, stat=False, mode=0, hints=None):
        self.repo, self.variant, self.name = repo, variant or {}, name
        if sys.path[0] != repo:
            sys.path.insert(0, repo)
        stubs()
        import torch

        self.torch = torch
        self.rng = random.Random(seed)
        self.seed = seed
        self.preset = dims or {}
        self.stat = stat
        self.mode = mode
        self.hints = list(hints or [])
        self.inputs = {}
        self.checks = 0
        self.stats = {}
        self.bounded = set()
        torch.manual_seed(seed)
        import numpy as np

        np.random.seed(seed % (2**31))
        random.seed(seed)
        torch.set_default_dtype(torch.float64)
        torch.set_num_threads(1)
        self.tol = 1e-6

    def load(self, m):
        here = os.getcwd()
        try:
            os.chdir(self.repo)
            return importlib.import_module(m)
        finally:
            os.chdir(here)

    def passes(self, it, n, k):
        return [self.torch.tensor(list(itertools.islice(it, int(n)))) for _ in range(k)]

    def note_bounded(self, why):
        self.bounded.add(why)

    # ---- inputs
    def dim(self, name, lo=1, hi=None, rows=False, **k):
        if name in self.preset:
            v = int(self.preset[name])
            v = max(lo, min(v, hi if hi is not None else max(lo, 40)))
        elif rows and self.stat:
            v = 1500
        elif self.hints and not self.stat and self.rng.random() < 0.25 and self.hint_ints(lo, hi):
            v = self.rng.choice(self.hint_ints(lo, hi))
        elif self.stat and not k.get("free"):
            v = min(lo + self.rng.choice([0, 1, 1]), hi if hi is not None else 10**9)
        else:
            top = lo + self.rng.choice([0, 1, 1, 2, 2, 3])
            v = min(top, hi) if hi is not None else top
        self.inputs[name] = v
        return v

    integer = dim

    def hint_ints(self, lo, hi):
        r = set()
        for h in self.hints:
            if h == int(h) and abs(h) < 40:
                for k in (int(h) - 1, int(h), int(h) + 1):
                    if k >= lo and (hi is None or k <= hi) and k <= 24:
                        r.add(k)
        return sorted(r)

    def int_between(self, name, lo, hi):
        if name in self.preset:
            v = max(lo, min(int(self.preset[name]), hi))
        else:
            v = self.rng.randint(lo, min(hi, lo + 4) if self.rng.random() < 0.5 else hi)
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, lo_open=False):
        hs = [h for h in self.hints if (lo is None or h > lo or (h == lo and not lo_open)) and (hi is None or h <= hi) and (not pos or h > 0)]
        if hs and self.rng.random() < 0.3:
            v = self.rng.choice(hs)
        elif pos:
            v = math.exp(self.rng.uniform(-1.5, 1.5))
            if hi is not None:
                v = min(v, hi)
        elif lo is not None and hi is not None:
            v = self.rng.uniform(lo, hi)
            if not lo_open and self.rng.random() < 0.2:
                v = self.rng.choice([lo, hi])
        elif lo is not None:
            v = lo + self.rng.expovariate(1.0)
        else:
            v = self.rng.gauss(0, 1.5)
        v = float(v)
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        k = self.rng.randrange(len(options))
        if name in self.preset:
            k = min(int(self.preset[name]), len(options) - 1)
        self.inputs[name] = repr(options[k])[:80]
        return options[k]

    def tensor(self, name, dims, lo=None, hi=None, integer=False, nan=False, dtype=None, pos=False, loglik=False):
        torch = self.torch
        dims = [int(d) for d in dims]
        if integer:
            a = 0 if lo is None else int(lo)
            b = a + 5 if hi is None else int(hi)
            x = torch.randint(a, b + 1, dims)
            if dtype is None:
                x = x.to(torch.float64)
        elif lo is not None and hi is not None:
            x = torch.rand(dims) * (float(hi) - float(lo)) + float(lo)
        elif pos or lo is not None:
            x = torch.rand(dims) * 2 + 0.05 + (float(lo) if lo is not None else 0.0)
        else:
            x = torch.randn(dims) * (1.0 if self.mode != 2 else 4.0)
            if loglik and not self.stat:
                # log-likelihoods of many features lie far below the range of exp
                scale, shift = self.rng.choice([(1, 0), (1, 0), (1, -900), (30, -5000), (400, -2000), (1, 800)])
                x = x * scale + shift
        if self.hints and not self.stat and x.numel() and self.rng.random() < 0.3:
            for _ in range(1 + x.numel() // 6):
                h = self.rng.choice(self.hints)
                if (lo is None or h >= float(lo)) and (hi is None or h <= float(hi)) and (not integer or h == int(h)) and (not pos or h > 0):
                    x.view(-1)[self.rng.randrange(x.numel())] = h
        if dtype is not None:
            x = x.to(getattr(torch, dtype))
        if nan:
            p = self.rng.choice([0.0, 0.3, 0.6, 1.0, 0.3])
            x[torch.rand(dims) < p] = float("nan")
        if x.dim() and self.rng.random() < 0.2 and x.numel() > 1:
            # same contents behind a non-contiguous view
            y = torch.empty(list(x.shape) + [2], dtype=x.dtype)
            y[..., 0] = x
            y[..., 1] = 0
            if x.dim() <= 2:
                x = y[..., 0]
        return x

    def increasing(self, name, dims):
        steps = self.tensor(name, dims, lo=0.1, hi=2.0)
        return steps.cumsum(-1) - self.rng.uniform(0.0, 4.0)

    def below(self, n, fn, x):
        return sum(1 for k in range(int(n)) if float(fn(k)) < float(x))

    def mask(self, name, dims):
        return self.torch.rand([int(d) for d in dims]) < self.rng.choice([0.0, 0.3, 0.7, 1.0])

    def index_tensor(self, name, dims, n):
        return self.torch.randint(0, int(n), [int(d) for d in dims])

    def one_hot_tensor(self, name, dims, n):
        ix = self.torch.randint(0, int(n), [int(d) for d in dims])
        oh = self.torch.nn.functional.one_hot(ix, int(n)).to(self.torch.float64)
        return (lambda *i: int(ix[tuple(int(k) for k in i)])), oh

    def permutation(self, name, n):
        p = self.torch.randperm(int(n))
        inv = self.torch.argsort(p)
        return p, (lambda k: int(inv[int(k)]))

    int, float = int, float

    def randomize(self, module, prefix=None, limit=None):
        torch = self.torch
        sc = {0: 1.0, 1: 25.0, 2: 0.3}[self.mode]
        if self.stat:
            sc = 1.0
        module.double()
        with torch.no_grad():
            for n, p in module.named_parameters():
                if p.requires_grad:
                    last = n.split(".")[-1]
                    s = min(sc, limit or sc) if last == "logits" else 1.0
                    p.copy_(torch.randn(p.shape, dtype=torch.float64) * s)

    def rng_key(self):
        return tuple(self.torch.get_rng_state().tolist())

    def opaque(self, name, x):
        return x

    def known_same(self, a, b):
        return False

    def opaque_choice(self, name, x, n, one_hot):
        return x

    def distinct_draws(self):
        pass

    def set_rng(self, tag):
        import hashlib

        h = int.from_bytes(hashlib.sha256(repr(tag).encode()).digest()[:4], "big")
        self.torch.manual_seed((h + self.seed) % (2**31))

    # ---- reading
    def at(self, x, *idx):
        if not hasattr(x, "item"):
            return x
        return x[tuple(int(i) for i in idx)].item()

    def isnan(self, x, *idx):
        return math.isnan(float(x[tuple(int(i) for i in idx)]))

    def snapshot(self, x):
        return None if x is None else x.detach().clone()

    # ---- spec functions
    def sum(self, n, fn):
        return math.fsum(float(fn(k)) for k in range(int(n))) if int(n) > 0 else 0.0

    def exists(self, n, fn):
        return any(bool(fn(k)) for k in range(int(n)))

    def exp(self, x):
        return math.exp(x) if x < 700 else float("inf")

    def log(self, x):
        return math.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan"))

    def sqrt(self, x):
        return math.sqrt(x)

    def lse(self, n, fn):
        v = [float(fn(k)) for k in range(int(n))]
        m = max(v)
        if m == float("-inf"):
            return m
        return m + math.log(math.fsum(math.exp(x - m) for x in v))

    def log_softmax(self, n, fn):
        z = self.lse(n, fn)
        return lambda k: fn(k) - z

    def maxi(self, n, fn):
        return max(float(fn(k)) for k in range(int(n)))

    def argmaxi(self, n, fn):
        v = [float(fn(k)) for k in range(int(n))]
        return v.index(max(v))

    def floor(self, x):
        return math.floor(x)

    def idiv(self, a, b):
        return a // b

    def imod(self, a, b):
        return a % b

    def ite(self, c, a, b):
        return a if c else b

    def ind(self, c):
        return 1 if c else 0

    def both(self, *cs):
        return all(cs)

    def either(self, *cs):
        return any(cs)

    def neg(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def sigmoid(self, x):
        return 1 / (1 + math.exp(-x)) if x > -700 else 0.0

    def tanh(self, x):
        return math.tanh(x)

    def lgamma(self, x):
        return math.lgamma(x)

    pi = math.pi

    def normal_logpdf(self, x, mu, sigma):
        z = (x - mu) / sigma
        return -0.5 * z * z - math.log(sigma) - 0.5 * math.log(2 * math.pi)

    # ---- obligations
    MAXPTS = 300

    def forall(self, dims, fn):
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= d
        if self.stat and dims and dims[0] >= 1000:
            for idx in itertools.product(*[range(d) for d in dims]):
                fn(*idx)
            return
        if tot <= self.MAXPTS:
            for idx in itertools.product(*[range(d) for d in dims]):
                fn(*idx)
        else:
            for _ in range(self.MAXPTS):
                fn(*[self.rng.randrange(d) for d in dims])

    def close(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        tol = self.tol if tol is None else tol
        return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))

    def fail(self, name, detail):
        raise Violation(name, detail)

    def eq(self, name, a, b, tol=None):
        self.checks += 1
        if not self.close(a, b, tol):
            self.fail(name, f"got {a}, contract requires {b}")
        return True

    def eq_at(self, name, x, idx, val, tol=None):
        self.checks += 1
        if x.dim() != len(idx):
            self.fail(name + ": rank", f"shape {tuple(x.shape)}, {len(idx)} dimensions expected")
        try:
            v = float(x[tuple(int(i) for i in idx)])
        except IndexError as ex:
            self.fail(name, f"index {idx} outside shape {tuple(x.shape)}")
        if not self.close(v, val, tol):
            self.fail(name, f"at {tuple(idx)}: got {v}, contract requires {val}")
        return True

    def nan_at(self, name, x, idx):
        self.checks += 1
        if not self.isnan(x, *idx):
            self.fail(name, f"at {idx}: expected NaN")
        return True

    def notnan_at(self, name, x, idx):
        self.checks += 1
        if self.isnan(x, *idx):
            self.fail(name, f"at {idx}: NaN")
        return True

    def true(self, name, cond, note=""):
        self.checks += 1
        if not bool(cond):
            self.fail(name, note or "condition is false")
        return True

    def shape(self, name, x, dims):
        self.checks += 1
        if tuple(x.shape) != tuple(int(d) for d in dims):
            self.fail(name, f"shape {tuple(x.shape)}, contract requires {tuple(dims)}")
        return True

    def same(self, name, a, b, tol=None):
        self.checks += 1
        if tuple(a.shape) != tuple(b.shape):
            self.fail(name + ": shape", f"{tuple(a.shape)} vs {tuple(b.shape)}")
        a, b = a.detach().to(self.torch.float64), b.detach().to(self.torch.float64)
        tol = self.tol if tol is None else tol
        if not self.torch.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
            d = (a != b) & ~(a.isnan() & b.isnan())
            i = d.nonzero()[0].tolist() if d.any() else []
            self.fail(name, f"differs at {i}: {a[tuple(i)].item() if i else a} vs {b[tuple(i)].item() if i else b}")
        return True

    unchanged = same

    def raises(self, name, fn, types=Exception):
        self.checks += 1
        try:
            r = fn()
        except types:
            return True
        self.fail(name, f"no exception was raised (returned {r!r})"[:300])

    def attempt(self, fn):
        try:
            return fn(), None
        except Exception as ex:
            return None, ex

    def is_argmax(self, name, val, n, fn):
        self.checks += 1
        n = int(n)
        v = int(val)
        if not (0 <= v < n) or v != float(val):
            self.fail(name, f"index {val} outside 0..{n - 1}")
        best = self.maxi(n, fn)
        if fn(v) < best - 1e-6 * (1 + abs(best)):
            self.fail(name, f"index {v} has value {fn(v)} but the maximum is {best}")
        return True

    def is_onehot_argmax(self, name, vfn, n, fn):
        n = int(n)
        vs = [float(vfn(k)) for k in range(n)]
        self._onehot(name, vs)
        return self.is_argmax(name, max(range(n), key=lambda k: vs[k]), n, fn)

    def _onehot(self, name, vs):
        self.checks += 1
        if any(min(abs(v), abs(v - 1)) > 1e-6 for v in vs) or abs(sum(vs) - 1) > 1e-6:
            self.fail(name + ": one-hot", f"{vs}")

    # ---- draws
    def is_draw(self, name, val, n, logp, idx):
        self.checks += 1
        n = int(n)
        v = int(val)
        if not (0 <= v < n) or v != float(val):
            self.fail(name, f"drew {val} outside 0..{n - 1}")
        lp = [float(logp(k)) for k in range(n)]
        z = self.lse(n, lambda k: lp[k])
        ps = [math.exp(x - z) for x in lp]
        if ps[v] < 1e-7:
            self.fail(name, f"drew {v} at {tuple(idx)}, which has probability {ps[v]:.3g} under the contract (probabilities {['%.3g' % p for p in ps]})")
        if self.stat:
            key = (name,) + tuple(idx[1:])
            st = self.stats.setdefault(key, {})
            for k in range(n):
                for tag, w in (("", 1.0), ("+", math.cos(7.3 * ps[k] + k)), ("~", (-1.0) ** idx[0])):
                    a = st.setdefault((k, tag), [0.0, 0.0])
                    a[0] += w * ((1.0 if v == k else 0.0) - ps[k])
                    a[1] += w * w * ps[k] * (1 - ps[k])
        return True

    def is_value_draw(self, name, val, n, value, logp, idx):
        ks = [k for k in range(int(n)) if abs(float(value(k)) - float(val)) < 1e-4]
        if not ks:
            self.fail(name, f"drew {float(val)}, not one of the values {[round(float(value(k)), 4) for k in range(int(n))]}")
        return self.is_draw(name, ks[0], n, logp, idx)

    def is_onehot_draw(self, name, vfn, n, logp, idx):
        n = int(n)
        vs = [float(vfn(k)) for k in range(n)]
        self._onehot(name, vs)
        return self.is_draw(name, max(range(n), key=lambda k: vs[k]), n, logp, idx)

    def is_affine_draw(self, name, val, mu, sigma, idx, kind="randn", clip=None):
        self.checks += 1
        if clip is not None:
            if not (clip[0] <= float(val) <= clip[1]):
                self.fail(name, f"drew {val} outside {clip}")
            if float(val) in (float(clip[0]), float(clip[1])):
                return True
        z = (float(val) - float(mu)) / float(sigma)
        if float(sigma) < 1e-5 * abs(float(mu)):
            # the draw is mostly rounding
            if abs(float(val) - float(mu)) > 8 * float(sigma) + 1e-5 * abs(float(mu)):
                self.fail(name, f"drew {val} at {tuple(idx)}, mean {mu} of the contract's density, sigma {sigma}")
            return True
        if kind == "rand":
            if not (-1e-9 <= z <= 1 + 1e-9):
                self.fail(name, f"drew {val} outside [{mu}, {mu + sigma}]")
            z = (z - 0.5) * math.sqrt(12)
        elif abs(z) > 7.5:
            self.fail(name, f"drew {val} at {tuple(idx)}, {z:.1f} standard deviations from the mean {mu} of the contract's density (sigma {sigma})")
        if self.stat and clip is None:
            st = self.stats.setdefault((name,) + tuple(idx[1:]), {})
            for tag, w in (("", z), ("~", z * (-1.0) ** idx[0])):
                a = st.setdefault(("mean", tag), [0.0, 0.0])
                a[0] += w
                a[1] += 1.0
            a = st.setdefault(("var", ""), [0.0, 0.0])
            a[0] += z * z - 1
            a[1] += 2.0 if kind == "randn" else 0.8
        return True

    def is_shifted_noise(self, name, val, mu, idx, scale):
        self.checks += 1
        s = float(scale())
        if not abs(float(val) - float(mu)) <= 8 * s + 1e-6 * (1 + abs(float(mu))):
            self.fail(name, f"{float(val)} at {tuple(idx)}: further from {float(mu)} than eight times the noise {s}")
        return True

    def is_piecewise_linear_draw(self, name, val, n, xs, ys, idx, cdf):
        self.checks += 1
        n, v = int(n), float(val)
        X, Y = [float(xs(k)) for k in range(n)], [float(ys(k)) for k in range(n)]
        if not X[0] - 1e-4 <= v <= X[-1] + 1e-4:
            self.fail(name, f"drew {v} outside the support [{X[0]}, {X[-1]}]")
        A = [(X[k + 1] - X[k]) * (Y[k] + Y[k + 1]) / 2 for k in range(n - 1)]
        k = max(0, min(n - 2, sum(1 for x in X if x < v) - 1))
        d = (v - X[k]) / (X[k + 1] - X[k])
        p = d * (Y[k] + d * (Y[k + 1] - Y[k]) / 2) * (X[k + 1] - X[k])
        if self.stat:
            st = self.stats.setdefault((name,) + tuple(idx[1:]), {})
            for tag, z in (("", (sum(A[:k]) + p) / sum(A)), (f"segment {k}", p / A[k] if A[k] > 0 else 0.5)):
                a = st.setdefault(("mean", tag), [0.0, 0.0])
                a[0] += (z - 0.5) * math.sqrt(12)
                a[1] += 1.0
        return True

    def dropped(self, dims, p):
        return lambda *i: None

    def some_children(self, name, out, outs, at, groups, term):
        """for one node: out[at(o)] is the mixture of the terms of a non-empty set of children, for all o the same set"""
        import itertools
        import math
        sets = [[s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)] for n, _ in groups]
        vals = [float(self.at(out, *at(o))) for o in range(outs)]
        best = None
        tab = [{i: float(term(o, *i)) for i in itertools.product(*[range(n) for n, _ in groups])} for o in range(outs)]
        for pick in itertools.product(*sets):
            err = 0.0
            for o in range(outs):
                ts = [tab[o][i] for i in itertools.product(*pick)]
                m = max(ts)
                err = max(err, abs(m + math.log(sum(math.exp(q - m) for q in ts)) - vals[o]))
            if not any(map(math.isnan, vals)) and (best is None or err < best):
                best = err
        self.true(name + ": a mixture of a non-empty set of children", best is not None and best < 1e-3, f"values {vals}, closest differs by {best}")

    def residual_noise(self, val, mu):
        z = float(val) - float(mu)
        return z if abs(z) < 6 else None

    def separate_noise(self, name, zs):
        self.checks += 1
        for i in range(len(zs)):
            for j in range(i):
                if abs(zs[i] - zs[j]) < 1e-4:
                    self.fail(name, f"draws {j} and {i} use the same randomness ({zs[i]:.6g})")

    def is_joint_draw(self, name, vals, mus, L, idx):
        eps = []
        for j, val in enumerate(vals):
            eps.append((float(val) - float(mus[j]) - sum(float(L[j][k]) * eps[k] for k in range(j))) / float(L[j][j]))
            self.is_affine_draw(f"{name} {j}", eps[j], 0.0, 1.0, idx)
            if self.stat:
                for k in range(j):
                    a = self.stats.setdefault((name,) + tuple(idx[1:]), {}).setdefault(("cov", f"{k}{j}"), [0.0, 0.0])
                    a[0] += eps[j] * eps[k]
                    a[1] += 1.0
        return True

    def is_bernoulli_draw(self, name, val, p, idx):
        return self.is_draw(name, val, 2, lambda k: self.log(p if k == 1 else 1 - p), idx)

    def is_binomial_draw(self, name, val, n, p, idx):
        n = int(n)
        return self.is_draw(
            name, val, n + 1,
            lambda k: math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + (k * math.log(p) if k else 0) + ((n - k) * math.log1p(-p) if n - k else 0), idx)

    def deterministic(self, name, *xs):
        return True

    def finish(self):
        for key, st in self.stats.items():
            for k, (s, v) in st.items():
                if v > 20:
                    z = s / math.sqrt(v)
                    if abs(z) > 6.5:
                        self.fail(str(key[0]), f"statistical test at {key[1:]} category {k}: z={z:.1f} over the draws (threshold 6.5)")


def run_concrete(fn, variant, name, repo="/repo", seeds=range(6), dims_list=(), stats=1, t_end=None, hints=None):
    """returns dict with number of runs and the first violation (with everything needed to replay it)"""
    import time

    out = {"runs": 0, "checks": 0, "violation": None, "skipped": 0, "errors": []}
    plans = [dict(seed=1000 + k, dims=d, mode=k % 3) for k, d in enumerate(dims_list)]
    plans += [dict(seed=s, dims=None, mode=s % 3) for s in seeds]
    if hints:
        plans += [dict(seed=s + 5000, dims=None, mode=s % 3, hints=hints) for s in seeds]
    plans += [dict(seed=500 + k, dims=None, stat=True, mode=0) for k in range(stats)]
    for p in plans:
        if t_end is not None and time.time() > t_end:
            out["truncated"] = True
            break
        v = run_one(fn, variant, name, repo, p, out)
        if v is not None:
            out["violation"] = v
            break
    return out


def run_one(fn, variant, name, repo, plan, out):
    B = ConBackend(repo, variant, name, seed=plan["seed"], dims=plan.get("dims"), stat=plan.get("stat", False), mode=plan.get("mode", 0), hints=plan.get("hints"))
    try:
        with open(os.devnull, "w") as nul:
            so, se = sys.stdout, sys.stderr
            try:
                sys.stdout = nul
                fn(B)
                B.finish()
            finally:
                sys.stdout, sys.stderr = so, se
        out["runs"] += 1
        out["checks"] += B.checks
    except Skip:
        out["skipped"] += 1
    except Violation as ex:
        return {"obligation": ex.name, "detail": ex.detail, "plan": plan, "inputs": B.inputs}
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        here = [f for f in tb if f.filename.startswith(os.path.abspath(repo) + os.sep)]
        detail = f"{type(ex).__name__}: {ex}"[:600]
        if here:
            return {"obligation": "no exception is raised", "detail": f"{detail} at {here[-1].filename}:{here[-1].lineno} ({here[-1].line})", "plan": plan, "inputs": B.inputs}
        # raised by the contract text itself: an API the contract relies on is gone or the contract is wrong
        out["errors"].append(f"{detail} at {tb[-1].filename}:{tb[-1].lineno}")
        out["runs"] += 0
    finally:
        B.torch.set_default_dtype(B.torch.float32)
    return None
