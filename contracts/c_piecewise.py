"""C17: the piecewise linear leaf."""
from unittest.mock import patch

from . import contract

PL = "simple_einet.layers.distributions.piecewise_linear"


def lerp(B, xs, ys, x, K):
    """value at x of the function through the increasing points (xs(k), ys(k)); outside of them that of the nearest end"""
    k = B.below(K, xs, x)  # number of points strictly left of x
    a = B.ite(k < 1, 1, B.ite(k < K, k, K - 1))
    mid = ys(a - 1) + (ys(a) - ys(a - 1)) / (xs(a) - xs(a - 1)) * (x - xs(a - 1))
    return B.ite(k < 1, ys(0), B.ite(k < K, B.ite(mid < 0, 0, mid), ys(K - 1)))  # the ordinates are not negative, only rounding makes mid so


class Domains:
    """a domain of the given type for every feature"""

    def __init__(self, B, kind):
        D = B.load("simple_einet.dist")
        self.d = D.Domain(data_type=getattr(D.DataType, kind.upper()))

    def __getitem__(self, i):
        return self.d


def sizes(B):
    return B.dim("R"), B.dim("L"), B.dim("F"), B.dim("C"), B.dim("K", lo=3)


def knots(B, R, L, F, C, K):
    xs = B.increasing("xs", [R, L, F, C, K])
    ys = B.tensor("ys", [R, L, F, C, K], lo=0.0)
    return xs, ys


@contract("C17")
def interp_value(B):
    """interp: the linear interpolation of the points, constant outside"""
    N, K = B.dim("N"), B.dim("K", lo=2)
    xs, ys = B.increasing("xs", [K]), B.tensor("ys", [K], lo=0.0)
    x = B.tensor("x", [N])
    out = B.load(PL).interp(x, xs, ys)
    B.shape("shape", out, [N])

    def at(n):
        B.eq_at("value", out, (n,), lerp(B, lambda k: B.at(xs, k), lambda k: B.at(ys, k), B.at(x, n), K))
        B.true("not negative", B.at(out, n) >= 0)

    B.forall([N], at)


def dist(B, kind="continuous"):
    R, L, F, C, K = sizes(B)
    xs, ys = knots(B, R, L, F, C, K)
    return R, L, F, C, K, xs, ys, B.load(PL).PiecewiseLinearDist(xs, ys, domains=Domains(B, kind))


@contract("C17", dims=[3, 5])
def log_density(B):
    """PiecewiseLinearDist.log_prob: the log of the interpolation for that feature, channel, leaf and repetition, with a floor of -300"""
    R, L, F, C, K, xs, ys, d = dist(B)
    N = B.dim("N")
    x = B.tensor("x", [N, C, F] + ([1, 1] if B.variant["dims"] == 5 else []))
    out = d.log_prob(x)
    B.shape("shape", out, [N, C, F, L, R])

    def at(n, c, f, l, r):
        v = lerp(B, lambda k: B.at(xs, r, l, f, c, k), lambda k: B.at(ys, r, l, f, c, k), B.at(x, n, c, f, *([0, 0] if B.variant["dims"] == 5 else [])), K)
        if v > 0:
            B.eq_at("log density", out, (n, c, f, l, r), B.log(v))
        else:
            B.eq_at("outside of the support", out, (n, c, f, l, r), -300)

    B.forall([N, C, F, L, R], at)


@contract("C17")
def modes(B):
    """PiecewiseLinearDist.mpe: the point of largest density"""
    R, L, F, C, K, xs, ys, d = dist(B)
    N = B.dim("N")
    out = d.mpe(N)
    B.shape("shape", out, [N, C, F, L, R])

    def at(n, c, f, l, r):
        k = B.argmaxi(K, lambda k: B.at(ys, r, l, f, c, k))
        B.eq_at("the mode", out, (n, c, f, l, r), B.at(xs, r, l, f, c, k))

    B.forall([N, C, F, L, R], at)


@contract("C17")
def cumulative(B):
    """PiecewiseLinearDist._compute_cdf: the share of the area left of each point"""
    R, L, F, C, K, xs, ys, d = dist(B)
    out = d._compute_cdf(xs[0][0][0][0], ys[0][0][0][0])
    B.shape("shape", out, [K])
    area = lambda j: (B.at(xs, 0, 0, 0, 0, j + 1) - B.at(xs, 0, 0, 0, 0, j)) * (B.at(ys, 0, 0, 0, 0, j) + B.at(ys, 0, 0, 0, 0, j + 1)) / 2
    B.forall([K], lambda k: B.eq_at("share of the area", out, (k,), B.sum(k, area) / B.sum(K - 1, area)))


@contract("C17", stat=1)
def continuous_samples(B):
    """PiecewiseLinearDist.sample: independent draws from the densities (by the contract of _compute_cdf)"""
    R, L, F, C, K, xs, ys, d = dist(B)
    N = B.dim("N", rows=True)
    cdf = B.tensor("cdf", [R, L, F, C, K])
    if B.symbolic:
        d._compute_cdf = lambda xs, ys: B.companion("cdf", xs, ys)
    out = d.sample((N,))
    B.shape("shape", out, [N, 1, C, F, L, R])

    def at(n, c, f, l, r):
        part = lambda x: lambda k: B.at(x, r, l, f, c, k)
        B.is_piecewise_linear_draw("a draw from the density", B.at(out, n, 0, c, f, l, r), K, part(xs), part(ys), (n, c, f, l, r), part(cdf))

    B.forall([N, C, F, L, R], at)


@contract("C17", stat=1)
def discrete_samples(B):
    """PiecewiseLinearDist.sample for a discrete domain: independent draws of the values with their probabilities"""
    R, L, F, C, K = sizes(B)
    xs = B.increasing("xs", [R, L, F, C, K])
    ys = B.tensor("ys", [R, L, F, C, K], lo=0.125, hi=4.0, pos=True)
    d = B.load(PL).PiecewiseLinearDist(xs, ys, domains=Domains(B, "discrete"))
    N = B.dim("N", rows=True)
    out = d.sample((N,))
    B.shape("shape", out, [N, 1, C, F, L, R])

    B.forall([N, C, F, L, R], lambda n, c, f, l, r: B.is_value_draw(
        "a draw of a value", B.at(out, n, 0, c, f, l, r), K - 2, lambda k: B.at(xs, r, l, f, c, k + 1), lambda k: B.log(B.at(ys, r, l, f, c, k + 1)), (n, c, f, l, r)))


def leaf(B, kind, uniform=False):
    R, L, F, C, K = sizes(B)
    xs, ys = knots(B, R, L, F, C, K)
    l = B.load(PL).PiecewiseLinear(num_features=F, num_channels=C, num_leaves=L, num_repetitions=R)
    l.xs, l.ys, l.domains, l.is_initialized = xs, ys, Domains(B, kind), True
    return R, L, F, C, K, xs, ys, l


@contract("C17", nan=[0, 1], scopes=[0, 1])
def leaf_missing(B):
    """PiecewiseLinear.forward: missing and marginalised features count as 1, the others have their log density"""
    R, L, F, C, K, xs, ys, l = leaf(B, "continuous")
    N = B.dim("N")
    x = B.tensor("x", [N, C, F], nan=bool(B.variant["nan"]))
    x0 = B.snapshot(x)
    s, hit = None, lambda f: False
    if B.variant["scopes"]:
        M = B.dim("M")
        s = B.index_tensor("scopes", [M], F)
        hit = lambda f: B.exists(M, lambda k: f == B.at(s, k))
    out = l(x, s)
    B.shape("shape", out, [N, C, F, L, R])

    def at(n, c, f, i, r):
        if hit(f) or B.variant["nan"] and B.isnan(x0, n, c, f):
            B.eq_at("not counted", out, (n, c, f, i, r), 0)
            return
        v = lerp(B, lambda k: B.at(xs, r, i, f, c, k), lambda k: B.at(ys, r, i, f, c, k), B.at(x0, n, c, f), K)
        if v > 0:
            B.eq_at("log density", out, (n, c, f, i, r), B.log(v))
        else:
            B.eq_at("outside of the support", out, (n, c, f, i, r), -300)

    B.forall([N, C, F, L, R], at)
    B.same("input unchanged", x, x0)


@contract("C17", mpe=[0, 1, 2], kind=["continuous", "discrete"], diff=[0, 1], stat=0)
def leaf_sample(B):
    """PiecewiseLinear.sample: a draw from (or the mode of) the selected leaf and repetition"""
    from .c_leaf import leaf_ctx

    v = B.variant
    R, L, F, C, K, xs, ys, l = leaf(B, v["kind"])
    N = B.dim("N", rows=True)
    ctx, p, r = leaf_ctx(B, N, F, L, R, v["diff"], v["mpe"], 1.0)
    cdf = B.tensor("cdf", [R, L, F, C, K])
    mod = B.load(PL)
    if B.symbolic:
        with patch.object(mod.PiecewiseLinearDist, "_compute_cdf", lambda self, xs, ys: B.companion("cdf", xs, ys)):
            out = l.sample(ctx)
    else:
        out = l.sample(ctx)
    B.shape("shape", out, [N, C, F])

    def at(n, c, f):
        x, y, d = (lambda k, q=q: B.at(q, r(n), p(n, f), f, c, k) for q in (xs, ys, cdf))
        if v["mpe"]:
            B.eq_at("the mode", out, (n, c, f), x(B.argmaxi(K, y)))
        elif v["kind"] == "continuous":
            B.is_piecewise_linear_draw("a draw from the density", B.at(out, n, c, f), K, x, y, (n, c, f), d)
        else:
            B.is_value_draw("a draw of a value", B.at(out, n, c, f), K - 2, lambda k: x(k + 1), lambda k: B.log(y(k + 1)), (n, c, f))

    B.forall([N, C, F], at)


@contract("C17", sym=False, seeds=24, alpha=[0, 1], many=[0, 1])
def fitted(B):
    """PiecewiseLinear.initialize (bounded): densities with the documented points, fitted to the data of each cluster"""
    torch, rng = B.torch, B.rng
    N, C, F, L, R = rng.randint(2, 40), rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2)
    if B.variant["many"]:
        N, L = rng.randint(2, 4), rng.randint(4, 6)
    dm = B.load("simple_einet.dist")
    doms, cols = [], []
    for f in range(F):
        kind = rng.choice(["continuous", "range", "bins"])
        if kind == "continuous":
            doms.append(dm.Domain.continuous_range(-100, 100))
            cols.append(torch.randn(N, C) * rng.choice([0.5, 5.0]) + rng.uniform(-3, 3))
            if rng.random() < 0.2:
                cols[-1] = torch.full((N, C), 1.5)
        else:
            a = rng.randint(-2, 2)
            doms.append(dm.Domain.discrete_range(a, a + rng.randint(1, 4)) if kind == "range" else dm.Domain.discrete_bins([a, a + 2, a + 3, a + 7]))
            vals = [float(q) for q in doms[-1].values]
            cols.append(torch.tensor([[rng.choice(vals) for _ in range(C)] for _ in range(N)]))
    data = torch.stack(cols, -1)
    if B.variant["many"]:
        data[1] = data[0]
    alpha = rng.uniform(0.1, 2.0) if B.variant["alpha"] else 0.0
    mod = B.load(PL)
    l = mod.PiecewiseLinear(num_features=F, num_channels=C, num_leaves=L, num_repetitions=R, alpha=alpha)
    B.raises("an uninitialised leaf refuses to evaluate", lambda: l(data, None), ValueError)
    made = []

    class Recorded(mod.KMeans):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)

    data0 = data.clone()
    with patch.object(mod, "KMeans", Recorded):
        l.initialize(data, doms)
    B.same("data unchanged", data, data0)
    B.true("one clustering per repetition", len(made) == R)
    flat = data.reshape(N, -1)
    for r in range(R):
        label = made[r].max_sim(flat, made[r].centroids)[1]
        for i in range(L):
            mine = data[label == i]
            B.eq("share of the cluster", float(l.mixture_weights[r, i]), len(mine) / N)
            for f in range(F):
                for c in range(C):
                    x, y = l.xs[r][i][f][c].double(), l.ys[r][i][f][c].double()
                    m, K = mine[:, c, f].double(), len(x)
                    B.true("as many ordinates as points", len(y) == K)
                    B.true("points increase", bool((x[1:] > x[:-1]).all()), f"{x.tolist()}")
                    B.true("densities are numbers and not negative", bool((y >= 0).all()), f"{y.tolist()}")
                    B.true("zero at both ends", float(y[0]) == 0 and float(y[-1]) == 0)
                    if doms[f].data_type == dm.DataType.DISCRETE:
                        vals = [float(q) for q in doms[f].values]
                        B.true("the points are the values", len(vals) == K - 2 and all(abs(a - float(b)) < 1e-6 for a, b in zip(vals, x[1:-1])))
                        cnt = [float((m == q).sum()) + alpha for q in vals]
                        want = [q / sum(cnt) if sum(cnt) > 0 else 1 / len(vals) for q in cnt]
                        for k in range(K - 2):
                            B.eq("relative frequency", float(y[k + 1]), want[k])
                    else:
                        B.eq("the density integrates to one", float((0.5 * (x[1:] - x[:-1]) * (y[1:] + y[:-1])).sum()), 1.0)
                        if len(m):
                            lo, hi = float(m.min()), float(m.max())
                            if lo == hi:
                                lo, hi = lo - 0.5, hi + 0.5
                            B.true("the support is the range of the data", abs(float(x[0]) - lo) < 1e-4 and abs(float(x[-1]) - hi) < 1e-4)
                            w = (hi - lo) / (K - 2)
                            B.true("the points are the bin centres", all(abs(float(x[k + 1]) - (lo + (k + 0.5) * w)) < 1e-3 for k in range(K - 2)))
                            if not alpha and all(min((float(q) - lo) / w % 1, 1 - (float(q) - lo) / w % 1) > 1e-3 or float(q) in (float(m.min()), float(m.max())) for q in m):
                                cnt = [0.0] * (K - 2)
                                for q in m:
                                    cnt[min(int((float(q) - lo) / w + 1e-6), K - 3)] += 1
                                s = sum(float(q) for q in y[1:-1])
                                for k in range(K - 2):
                                    B.eq("proportional to the histogram", float(y[k + 1]) / s, cnt[k] / sum(cnt))

