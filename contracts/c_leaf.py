"""C12 / C03: leaf distributions: value, missing data, draws, modes."""
from . import contract

DI = "simple_einet.layers.distributions."


def sizes(B, rows=False):
    return B.dim("N", rows=rows), B.dim("C"), B.dim("F"), B.dim("I"), B.dim("R")


def make(B, fam, C, F, I, R, **kw):
    """(leaf, logpdf(c,f,i,r,v), mean/spread..., support) with arbitrary parameters"""
    v = B.variant
    if fam == "normal":
        l = B.load(DI + "normal").Normal(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R)
    elif fam == "ratnormal":
        k = {}
        lo = B.real("smin", lo=0.125, hi=1.0)
        k["min_sigma"], k["max_sigma"] = lo, lo + B.real("sd", lo=0.125, hi=2.0)
        if v.get("mean_bounds"):
            a = B.real("mmin", lo=-2.0, hi=2.0)
            k["min_mean"], k["max_mean"] = a, a + B.real("md", lo=0.125, hi=2.0)
            if v["mean_bounds"] == "zero":
                k["min_mean"], k["max_mean"] = -B.real("md0", lo=0.125, hi=2.0), 0.0
        l = B.load(DI + "normal").RatNormal(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R, **k)
        l._vc = k
    elif fam == "bernoulli":
        l = B.load(DI + "bernoulli").Bernoulli(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R)
    elif fam == "binomial":
        n = B.dim("T")
        l = B.load(DI + "binomial").Binomial(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R, total_count=n)
        l._vc = n
    elif fam == "categorical":
        n = B.dim("K")
        l = B.load(DI + "categorical").Categorical(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R, num_bins=n)
        l._vc = n
    B.randomize(l, limit=3.0)
    return l


def data(B, fam, l, dims, nan, name="x"):
    if fam in ("normal", "ratnormal"):
        return B.tensor(name, dims, nan=nan)
    if fam == "bernoulli":
        return B.tensor(name, dims, lo=0, hi=1, integer=True, nan=nan)
    if fam == "binomial":
        return B.tensor(name, dims, lo=0, hi=l._vc, integer=True, nan=nan)
    return B.tensor(name, dims, lo=0, hi=l._vc - 1, integer=True, nan=nan)


def normal_params(B, fam, l):
    """mu, sigma as functions of (c,f,i,r), from the trainable parameters, as documented"""
    if fam == "normal":
        mu, lv = l.means, l.logvar
        return (lambda *k: B.at(mu, 0, *k)), (lambda *k: B.exp(B.at(lv, 0, *k) / 2))
    k_ = l._vc
    m, s = l.means, l.stds
    sg = lambda *k: k_["min_sigma"] + (k_["max_sigma"] - k_["min_sigma"]) * B.sigmoid(B.at(s, 0, *k))
    if "max_mean" in k_:
        return (lambda *k: k_["min_mean"] + (k_["max_mean"] - k_["min_mean"]) * B.sigmoid(B.at(m, 0, *k))), sg
    return (lambda *k: B.at(m, 0, *k)), sg


def logpdf(B, fam, l):
    """log-density of one entry as a function of (v, c, f, i, r)"""
    if fam in ("normal", "ratnormal"):
        mu, sg = normal_params(B, fam, l)
        return lambda v, *k: B.normal_logpdf(v, mu(*k), sg(*k))
    if fam == "bernoulli":
        w = l.probs
        return lambda v, *k: v * B.log(B.sigmoid(B.at(w, 0, *k))) + (1 - v) * B.log(1 - B.sigmoid(B.at(w, 0, *k)))
    if fam == "binomial":
        w, n = l.logits, l._vc
        return lambda v, *k: B.lgamma(n + 1) - B.lgamma(v + 1) - B.lgamma(n - v + 1) + v * B.log(B.sigmoid(B.at(w, 0, *k))) + (n - v) * B.log(1 - B.sigmoid(B.at(w, 0, *k)))
    w, n = l.logits, l._vc

    def cat(v, *k):
        lw = B.log_softmax(n, lambda j: B.at(w, 0, *k, j))
        return lw(v)

    return cat


FAMS = ["normal", "ratnormal", "bernoulli", "binomial", "categorical"]


def value(B, fam):
    N, C, F, I, R = sizes(B)
    l = make(B, fam, C, F, I, R)
    x = data(B, fam, l, [N, C, F], nan=bool(B.variant.get("nan")))
    x0 = B.snapshot(x)
    out = l(x, None)
    B.shape("output shape", out, [N, C, F, I, R])
    lp = logpdf(B, fam, l)

    def at(n, c, f, i, r):
        if B.variant.get("nan"):
            if B.isnan(x0, n, c, f):
                B.eq_at("a missing value has log-likelihood 0", out, (n, c, f, i, r), 0)
            else:
                B.eq_at("a present value keeps its log-density", out, (n, c, f, i, r), lp(B.at(x0, n, c, f), c, f, i, r))
        else:
            B.eq_at("log-density", out, (n, c, f, i, r), lp(B.at(x0, n, c, f), c, f, i, r))

    B.forall([N, C, F, I, R], at)
    B.same("input unchanged", x, x0)


@contract("C12", fam=FAMS, mean_bounds=["", "pos", "zero"], only=lambda v: v["fam"] == "ratnormal" or not v["mean_bounds"])
def leaf_value(B):
    """AbstractLeaf.forward = log-density of the documented distribution with the entry's own parameters"""
    value(B, B.variant["fam"])



@contract("C03", fam=FAMS, nan=[1])
def leaf_missing(B):
    """AbstractLeaf.forward: NaN entries are replaced by log-likelihood 0, the others are untouched"""
    value(B, B.variant["fam"])


@contract("C04", fam=FAMS, scopes=["none", "tensor", "list"], nan=[0, 1])
def leaf_pure(B):
    """AbstractLeaf.forward changes neither its input nor its parameters nor the scopes, and repeats its result"""
    v = B.variant
    N, C, F, I, R = sizes(B)
    l = make(B, v["fam"], C, F, I, R)
    x = data(B, v["fam"], l, [N, C, F], nan=bool(v["nan"]))
    x0 = B.snapshot(x)
    before = [(k, p, B.snapshot(p)) for k, p in l.named_parameters()]
    s = None
    if v["scopes"] == "tensor":
        s = B.index_tensor("scopes", [B.dim("M")], F)
        s0 = B.snapshot(s)
    elif v["scopes"] == "list":
        s = [B.int_between("a", 0, F - 1), B.int_between("b", 0, F - 1)]
        s0 = list(s)
    a = l(x, s)
    first = B.snapshot(a)
    B.same("input unchanged", x, x0)
    b = l(x, s)
    B.same("the second call gives the same values", b, first)
    B.same("the first result stays as it was", a, first)
    B.same("input still unchanged", x, x0)
    for k, p, p0 in before:
        B.same("parameter unchanged", p, p0)
    if v["scopes"] == "tensor":
        B.same("scopes unchanged", s, s0)
    elif v["scopes"] == "list":
        for k in range(2):
            B.eq("scopes unchanged", s[k], s0[k])


@contract("C03", fam=FAMS, scopes=["tensor", "list"], nan=[0, 1])
def leaf_scopes(B):
    """AbstractLeaf.forward with marginalized_scopes: exactly the listed features get log-likelihood 0"""
    v = B.variant
    N, C, F, I, R = sizes(B)
    l = make(B, v["fam"], C, F, I, R)
    x = data(B, v["fam"], l, [N, C, F], nan=bool(v["nan"]))
    x0 = B.snapshot(x)
    if v["scopes"] == "tensor":
        M = B.dim("M")
        s = B.index_tensor("scopes", [M], F)
        s0 = B.snapshot(s)
        hit = lambda f: B.exists(M, lambda k: f == B.at(s0, k))
    else:
        a, b = B.int_between("a", 0, F - 1), B.int_between("b", 0, F - 1)
        s = [a, b]
        hit = lambda f: B.either(f == a, f == b)
    out = l(x, s)
    lp = logpdf(B, v["fam"], l)

    def at(n, c, f, i, r):
        if hit(f):
            B.eq_at("a marginalised feature has log-likelihood 0", out, (n, c, f, i, r), 0)
        elif v["nan"] and B.isnan(x0, n, c, f):
            B.eq_at("a missing value has log-likelihood 0", out, (n, c, f, i, r), 0)
        else:
            B.eq_at("the other features keep their log-density", out, (n, c, f, i, r), lp(B.at(x0, n, c, f), c, f, i, r))

    B.forall([N, C, F, I, R], at)
    B.same("input unchanged", x, x0)


# ------------------------------------------------------------------------------------------------ sampling
def leaf_ctx(B, N, F, I, R, diff, mpe, T, parents=True, params=False):
    from .c_sum_sample import context

    ctx, p, r = context(B, N, F, I, R, diff, mpe == 1, 1.0)
    ctx.temperature_leaves = T
    ctx.mpe_at_leaves = mpe == 2
    ctx.return_leaf_params = params
    if not parents:
        ctx.indices_out = None
    return ctx, p, r


def check_leaf_draw(B, fam, l, val, mpe, T, k, idx, diff):
    """val is a draw (or the mode) of the leaf entry k = (c, f, i, r); idx identifies the draw, idx[0] is the sample row"""
    if fam in ("normal", "ratnormal"):
        mu, sg = normal_params(B, fam, l)
        if mpe:
            B.eq("mode", val, mu(*k))
        else:
            B.is_affine_draw("draw", val, mu(*k), sg(*k) * B.sqrt(T), idx)
    elif fam == "bernoulli":
        p = B.sigmoid(B.at(l.probs, 0, *k))
        if mpe:
            B.eq("mode", val, B.ind(p >= 0.5))
        else:
            B.is_bernoulli_draw("draw", val, p, idx)
    elif fam == "binomial":
        p, n = B.sigmoid(B.at(l.logits, 0, *k)), l._vc
        if mpe:
            B.eq("mode", val, B.floor((n + 1) * p))
            B.true("the mode is in the support", B.both(val >= 0, val <= n))
        elif diff:
            B.is_affine_draw("draw", val, n * p, B.sqrt(n * p * (1 - p)), idx, clip=(0, n))
        else:
            B.is_binomial_draw("draw", val, n, p, idx)
    else:
        w, n = l.logits, l._vc
        if mpe:
            B.is_argmax("mode", val, n, lambda j: B.at(w, 0, *k, j))
        else:
            B.is_draw("draw", val, n, lambda j: B.at(w, 0, *k, j) / T, idx)


@contract("C12", fam=FAMS, diff=[0, 1], mpe=[0, 1, 2], parents=[0, 1], stat=1)
def leaf_sample(B):
    """AbstractLeaf.sample: entry (n,c,f) is drawn from the distribution of the selected leaf and repetition (all leaves if none is selected)"""
    v = B.variant
    fam, diff, mpe = v["fam"], v["diff"], v["mpe"]
    N, C, F, I, R = sizes(B, rows=True)
    l = make(B, fam, C, F, I, R)
    T = B.real("T", pos=True)
    ctx, p, r = leaf_ctx(B, N, F, I, R, diff, mpe, T, parents=bool(v["parents"]))
    B.set_rng("sampling")
    out = l.sample(ctx)
    if v["parents"]:
        B.shape("shape", out, [N, C, F])

        def at(n, c, f):
            B.notnan_at("not missing", out, (n, c, f))
            check_leaf_draw(B, fam, l, B.at(out, n, c, f), mpe, T, (c, f, p(n, f), r(n)), (n, c, f), diff)

        B.forall([N, C, F], at)
    else:
        B.shape("shape", out, [N, C, F, I])

        def at(n, c, f, i):
            B.notnan_at("not missing", out, (n, c, f, i))
            check_leaf_draw(B, fam, l, B.at(out, n, c, f, i), mpe, T, (c, f, i, r(n)), (n, c, f, i), diff)

        B.forall([N, C, F, I], at)


@contract("C12", fam=["normal", "ratnormal", "binomial"], diff=[0, 1], parents=[0, 1], only=lambda v: v["fam"] != "binomial" or v["diff"])
def leaf_params(B):
    """AbstractLeaf.sample with return_leaf_params: the parameters of the selected leaf and repetition"""
    v = B.variant
    fam, diff = v["fam"], v["diff"]
    N, C, F, I, R = sizes(B, rows=True)
    l = make(B, fam, C, F, I, R)
    ctx, p, r = leaf_ctx(B, N, F, I, R, diff, 0, 1.0, parents=bool(v["parents"]), params=True)
    out = l.sample(ctx)
    if fam in ("normal", "ratnormal"):
        mu, sg = normal_params(B, fam, l)
        nP = 2
        want = lambda q, *k: mu(*k) if q == 0 else 2 * B.log(sg(*k))
    else:
        nP = 1
        want = lambda q, *k: B.sigmoid(B.at(l.logits, 0, *k))
    if v["parents"]:
        B.shape("shape", out, [N, C, F, nP])
        B.forall([N, C, F, nP], lambda n, c, f, q: B.eq_at("parameter", out, (n, c, f, q), want(q, c, f, p(n, f), r(n))))
    else:
        B.shape("shape", out, [N, C, F, I, nP])
        B.forall([N, C, F, I, nP], lambda n, c, f, i, q: B.eq_at("parameter", out, (n, c, f, i, q), want(q, c, f, i, r(n))))


@contract("C12", seeds=30)
def binomial_mode_support(B):
    """the mode of a Binomial leaf is in {0..n}, also where its probability is numerically 0 or 1"""
    N, C, F, I, R = sizes(B, rows=True)
    n = B.dim("T")
    l = B.load(DI + "binomial").Binomial(num_features=F, num_channels=C, num_leaves=I, num_repetitions=R, total_count=n)
    B.randomize(l)
    ctx, p, r = leaf_ctx(B, N, F, I, R, 0, 1, 1.0)
    out = l.sample(ctx)
    B.forall([N, C, F], lambda k, c, f: B.true("mode in support", B.both(B.at(out, k, c, f) >= 0, B.at(out, k, c, f) <= n)))
