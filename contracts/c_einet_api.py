"""Whole-model behaviour around the two passes: C04 (layouts, rows), C05 (evidence), C09 (no leaks), C10 (seeds), C11 (classes),
C21 (leaf cache)."""
from . import contract
from .c_einet_sample import pick, spies
from .c_sum_sample import check_choice, chosen
from .einets import Sizes, STRUCT, legal, model, sizes, stub_type


def some(v):
    """a cross-section of the structures: both structures, every layer type, depth 0 to 2, even and odd"""
    return legal(v) and (v["rest"] == 0 or (v["depth"], v["rest"]) == (1, 1)) and (v["R"] == v["K"])


def affine_leaf(B, z, log):
    """leaf log-density = an arbitrary affine function of the entry: every row, channel and feature on its own"""
    a = B.tensor("slope", [z.C, z.F, z.I, z.R])
    b = B.tensor("offset", [z.C, z.F, z.I, z.R])
    log["ll"] = lambda x, leaf: a.unsqueeze(0) * x.unsqueeze(-1).unsqueeze(-1) + b.unsqueeze(0)


def params(B, e):
    return [(n, p, B.snapshot(p)) for n, p in e.named_parameters()]


def unchanged(B, ps):
    for n, p, p0 in ps:
        B.same("parameters unchanged", p, p0)


# --------------------------------------------------------------------------------------------------------------- C04
@contract("C04", only=some, **STRUCT)
def einet_rowwise(B):
    """Einet.forward: row n of a batch is the result for that row alone; repeated calls agree; nothing is modified"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    affine_leaf(B, z, log)
    N = B.dim("N", rows=True)
    x = B.tensor("x", [N, z.C, z.F])
    x0, ps = B.snapshot(x), params(B, e)
    out = e(x)
    B.shape("one value per row and class", out, [N, z.K])
    out0 = B.snapshot(out)
    n = B.int_between("row", 0, N - 1)
    one = e(x0[n].unsqueeze(0))
    B.shape("one row", one, [1, z.K])
    B.forall([z.K], lambda k: B.eq("a row on its own", B.at(one, 0, k), B.at(out0, n, k)))
    B.same("a second call", e(x), out0)
    B.same("the first result stays", out, out0)
    B.same("input unchanged", x, x0)
    unchanged(B, ps)


LAYOUTS = ["2d", "4d", "4d-strided", "3d-strided"]


def shaped(B, z, v, N, layout, nan=False):
    """(x in the layout, the same data as [N, C, F])"""
    if layout == "2d":
        z2 = B.tensor("x", [N, z.F], nan=nan)
        return z2, B.snapshot(z2).unsqueeze(1)
    if layout == "3d":
        x = B.tensor("x", [N, z.C, z.F], nan=nan)
        return x, B.snapshot(x)
    if layout == "3d-strided":
        x = B.tensor("x", [N, z.F, z.C], nan=nan).transpose(1, 2)
        return x, B.snapshot(x)
    if layout == "4d":
        x = B.tensor("x", [N, z.C, z.H, z.W], nan=nan)
    else:
        x = B.tensor("x", [N, z.H, z.W, z.C], nan=nan).permute(0, 3, 1, 2)
    return x, B.snapshot(x).reshape(N, z.C, z.H * z.W)


def layout_sizes(B, v):
    z = Sizes()
    z.D = v["depth"]
    z.Fo = 2 ** z.D
    z.W = B.dim("W", lo=2)
    z.H = z.Fo * B.dim("H0") if z.D else B.dim("H0")
    if not v["layout"].startswith("4d"):
        z.W = 1
        z.H = z.Fo * B.dim("H1", lo=2) + v["rest"]
    z.F = z.H * z.W
    z.C = 1 if v["layout"] == "2d" else B.dim("C")
    z.I, z.S = B.dim("I"), B.dim("S")
    z.R = 1 if v["R"] == 1 else B.dim("R", lo=2)
    z.K = 1 if v["K"] == 1 else B.dim("K", lo=2)
    return z


def lay(v):
    return some(v) and v["layer"] == "linsum" and not (v["layout"].startswith("4d") and v["rest"])


@contract("C04", only=lay, layout=LAYOUTS, **STRUCT)
def einet_layouts(B):
    """Einet.forward: [N, D], [N, C, H, W] and strided inputs give the result of the same data as [N, C, D]"""
    v = B.variant
    z = layout_sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    affine_leaf(B, z, log)
    N = B.dim("N", rows=True)
    x, x3 = shaped(B, z, v, N, v["layout"])
    x0 = B.snapshot(x)
    want = e(x3)
    got = e(x)
    B.shape("one value per row and class", got, [N, z.K])
    B.same("layout does not matter", got, want)
    B.same("input unchanged", x, x0)


@contract("C04", structure=["top-down", "bottom-up"], layer=["linsum"], depth=[1], rest=[0], R=[1, "any"], K=[1], what=["channels+", "channels-", "features+", "features-", "rank1", "rank5", "flat", "images"])
def einet_rejects(B):
    """Einet.forward: data that does not fit the configuration is rejected"""
    v = B.variant
    z = sizes(B, v)
    d = B.dim("extra")
    Fin, Cin = z.F, z.C
    if v["what"] == "channels+":
        Cin = z.C + d
    elif v["what"] == "channels-":
        z.C = Cin + d
    elif v["what"] == "features+":
        Fin = z.F + d
    elif v["what"] == "features-":
        z.F = z.F + 2 * d
    elif v["what"] == "flat":
        z.C = z.C + 1
    elif v["what"] == "images":  # as many numbers as configured, in other channels
        z.C = (d + 1) * z.C
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    affine_leaf(B, z, log)
    N = B.dim("N", rows=True)
    shape = {"rank1": [z.F], "rank5": [N, z.C, z.F, 1, 1], "flat": [N, z.F], "images": [N, Cin, d + 1, z.F]}.get(v["what"], [N, Cin, Fin])
    x = B.tensor("x", shape)
    B.raises("rejected", lambda: e(x))


# --------------------------------------------------------------------------------------------------------------- C03
@contract("C03", only=lambda v: some(v) and v["depth"] <= 1, how=["tensor", "list", "none"], **STRUCT)
def einet_missing(B):
    """Einet.forward: the leaf sees the caller's values (missing ones still marked) and the caller's marginalized scopes; what it
    reports as 0 for a missing entry is a factor of one in the result"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    N = B.dim("N", rows=True)
    x = B.tensor("x", [N, z.C, z.F], nan=True)
    x0 = B.snapshot(x)
    ll = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    log["ll"] = ll
    M = B.dim("M")
    marg = None
    if v["how"] != "none":
        marg = B.index_tensor("marg", [M], z.F)
        if v["how"] == "list":
            marg = marg.tolist()
    e(x, marg)
    seen, m = log["calls"][0]
    B.true("the leaf is evaluated once", len(log["calls"]) == 1)
    B.same("the leaf sees the input", seen, x0)
    B.true("the leaf sees the marginalized scopes", m is marg)
    B.same("input unchanged", x, x0)


# --------------------------------------------------------------------------------------------------------------- C05
def evi(v):
    return lay(dict(v, layout="4d" if v["layout"].startswith("4d") else "2d")) and (v["marg"] != "list" or v["layout"] in ("3d", "4d")) and (not v["diff"] or v["layout"] == "3d")


@contract("C05", only=evi, layout=["2d", "3d", "4d", "4d-strided", "3d-strided"], marg=["none", "list", "tensor"], mpe=[0, 1], diff=[0, 1], **STRUCT)
def einet_keeps_evidence(B):
    """Einet.sample / mpe with evidence: observed entries stay, missing and marginalised ones take the drawn value"""
    v = B.variant
    z = layout_sizes(B, v)
    if v["layout"] == "3d":
        z.W, z.H = 1, z.F
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    N = B.dim("N", rows=True)
    x, x3 = shaped(B, z, v, N, v["layout"], nan=True)
    x = x.float()
    x0 = B.snapshot(x)
    log["ll"] = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    draws = B.tensor("draws", [N, z.C, z.F, z.I])
    kept = {}

    def draw(ctx, leaf):
        d = draws.clone() if ctx.indices_out is None else draws.clone()[:, :, :, 0]
        kept["io"] = ctx.indices_out
        return d

    log["draw"] = draw
    hit = lambda f: False
    marg = None
    if v["marg"] != "none":
        M = B.dim("M")
        marg = B.index_tensor("marg", [M], z.F)
        m0 = B.snapshot(marg)
        hit = lambda f: B.exists(M, lambda k: f == B.at(m0, k))
        if v["marg"] == "list":
            marg = marg.tolist()
    spies(B, e, v)
    # the complete sample behind the evidence: what the leaf layer returns
    inner = {}
    leaf0 = e.leaf.sample
    e.leaf.sample = lambda ctx: inner.setdefault("s", leaf0(ctx))
    B.set_rng("sampling")
    if v["mpe"]:
        out = e.mpe(evidence=x, marginalized_scopes=marg, is_differentiable=bool(v["diff"]))
    else:
        out = e.sample(evidence=x, marginalized_scopes=marg, is_differentiable=bool(v["diff"]))
    s = inner["s"]
    dims = {"2d": [N, z.F], "4d": [N, z.C, z.H, z.W], "4d-strided": [N, z.C, z.H, z.W]}.get(v["layout"], [N, z.C, z.F])
    B.shape("shape of the evidence", out, dims)
    B.shape("a draw per entry", s, [N, z.C, z.F])
    seen, m = log["calls"][0]
    B.same("the likelihood pass sees the evidence", seen, x3)
    B.true("the likelihood pass sees the marginalized scopes", m is marg)

    def at(n, c, *q):
        f = q[0] if len(q) == 1 else q[0] * z.W + q[1]
        i = (n, c) + q if v["layout"] != "2d" else (n,) + q
        if hit(f):
            B.eq_at("marginalised entries are drawn", out, i, B.at(s, n, c, f))
        elif B.isnan(x3, n, c, f):
            B.eq_at("missing entries are drawn", out, i, B.at(s, n, c, f))
        else:
            B.eq_at("observed entries stay", out, i, B.at(x3, n, c, f))

    B.forall([N, z.C] + ([z.H, z.W] if v["layout"].startswith("4d") else [z.F]), at)
    B.same("evidence unchanged", x, x0)


# --------------------------------------------------------------------------------------------------------------- C09
ENDINGS = ["normal", "mpe", "params", "fails in the likelihood pass", "fails in a layer", "fails at the leaf", "bad class", "diff"]


@contract("C09", only=lambda v: some(v) and (v["depth"] <= 1 or v["layer"] == "linsum"), end=ENDINGS, **STRUCT)
def einet_forgets(B):
    """Einet.sample with evidence, however it ends, has no effect on later calls"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    N, N2 = B.dim("N", rows=True), B.dim("N2")
    x = B.tensor("x", [N, z.C, z.F])
    y = B.tensor("y", [N2, z.C, z.F])
    ll, ll2 = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True), B.tensor("ll2", [N2, z.C, z.F, z.I, z.R], loglik=True)
    draws, draws2 = B.tensor("draws", [N, z.C, z.F, z.I]), B.tensor("draws2", [N2, z.C, z.F, z.I])
    log["params"] = B.tensor("params", [1, z.C, z.F, z.I, z.R, 2])
    ps = params(B, e)
    spies(B, e, v, choices=False)

    class Stop(Exception):
        pass

    def draw(d):
        return lambda ctx, leaf: d.clone() if ctx.indices_out is None else d.clone().gather(3, ctx.indices_out.unsqueeze(1).unsqueeze(-1).expand(-1, z.C, -1, -1)).squeeze(-1)

    def later(tag):
        log["ll"], log["draw"] = ll2, draw(draws2)
        l = B.snapshot(e(y))
        B.set_rng("later")
        s = e.sample(num_samples=N2)
        B.set_rng("later")
        t = e.sample(evidence=y, marginalized_scopes=[0])
        return l, B.snapshot(s), B.snapshot(t)

    before = later("before")
    log["ll"], log["draw"] = ll, draw(draws)
    B.set_rng("first")
    end = v["end"]
    kw = {}

    def stop(*a, **k):
        raise Stop()

    target = None
    if end == "fails in the likelihood pass":
        log["ll"] = stop
    elif end == "fails at the leaf":
        log["draw"] = stop
    elif end == "fails in a layer":
        target = e.layers[0]
        old = target.sample
        target.sample = stop
    elif end == "params":
        kw["return_leaf_params"] = True
    elif end == "bad class":
        kw["num_samples"] = 3
    elif end == "diff":
        kw["is_differentiable"] = True
        log["draw"] = lambda ctx, leaf: draws.clone() if ctx.indices_out is None else draws.clone()[:, :, :, 0]
    res, exc = B.attempt(lambda: e.sample(evidence=x, is_mpe=end == "mpe", **kw))
    if target is not None:
        target.sample = old
    B.true("the call ends as planned", (exc is not None) == (end.startswith("fails") or end == "bad class"))
    after = later("after")
    for name, a, b in zip(("log-likelihood", "sample", "conditional sample"), after, before):
        B.same("a later " + name, a, b)
    unchanged(B, ps)


# --------------------------------------------------------------------------------------------------------------- C10
@contract("C10", only=lambda v: some(v) and (v["depth"] <= 1 or v["layer"] == "linsum"), end=["plain", "evidence", "mpe", "diff", "params", "fails at the leaf", "fails in the likelihood pass"], **STRUCT)
def einet_seed(B):
    """Einet.sample(seed=s): a function of model, arguments and s; the global random state is restored, also after a failure"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    spies(B, e, v, choices=False)
    N = B.dim("N", rows=True)
    end = v["end"]
    x = B.tensor("x", [N, z.C, z.F], nan=True)
    log["ll"] = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    log["params"] = B.tensor("params", [1, z.C, z.F, z.I, z.R, 2])

    def draw(ctx, leaf):
        io = ctx.indices_out
        noise = B.torch.randn(N, z.C, z.F, z.I)
        if io is None:
            return noise
        if ctx.is_differentiable:
            return (noise * io.unsqueeze(1)).sum(-1)
        return noise.gather(3, io.unsqueeze(1).unsqueeze(-1).expand(-1, z.C, -1, -1)).squeeze(-1)

    log["draw"] = draw

    class Stop(Exception):
        pass

    def stop(*a, **k):
        raise Stop()

    kw = dict(num_samples=N)
    if end in ("evidence", "mpe", "fails in the likelihood pass"):
        kw = dict(evidence=x)
    if end == "mpe":
        kw["is_mpe"] = True
    if end == "params":
        kw["return_leaf_params"] = True
    if end == "diff":
        kw["is_differentiable"] = True
    if end == "fails at the leaf":
        log["draw"] = stop
    if end == "fails in the likelihood pass":
        log["ll"] = stop
    res = []
    for tag in ("one", "two"):
        B.set_rng(tag)
        B.torch.rand(3)
        key = B.rng_key()
        r, exc = B.attempt(lambda: e.sample(seed=1234, **kw))
        B.true("the call ends as planned", (exc is not None) == end.startswith("fails"))
        B.true("the global random state is restored", B.rng_key() == key)
        res.append(r)
    if res[0] is not None:
        B.same("the same seed gives the same result", res[0], res[1])
    if end in ("plain", "evidence"):
        # without a seed the global stream is used and advanced
        B.set_rng("three")
        key = B.rng_key()
        a = e.sample(**kw)
        B.true("the global random stream is advanced", B.rng_key() != key)
        B.set_rng("three")
        B.same("without a seed the global stream decides", e.sample(**kw), a)


# --------------------------------------------------------------------------------------------------------------- C11
@contract("C11", form=["int", "list"], diff=[0, 1], mpe=[0, 1], only=lambda v: some(v) and v["K"] == "any", **STRUCT)
def einet_given_class(B):
    """Einet.sample(class_index): exactly the given class's root is used for each sample"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    mixing, layers = spies(B, e, v)
    N = B.dim("N", rows=True)
    if v["form"] == "int":
        k = B.int_between("class", 0, z.K - 1)
        want = lambda n: k
        kw = dict(class_index=k, num_samples=N)
    else:
        ks = B.index_tensor("class", [N], z.K)
        ks0 = B.snapshot(ks)
        want = lambda n: B.at(ks0, n)
        kw = dict(class_index=ks.tolist())
    draws = B.tensor("draws", [N, z.C, z.F, z.I])
    log["draw"] = lambda ctx, leaf: draws.clone() if ctx.indices_out is None else draws.clone()[:, :, :, 0]
    B.set_rng("sampling")
    out = e.sample(is_mpe=bool(v["mpe"]), is_differentiable=bool(v["diff"]), **kw)
    B.shape("one sample per class index", out, [N, z.C, z.F])
    for s in [mixing, layers[0]]:
        if s:
            t = s.asked[0][0]
            B.shape("class per sample", t, [N, 1, z.K] if v["diff"] else [N, 1])
            B.forall([N], lambda n: B.eq("the given class is used", chosen(B, "class", t, n, 0, z.K, v["diff"]), want(n)))


@contract("C11", diff=[0, 1], mpe=[0, 1], ev=[0, 1], only=lambda v: some(v) and v["K"] == "any", **STRUCT)
def einet_draws_class(B):
    """Einet.sample: without class_index the class follows the uniform prior, or the posterior given the row's evidence"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    N = B.dim("N", rows=True)
    x = B.tensor("x", [N, z.C, z.F])
    log["ll"] = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    mixing, layers = spies(B, e, v)
    out = B.snapshot(e(x))
    draws = B.tensor("draws", [N, z.C, z.F, z.I])
    log["draw"] = lambda ctx, leaf: draws.clone() if ctx.indices_out is None else draws.clone()[:, :, :, 0]
    B.set_rng("sampling")
    T = B.real("T", pos=True)
    kw = dict(evidence=x) if v["ev"] else dict(num_samples=N)
    e.sample(is_mpe=bool(v["mpe"]), is_differentiable=bool(v["diff"]), temperature_sums=T, **kw)
    t = (mixing or layers[0]).asked[0][0]
    B.forall([N], lambda n: check_choice(B, "class", chosen(B, "class", t, n, 0, z.K, v["diff"]), z.K, lambda k: B.at(out, n, k) if v["ev"] else 0, (n,), v["mpe"]))


@contract("C11", structure=["top-down", "bottom-up"], layer=["linsum"], depth=[1], rest=[0], R=[1, "any"], K=["any"])
def einet_posterior(B):
    """Einet.posterior = log-softmax over the classes of the class log-likelihoods"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    N = B.dim("N", rows=True)
    x = B.tensor("x", [N, z.C, z.F])
    log["ll"] = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    out = B.snapshot(e(x))
    p = e.posterior(x)
    B.shape("one value per row and class", p, [N, z.K])
    B.forall([N, z.K], lambda n, k: B.eq("posterior", B.at(p, n, k), B.at(out, n, k) - B.lse(z.K, lambda j: B.at(out, n, j))))


@contract("C11")
def posterior_formula(B):
    """posterior(ll, K) = log-softmax over the classes"""
    N, K = B.dim("N"), B.dim("K")
    ll = B.tensor("ll", [N, K], loglik=True)
    ll0 = B.snapshot(ll)
    p = B.load("simple_einet.einet").posterior(ll, K)
    B.shape("one value per row and class", p, [N, K])
    B.forall([N, K], lambda n, k: B.eq("posterior", B.at(p, n, k), B.at(ll0, n, k) - B.lse(K, lambda j: B.at(ll0, n, j))))
    B.same("input unchanged", ll, ll0)


# --------------------------------------------------------------------------------------------------------------- C21
@contract("C21", only=lambda v: some(v) and (v["keys"] == "5/2" or v["depth"] == 1), keys=["5/2", "0/1", "1/-1", "0/-1", "1/257"], **STRUCT)
def einet_leaf_cache(B):
    """Einet.forward(cache_index): same value as without, on every call, until reset_cache"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    affine_leaf(B, z, log)
    spies(B, e, v)
    k1, k2 = (int(k) for k in v["keys"].split("/"))
    N, N2 = B.dim("N", rows=True), B.dim("N2")
    x, y = B.tensor("x", [N, z.C, z.F]), B.tensor("y", [N2, z.C, z.F])
    a, b = B.snapshot(e(x)), B.snapshot(e(y))
    first = e(x, cache_index=k1)
    B.same("first cached call", first, a)
    B.same("another index", e(y, cache_index=k2), b)
    B.same("second cached call", e(x, cache_index=k1), a)
    B.same("uncached call in between", e(y), b)
    B.same("third cached call", e(x, cache_index=k1), a)
    B.same("the other index again", e(y, cache_index=k2), b)
    B.same("the first result stays", first, a)
    e.reset_cache()
    B.same("after a reset the index stands for the new data", e(y, cache_index=k1), b)
    B.same("after a reset the other index as well", e(x, cache_index=k2), a)
