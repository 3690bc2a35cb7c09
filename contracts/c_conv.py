"""C16: convolutional probabilistic circuits (conv_pc.py)."""
from . import contract
from .c_sum_sample import check_choice
from .einets import stub_type

MOD = "simple_einet.conv_pc"


def position(B, t, n, h, w, c):
    """the channel a one-hot tensor [N, c, H, W] selects at (n, :, h, w)"""
    return B.sum(c, lambda i: i * B.at(t, n, i, h, w))


def sum_layer(B, kind, ci, co):
    """(layer, H, W, log-weight function (o, i, h, w) -> logit)"""
    m = B.load(MOD)
    if kind == "map":
        H, W = B.dim("H"), B.dim("W")
        l = m.SumLayer(ci, co, H, W)
        B.randomize(l)
        return l, H, W, lambda o, i, h, w: B.at(l.logits, o, i, h, w)
    K = int(kind[-1])
    H, W = K * B.dim("h"), K * B.dim("w")
    l = m.SumConv(ci, co, K)
    B.randomize(l)
    return l, H, W, lambda o, i, h, w: B.at(l.logits, o, i, B.imod(h, K), B.imod(w, K))


KINDS = ["map", "conv1", "conv2", "conv3"]


@contract("C16", kind=KINDS)
def sum_value(B):
    """SumLayer / SumConv forward: out[n,o,h,w] = log sum_i softmax_i(logits[o,:,place]) exp(x[n,i,h,w]), place = position in the
    kernel patch for SumConv"""
    N, ci, co = B.dim("N"), B.dim("Ci"), B.dim("Co")
    l, H, W, logit = sum_layer(B, B.variant["kind"], ci, co)
    x = B.tensor("x", [N, ci, H, W], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("shape", out, [N, co, H, W])

    def at(n, o, h, w):
        p = B.log_softmax(ci, lambda i: logit(o, i, h, w))
        B.eq_at("value", out, (n, o, h, w), B.lse(ci, lambda i: p(i) + B.at(x0, n, i, h, w)))

    B.forall([N, co, H, W], at)
    B.same("input unchanged", x, x0)


def spec_choice(B, logit, T, parent, x, out, N, H, W, ci, mpe):
    def at(n, h, w):
        k = position(B, out, n, h, w, ci)
        B.forall([ci], lambda i: B.eq("one-hot", B.at(out, n, i, h, w), B.ind(i == k)))
        check_choice(B, "choice", k, ci, lambda i: logit(parent(n, h, w), i, h, w) / T + (B.at(x, n, i, h, w) if x is not None else 0), (n, h, w), mpe)

    B.forall([N, H, W], at)


@contract("C16", kind=KINDS, mpe=[0, 1], ev=[0, 1], stat=1)
def sum_choice(B):
    """SumLayer / SumConv sample: at every position channel i with probability prop. to softmax_i(logits[parent,:,place]/T) times
    the cached likelihood of channel i at that position"""
    v = B.variant
    m = B.load(MOD)
    N, ci, co = B.dim("N", rows=True), B.dim("Ci"), B.dim("Co")
    T = B.real("T", pos=True)
    l, H, W, logit = sum_layer(B, v["kind"], ci, co)
    x = B.tensor("x", [N, ci, H, W], loglik=True)
    x0 = B.snapshot(x)
    if v["ev"]:
        l._enable_input_cache()
        l(x)
    p, io = B.one_hot_tensor("parent", [N, H, W], co)
    ctx = m.SamplingContext(num_samples=N, indices_out=io.permute(0, 3, 1, 2).contiguous(), is_mpe=bool(v["mpe"]), temperature_sums=T, is_differentiable=True)
    B.set_rng("sampling")
    res = l.sample(ctx)
    B.true("the context is returned", res is ctx)
    B.shape("shape of the choices", ctx.indices_out, [N, ci, H, W])
    spec_choice(B, logit, T, p, x0 if v["ev"] else None, ctx.indices_out, N, H, W, ci, v["mpe"])
    B.same("evidence unchanged", x, x0)


@contract("C16", kh=[1, 2, 3], kw=[1, 2])
def product(B):
    """ProdConv: a product over each patch of kh x kw positions; sampling hands the choice to every position of the patch"""
    v = B.variant
    m = B.load(MOD)
    kh, kw = v["kh"], v["kw"]
    N, C, h, w = B.dim("N"), B.dim("C"), B.dim("h"), B.dim("w")
    l = m.ProdConv(kh, kw)
    x = B.tensor("x", [N, C, kh * h, kw * w], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("shape", out, [N, C, h, w])
    B.forall([N, C, h, w], lambda n, c, a, b: B.eq_at("product over the patch", out, (n, c, a, b), sum(B.at(x0, n, c, kh * a + i, kw * b + j) for i in range(kh) for j in range(kw))))
    B.same("input unchanged", x, x0)
    t = B.tensor("choice", [N, C, h, w])
    t0 = B.snapshot(t)
    ctx = m.SamplingContext(num_samples=N, indices_out=t)
    res = l.sample(ctx)
    B.true("the context is returned", res is ctx)
    B.shape("shape of the choices", ctx.indices_out, [N, C, kh * h, kw * w])
    B.forall([N, C, kh * h, kw * w], lambda n, c, a, b: B.eq("the patch shares the choice", B.at(ctx.indices_out, n, c, a, b), B.at(t0, n, c, B.idiv(a, kh), B.idiv(b, kw))))
    for bad in ((kh * h + 1, kw * w), (kh * h, kw * w + 1)):
        if (kh if bad[0] is not kh * h and bad[1] == kw * w else kw) > 1:
            B.raises("no pixel is dropped silently", lambda: l(B.tensor("y", [N, C, *bad])), AssertionError)


# ------------------------------------------------------------------------------------------------ whole models


class Spy:
    """a sum layer known to the model by its contract only (see c_einet_sample.Spy), channels on axis 1"""

    def __init__(self, B, layer, name, choices):
        self.B, self.layer, self.name, self.choices = B, layer, name, choices
        self.x = self.y = None
        self.seen, self.asked = [], []
        self.forward0, self.sample0 = layer.forward, layer.sample
        layer.forward, layer.sample = self.forward, self.sample

    def forward(self, x):
        B = self.B
        x0 = B.snapshot(x)
        y = self.forward0(x)
        for xi, yi in self.seen:
            if B.known_same(xi, x0):
                return yi.clone()
        y = B.opaque("value of " + self.name, y)
        self.seen.append((x0, B.snapshot(y)))
        if self.x is None:
            self.x, self.y = self.seen[0]
        return y

    def sample(self, ctx):
        B = self.B
        io = B.snapshot(ctx.indices_out)
        flags = (ctx.is_mpe, ctx.temperature_sums)
        res = self.sample0(ctx)
        real = B.snapshot(res.indices_out)
        if self.choices:
            given = B.opaque_choice("choice of " + self.name, real.permute(0, 2, 3, 1), self.layer.in_channels, True)
            res.indices_out = given.permute(0, 3, 1, 2).contiguous()
        self.asked.append((io, flags, real, B.snapshot(res.indices_out)))
        return res


AX = dict(structure=["bottom-up", "top-down"], order=["sum-prod", "prod-sum"], levels=[1, 2, 3], one=[0, 1], kernel=[1, 2, 3])


def legal(v):
    return v["structure"] == "bottom-up" or v["kernel"] == 2


def model(B, log):
    """(model, sizes); `one`: a single leaf channel"""
    v = B.variant
    m, d = B.load(MOD), B.load("simple_einet.data")
    L, K = v["levels"], v["kernel"]
    ch = [1 if v["one"] and i == 0 else B.dim(f"ch{i}") for i in range(L)]
    unit = K ** (L - 1) if v["structure"] == "bottom-up" else 2 ** L
    H, W, C = unit * B.dim("h", hi=2), unit * B.dim("w", hi=2), B.dim("C")
    cfg = m.ConvPcConfig(channels=ch, kernel_size=K, num_channels=C, leaf_type=stub_type(B, log), structure=v["structure"], order=v["order"])
    B.set_rng("init")
    pc = m.ConvPc(cfg, d.Shape(channels=C, height=H, width=W))
    B.randomize(pc)
    return pc, H, W, C, ch[0]


def sum_layers(B, pc, choices=True):
    """spies on the sum layers, bottom to top"""
    m = B.load(MOD)
    ls = [l for l in (getattr(x, "sum_layer", x) for x in pc.layers) if isinstance(l, m.SumLayer)]
    return [Spy(B, l, f"sum {i}", choices) for i, l in enumerate(ls)]


def patches(structure, order, levels, kernel, H, W):
    """the product kernels below the first sum layer, between the sum layers, ... (bottom to top; several in a row nest)"""
    K = (kernel, kernel)
    if structure == "bottom-up":
        f = kernel ** (levels - 1)
        top = (H // f, W // f)
        if order == "sum-prod":
            return ([[]] + [[K]] * (levels - 2) + [[K, top]]) if levels > 1 else [[top]]
        return [[K]] * (levels - 1) + [[top]]
    base = (H // 2 ** levels, W // 2 ** levels)
    if order == "sum-prod":
        return [[base]] + [[(2, 2)]] * levels
    return [[base, (2, 2)]] + [[(2, 2)]] * (levels - 1) + [[]]


def patch_sum(B, f, kernels, a, b):
    if not kernels:
        return f(a, b)
    (kh, kw), rest = kernels[-1], kernels[:-1]
    return B.sum(kh, lambda i: B.sum(kw, lambda j: patch_sum(B, f, rest, kh * a + i, kw * b + j)))


def shrink(kernels, h, w):
    for kh, kw in kernels:
        h, w = h // kh, w // kw
    return h, w


@contract("C16", only=legal, seconds=200, **AX)
def value(B):
    """ConvPc.forward: every sum layer mixes the products of the values of disjoint patches of the layer below that together cover
    it, down to the pixels (all data channels of a pixel belong together), up to a single root"""
    v = B.variant
    log = {}
    pc, H, W, C, I = model(B, log)
    S = sum_layers(B, pc)
    N = B.dim("N")
    ll = B.tensor("ll", [N, C, H * W, I, 1], loglik=True)
    log["ll"] = ll
    x = B.tensor("x", [N, C, H, W])
    x0 = B.snapshot(x)
    out = pc(x)
    B.same("input unchanged", x, x0)
    leaf, = log["leaves"]
    B.true("one leaf per pixel, data channel and channel", leaf.sizes == (H * W, C, I, 1))
    (lx, ms), = log["calls"]
    B.true("nothing marginalised", ms is None)
    B.shape("data at the leaves", lx, [N, C, H * W])
    B.forall([N, C, H, W], lambda n, c, h, w: B.eq("pixel order", B.at(lx, n, c, h * W + w), B.at(x0, n, c, h, w)))
    ks = patches(v["structure"], v["order"], v["levels"], v["kernel"], H, W)
    B.true("number of sum layers", len(S) == len(ks))
    f = lambda n, i, h, w: B.sum(C, lambda c: B.at(ll, n, c, h * W + w, i, 0))
    h, w, ch = H, W, I
    for s, kernels in zip(S, ks):
        h, w = shrink(kernels, h, w)
        B.shape("input of a sum layer", s.x, [N, ch, h, w])
        B.forall([N, ch, h, w], lambda n, i, a, b: B.eq("products of disjoint patches", B.at(s.x, n, i, a, b), patch_sum(B, lambda y, z: f(n, i, y, z), kernels, a, b)))
        f = lambda n, i, a, b, s=s: B.at(s.y, n, i, a, b)
        ch = s.layer.out_channels
    B.true("a single root", True if ch == 1 else False)
    B.true("the root sees the whole image", True if (h == 1 and w == 1) else False)
    B.shape("shape of the result", out, [N])
    B.forall([N], lambda n: B.eq("value of the root", B.at(out, n), B.at(S[-1].y, n, 0, 0, 0)))


@contract("C16", only=legal, seconds=200, ev=[0, 1], mpe=[0, 1], tier=lambda v: "thorough" if v["levels"] == 3 and (v["mpe"] or v["one"]) else "quick", **AX)
def descends(B):
    """ConvPc.sample: starting from the single root, every sum layer chooses under the choice of the layer above for the patch the
    position belongs to, conditioned on the input the same layer has in the likelihood pass; a pixel is the draw of the leaf channel
    chosen for the patch it belongs to, for all data channels alike"""
    v = B.variant
    log = {}
    pc, H, W, C, I = model(B, log)
    S = sum_layers(B, pc)
    N = B.dim("N", rows=True)
    T, TL = B.real("T", pos=True), B.real("TL", pos=True)
    ll = B.tensor("ll", [N, C, H * W, I, 1], loglik=True)
    draws = B.tensor("draws", [N, C, H * W, I])
    log["ll"] = ll
    got = {}

    def draw(ctx, leaf):
        got["ctx"] = (ctx.indices_out, B.snapshot(ctx.indices_repetition), ctx.is_mpe, ctx.temperature_leaves, ctx.is_differentiable)
        return draws.clone()

    log["draw"] = draw
    x = B.tensor("x", [N, C, H, W], nan=True)
    x0 = B.snapshot(x)
    if v["ev"]:
        pc(x)
    B.set_rng("sampling")
    kw = dict(evidence=x) if v["ev"] else dict(num_samples=N)
    s = pc.sample(is_mpe=bool(v["mpe"]), temperature_sums=T, temperature_leaves=TL, **kw)
    ks = patches(v["structure"], v["order"], v["levels"], v["kernel"], H, W)
    hs = []
    h, w = H, W
    for kernels in ks:
        h, w = shrink(kernels, h, w)
        hs.append((h, w))
    up = lambda n, a, b: 0  # the root
    for l, kernels, (h, w) in reversed(list(zip(S, ks, hs))):
        B.true("every layer is asked exactly once", len(l.asked) == 1)
        io, (mpe, t), real, given = l.asked[0]
        B.true("sampling options reach the layers", mpe == bool(v["mpe"]))
        B.eq("temperature", t, T)
        ci, co = l.layer.in_channels, l.layer.out_channels
        B.shape("what the layer is asked", io, [N, co, h, w])
        B.forall([N, co, h, w], lambda n, o, a, b: B.eq("asked for what the layer above chose for the patch", B.at(io, n, o, a, b), B.ind(up(n, a, b) == o)))
        W_ = l.layer.logits
        spec_choice(B, lambda o, i, a, b: B.at(W_, o, i, a, b), T, up, l.x if v["ev"] else None, real, N, h, w, ci, v["mpe"])
        up = down(B, lambda n, a, b, given=given, ci=ci: position(B, given, n, a, b, ci), kernels)
    out, rep, mpe, t, diff = got["ctx"]
    B.true("all leaf channels are drawn", out is None)
    B.true("options reach the leaf", mpe == bool(v["mpe"]) and diff is True)
    B.eq("leaf temperature", t, TL)
    B.shape("the only repetition", rep, [N, 1])
    B.forall([N], lambda n: B.eq("the only repetition", B.at(rep, n, 0), 1))
    B.shape("shape", s, [N, C, H, W])

    def pixel(n, c, a, b):
        d = B.at(draws, n, c, a * W + b, up(n, a, b))
        if not v["ev"]:
            B.eq("draw of the chosen leaf", B.at(s, n, c, a, b), d)
        elif B.isnan(x0, n, c, a, b):
            B.eq("draw of the chosen leaf", B.at(s, n, c, a, b), d)
        else:
            B.eq("evidence kept", B.at(s, n, c, a, b), B.at(x0, n, c, a, b))

    B.forall([N, C, H, W], pixel)
    B.same("evidence unchanged", x, x0)


def down(B, f, kernels):
    for kh, kw in reversed(kernels):
        f = lambda n, a, b, f=f, kh=kh, kw=kw: f(n, B.idiv(a, kh), B.idiv(b, kw))
    return f


# -------------------------------------------------------------------------------------------- missing data, later calls, seeds
def some(v):
    return legal(v) and v["kernel"] == 2 and not v["one"] and v["levels"] <= 2


def model_sizes(B):
    log = {}
    pc, H, W, C, I = model(B, log)
    return log, pc, H, W, C, I, B.dim("N", rows=True)


@contract("C16", only=legal, **AX)
def normalised(B):
    """a fully missing image (every leaf contributes a factor of one) has log-likelihood 0"""
    log, pc, H, W, C, I, N = model_sizes(B)
    log["ll"] = B.torch.zeros(N, C, H * W, I, 1)
    out = pc(B.tensor("x", [N, C, H, W]))
    B.shape("shape", out, [N])
    B.forall([N], lambda n: B.eq("log-likelihood of nothing", B.at(out, n), 0))


@contract("C16", only=lambda v: legal(v) and v["levels"] <= 2, seconds=200, **AX)
def every_pixel_once(B):
    """each pixel and data channel occurs exactly once in every product: a term g[n,c,h,w] added to the log-densities of all its leaf
    channels is added to the log-likelihood"""
    log, pc, H, W, C, I, N = model_sizes(B)
    g = B.tensor("g", [N, C, H * W])
    log["ll"] = (g.unsqueeze(-1).unsqueeze(-1)).expand(N, C, H * W, I, 1)
    out = pc(B.tensor("x", [N, C, H, W]))
    v = B.variant
    # the pixels in mixed-radix order: patch by patch
    nested = sum(patches(v["structure"], v["order"], v["levels"], v["kernel"], H, W), [])
    B.forall([N], lambda n: B.eq("sum over all pixels", B.at(out, n), patch_sum(B, lambda a, b: B.sum(C, lambda c: B.at(g, n, c, a * W + b)), nested, 0, 0)))


def affine_leaf(B, C, P, I, log):
    a, b = B.tensor("slope", [C, P, I, 1]), B.tensor("offset", [C, P, I, 1])
    log["ll"] = lambda x, leaf: a.unsqueeze(0) * x.unsqueeze(-1).unsqueeze(-1) + b.unsqueeze(0)


@contract("C04", only=some, **AX)
def conv_rowwise(B):
    """ConvPc.forward: row n of a batch is the result for that row alone; repeated calls agree; nothing is modified"""
    log, pc, H, W, C, I, N = model_sizes(B)
    affine_leaf(B, C, H * W, I, log)
    x = B.tensor("x", [N, C, H, W])
    x0, ps = B.snapshot(x), [(p, B.snapshot(p)) for p in pc.parameters()]
    out = pc(x)
    out0 = B.snapshot(out)
    B.shape("one value per row", out, [N])
    n = B.int_between("row", 0, N - 1)
    one = pc(x0[n].unsqueeze(0))
    B.shape("one row", one, [1])
    B.eq("a row on its own", B.at(one, 0), B.at(out0, n))
    B.same("a second call", pc(x), out0)
    B.same("input unchanged", x, x0)
    for p, p0 in ps:
        B.same("parameters unchanged", p, p0)


@contract("C05", only=some, marg=["none", "list", "tensor"], mpe=[0, 1], **AX)
def conv_keeps_evidence(B):
    """ConvPc.sample with evidence: observed entries stay, missing and marginalised ones are drawn given the others"""
    v = B.variant
    log, pc, H, W, C, I, N = model_sizes(B)
    S = sum_layers(B, pc)
    x = B.tensor("x", [N, C, H, W], nan=True)
    x0 = B.snapshot(x)
    log["ll"] = B.tensor("ll", [N, C, H * W, I, 1], loglik=True)
    draws = B.tensor("draws", [N, C, H * W, I])
    log["draw"] = lambda ctx, leaf: draws.clone()
    hit = lambda f: False
    marg = None
    if v["marg"] != "none":
        M = B.dim("M")
        marg = B.index_tensor("marg", [M], H * W)
        m0 = B.snapshot(marg)
        hit = lambda f: B.exists(M, lambda k: f == B.at(m0, k))
        if v["marg"] == "list":
            marg = marg.tolist()
    B.set_rng("sampling")
    out = pc.sample(evidence=x, is_mpe=bool(v["mpe"]), marginalized_scopes=marg)
    seen, m = log["calls"][0]
    B.true("the likelihood pass sees the marginalised scopes", m is marg)
    B.forall([N, C, H, W], lambda n, c, a, b: B.eq_at("the likelihood pass sees the evidence", seen, (n, c, a * W + b), B.at(x0, n, c, a, b)) if not B.isnan(x0, n, c, a, b) else B.nan_at("missing", seen, (n, c, a * W + b)))
    B.shape("shape of the evidence", out, [N, C, H, W])
    ks = patches(v["structure"], v["order"], v["levels"], v["kernel"], H, W)
    bottom = S[0].asked[0][3]
    leaf = down(B, lambda n, a, b: position(B, bottom, n, a, b, I), ks[0])

    def at(n, c, a, b):
        if hit(a * W + b):
            B.eq_at("marginalised entries are drawn", out, (n, c, a, b), B.at(draws, n, c, a * W + b, leaf(n, a, b)))
        elif B.isnan(x0, n, c, a, b):
            B.eq_at("missing entries are drawn", out, (n, c, a, b), B.at(draws, n, c, a * W + b, leaf(n, a, b)))
        else:
            B.eq_at("observed entries stay", out, (n, c, a, b), B.at(x0, n, c, a, b))

    B.forall([N, C, H, W], at)
    B.same("evidence unchanged", x, x0)


ENDINGS = ["normal", "mpe", "fails in the likelihood pass", "fails in a layer", "fails at the leaf", "bad count"]


class Stop(Exception):
    pass


def stop(*a, **k):
    raise Stop()


@contract("C09", only=some, end=ENDINGS, **AX)
def conv_forgets(B):
    """ConvPc.sample with evidence, however it ends, has no effect on later calls"""
    v = B.variant
    log, pc, H, W, C, I, N = model_sizes(B)
    N2 = B.dim("N2")
    x, y = B.tensor("x", [N, C, H, W]), B.tensor("y", [N2, C, H, W])
    ll, ll2 = B.tensor("ll", [N, C, H * W, I, 1], loglik=True), B.tensor("ll2", [N2, C, H * W, I, 1], loglik=True)
    draws, draws2 = B.tensor("draws", [N, C, H * W, I]), B.tensor("draws2", [N2, C, H * W, I])
    ps = [(p, B.snapshot(p)) for p in pc.parameters()]
    sum_layers(B, pc, choices=False)

    def later():
        log["ll"], log["draw"] = ll2, lambda ctx, leaf: draws2.clone()
        l = B.snapshot(pc(y))
        B.set_rng("later")
        s = pc.sample(num_samples=N2)
        B.set_rng("later")
        return l, B.snapshot(s), B.snapshot(pc.sample(evidence=y))

    before = later()
    log["ll"], log["draw"] = ll, lambda ctx, leaf: draws.clone()
    B.set_rng("first")
    end = v["end"]
    target, kw = None, {}
    if end == "fails in the likelihood pass":
        log["ll"] = stop
    elif end == "fails at the leaf":
        log["draw"] = stop
    elif end == "fails in a layer":
        target = pc.layers[0]
        old = target.sample
        target.sample = stop
    elif end == "bad count":
        kw["num_samples"] = N + 1
        log["draw"] = lambda ctx, leaf: B.torch.zeros(N + 1, C, H * W, I)
    res, exc = B.attempt(lambda: pc.sample(evidence=x, is_mpe=end == "mpe", **kw))
    if target is not None:
        target.sample = old
    if end != "bad count":
        B.true("the call ends as planned", (exc is not None) == end.startswith("fails"))
    for name, a, b in zip(("log-likelihood", "sample", "conditional sample"), later(), before):
        B.same("a later " + name, a, b)
    for p, p0 in ps:
        B.same("parameters unchanged", p, p0)


@contract("C10", only=some, end=["plain", "evidence", "mpe", "fails at the leaf", "fails in the likelihood pass"], **AX)
def conv_seed(B):
    """ConvPc.sample(seed=s): a function of model, arguments and s; the global random state is restored, also after a failure"""
    v = B.variant
    log, pc, H, W, C, I, N = model_sizes(B)
    end = v["end"]
    sum_layers(B, pc, choices=False)
    x = B.tensor("x", [N, C, H, W], nan=True)
    log["ll"] = B.tensor("ll", [N, C, H * W, I, 1], loglik=True)
    log["draw"] = lambda ctx, leaf: B.torch.randn(N, C, H * W, I)
    kw = dict(num_samples=N)
    if end in ("evidence", "mpe", "fails in the likelihood pass"):
        kw = dict(evidence=x)
    if end == "mpe":
        kw["is_mpe"] = True
    if end == "fails at the leaf":
        log["draw"] = stop
    if end == "fails in the likelihood pass":
        log["ll"] = stop
    res = []
    for tag in ("one", "two"):
        B.set_rng(tag)
        B.torch.rand(3)
        key = B.rng_key()
        r, exc = B.attempt(lambda: pc.sample(seed=1234, **kw))
        B.true("the call ends as planned", (exc is not None) == end.startswith("fails"))
        B.true("the global random state is restored", B.rng_key() == key)
        res.append(r)
    if res[0] is not None:
        B.same("the same seed gives the same result", res[0], res[1])
    if end in ("plain", "evidence"):
        B.set_rng("three")
        key = B.rng_key()
        a = pc.sample(**kw)
        B.true("the global random stream is advanced", B.rng_key() != key)
        B.set_rng("three")
        B.same("without a seed the global stream decides", pc.sample(**kw), a)
