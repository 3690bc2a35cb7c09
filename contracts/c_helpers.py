"""C22: the small helpers every pass and every training script uses."""
from . import contract
from .einets import Sizes, model, stub_type


@contract("C22")
def inverse_permutation(B):
    """invert_permutation: q[p[i]] = i and p[q[i]] = i"""
    n = B.dim("n")
    p, _ = B.permutation("p", n)
    p0 = B.snapshot(p)
    q = B.load("simple_einet.utils").invert_permutation(p)
    B.shape("shape", q, [n])

    def at(i):
        B.eq("undoes", B.at(q, B.at(p0, i)), i)
        B.eq("is undone", B.at(p0, B.at(q, i)), i)

    B.forall([n], at)
    B.same("input untouched", p, p0)


@contract("C22", gauss=[True, False], rank=[1, 2])
def bits_per_dimension(B):
    """calc_bpd: the mean of -log2 p per dimension; densities of data scaled to bins of width 1 / n_bins count as that bin's probability"""
    v = B.variant
    dims = [B.dim("N"), B.dim("K")][: v["rank"]]
    c, h, w, bins = B.dim("c"), B.dim("h"), B.dim("w"), B.dim("bins", lo=2)
    lp = B.tensor("lp", dims)
    lp0 = B.snapshot(lp)
    out = B.load("simple_einet.utils").calc_bpd(lp, (c, h, w), v["gauss"], bins)
    n = c * h * w
    total = 1
    for d in dims:
        total = total * d
    s = B.sum(dims[0], lambda i: B.at(lp0, i) if v["rank"] == 1 else B.sum(dims[1], lambda j: B.at(lp0, i, j)))
    mean = s / total
    if v["gauss"]:
        mean = mean - n * B.log(bins)
    B.eq("bits per dimension", out, -mean / (n * B.log(2)))
    B.same("input untouched", lp, lp0)


@contract("C22", roots=["one", "many"], targets=[False, True])
def class_log_likelihood(B):
    """main.log_likelihoods: the chosen class's log-likelihood, without a choice that of the uniform mixture over the classes"""
    v = B.variant
    N = B.dim("N")
    K = 1 if v["roots"] == "one" else B.dim("K", lo=2)
    out = B.tensor("out", [N, K])
    f = B.load("main").log_likelihoods
    if v["targets"]:
        y = B.index_tensor("y", [N], K)
        ll = f(out, y)
        B.shape("one per row", ll, [N, 1])
        B.forall([N], lambda n: B.eq("the label's", B.at(ll, n, 0), B.at(out, n, B.at(y, n))))
    elif v["roots"] == "one":
        B.same("the only class", f(out), out)
    else:
        ll = f(out)
        B.shape("one per row", ll, [N])
        B.forall([N], lambda n: B.eq_at("uniform mixture of the classes", ll, (n,), B.lse(K, lambda k: B.at(out, n, k)) - B.log(K)))


class Cfg:
    def __init__(self, **k):
        self.__dict__.update(k)


def lit(B, kind, dist, spn, criterion=None):
    """a training module around the given circuit"""
    M = B.load("models_pl")
    cls = getattr(M, kind)
    m = cls.__new__(cls)
    B.torch.nn.Module.__init__(m)
    m.__dict__["spn"] = spn
    m.cfg = Cfg(dist=getattr(B.load("simple_einet.dist").Dist, dist))
    m.__dict__["logged"] = {}
    m.__dict__["log"] = lambda key, value, *a, **k: m.logged.__setitem__(key, value)
    if kind == "SpnDiscriminative":
        m.criterion = B.torch.nn.NLLLoss()
    return m


class Circuit:
    def __init__(self, ll):
        self.ll, self.seen = ll, []

    def __call__(self, x):
        self.seen.append(x)
        return self.ll

    def posterior(self, x):
        self.seen.append(x)
        return self.ll


def scaled(B, x0, seen, dist):
    """binomial leaves count grey levels: the intensities are scaled to 0 .. 255 for them, and for them only"""
    B.true("one pass", len(seen) == 1)
    dims = list(x0.shape)
    B.shape("data shape", seen[0], dims)
    f = 255 if dist == "BINOMIAL" else 1
    B.forall(dims, lambda *i: B.eq("scaled for binomial leaves only", B.at(seen[0], *i), f * B.at(x0, *i)))


DISTS = ["NORMAL", "NORMAL_RAT", "BINOMIAL", "CATEGORICAL", "MULTIVARIATE_NORMAL", "PIECEWISE_LINEAR"]


@contract("C22", dist=DISTS, step=["training_step", "validation_step", "test_step"])
def generative_loss(B):
    """SpnGenerative: the loss is the mean negative log-likelihood of the batch"""
    v = B.variant
    N, D, K = B.dim("N"), B.dim("D"), B.dim("K")
    ll, x = B.tensor("ll", [N, K]), B.tensor("x", [N, D], lo=0, hi=1)
    x0, ll0 = B.snapshot(x), B.snapshot(ll)
    c = Circuit(ll)
    m = lit(B, "SpnGenerative", v["dist"], c)
    nll = getattr(m, v["step"])((x, B.index_tensor("y", [N], K)), 0)
    key = {"training_step": "Train/loss", "validation_step": "Val/loss", "test_step": "Test/train_nll"}[v["step"]]
    want = -B.sum(N, lambda n: B.sum(K, lambda k: B.at(ll0, n, k))) / (N * K)
    B.eq("logged", m.logged[key], want)
    if v["step"] != "test_step":
        B.eq("returned", nll, want)
    scaled(B, x0, c.seen, v["dist"])


@contract("C22", reduction=["mean", "sum", "median"])
def reductions(B):
    """SpnGenerative.negative_log_likelihood: mean or sum over the batch, anything else is refused"""
    r = B.variant["reduction"]
    N, D = B.dim("N"), B.dim("D")
    ll, x = B.tensor("ll", [N, 1]), B.tensor("x", [N, D])
    m = lit(B, "SpnGenerative", "NORMAL", Circuit(ll))
    if r == "median":
        B.raises("unknown reduction", lambda: m.negative_log_likelihood(x, reduction=r), (ValueError,))
        return
    s = -B.sum(N, lambda n: B.at(ll, n, 0))
    B.eq("reduced", m.negative_log_likelihood(x, reduction=r), s / N if r == "mean" else s)


@contract("C22", dist=["NORMAL", "BINOMIAL"], step=["training_step", "validation_step", "test_step"])
def discriminative_loss(B):
    """SpnDiscriminative: cross entropy of the labels under the posterior, and the share of rows whose label is the likeliest class"""
    v = B.variant
    N, D, K = B.dim("N"), B.dim("D"), B.dim("K", lo=2)
    post, x = B.tensor("post", [N, K]), B.tensor("x", [N, D], lo=0, hi=1)
    y = B.index_tensor("y", [N], K)
    x0, p0 = B.snapshot(x), B.snapshot(post)
    c = Circuit(post)
    m = lit(B, "SpnDiscriminative", v["dist"], c)
    loss = getattr(m, v["step"])((x, y), 0)
    want = -B.sum(N, lambda n: B.at(p0, n, B.at(y, n))) / N
    acc = B.sum(N, lambda n: B.ite(B.both(B.argmaxi(K, lambda k: B.at(p0, n, k)) >= B.at(y, n), B.argmaxi(K, lambda k: B.at(p0, n, k)) <= B.at(y, n)), 1, 0)) / N
    name = {"training_step": "Train", "validation_step": "Val", "test_step": "Test/train"}[v["step"]]
    sep = "_" if v["step"] == "test_step" else "/"
    B.eq("accuracy", m.logged[f"{name}{sep}accuracy"], acc)
    if v["step"] != "test_step":
        B.eq("cross entropy", loss, want)
        B.eq("logged", m.logged[f"{name}/loss"], want)
    scaled(B, x0, c.seen, v["dist"])


@contract("C22", tier=lambda v: "quick" if v["batches"] < 3 else "thorough", layout=["3d", "4d"], batches=[1, 2, 3], mixture=[False, True])
def leaf_statistics(B):
    """init_einet_stats: every leaf starts at its feature's mean, with at least its feature's variance, over all rows of all batches"""
    v = B.variant
    B.note_bounded("one to three batches, each of any size")
    Normal = B.load("simple_einet.layers.distributions.normal").Normal
    h, w = B.dim("h", lo=2), B.dim("w")
    z = Sizes()
    z.D, z.F, z.C, z.I, z.S, z.R, z.K = 1, 2 * h * w, B.dim("C"), B.dim("I"), 2, B.dim("R"), 1
    cfg = dict(structure="top-down", layer="linsum")
    if v["mixture"]:
        E = B.load("simple_einet.einet").EinetConfig
        nets = B.load("simple_einet.mixture").Mixture(
            n_components=2,
            config=E(num_features=z.F, num_channels=z.C, num_sums=2, num_leaves=z.I, num_repetitions=z.R, num_classes=1, depth=1, dropout=0.0, leaf_type=Normal,
                     leaf_kwargs={}, layer_type="linsum", structure="top-down"))
        models = list(nets.models)
    else:
        nets = model(B, z, Normal, cfg)
        models = [nets]
    N = [B.dim(f"N{b}", lo=1, hi=None if B.symbolic else 6) for b in range(v["batches"])]
    dims = [z.C, z.F] if v["layout"] == "3d" else [z.C, 2 * h, w]
    xs = [B.tensor(f"x{b}", [n] + dims) for b, n in enumerate(N)]
    x0 = [B.snapshot(x) for x in xs]
    B.set_rng("stats")
    B.load("simple_einet.sampling_utils").init_einet_stats(nets, [(x, B.index_tensor("y", [n], 2)) for x, n in zip(xs, N)])
    rows = 0
    for n in N:
        rows = rows + n

    def entry(b, n, c, f):
        return B.at(x0[b], n, c, f) if v["layout"] == "3d" else B.at(x0[b], n, c, B.idiv(f, w), B.imod(f, w))

    def moments(c, f):
        mean = 0
        for b in range(len(N)):
            mean = mean + B.sum(N[b], lambda n: entry(b, n, c, f))
        mean = mean / rows
        var = 0
        for b in range(len(N)):
            var = var + B.sum(N[b], lambda n: (entry(b, n, c, f) - mean) * (entry(b, n, c, f) - mean))
        return mean, var / rows

    def scale():
        """a tenth of the spread of the means over the whole leaf tensor"""
        ms = B.torch.tensor([moments(c, f)[0] for c in range(int(z.C)) for f in range(int(z.F)) for _ in range(int(z.I) * int(z.R))])
        return 0.1 * ms.std()

    for m in models:
        leaf = m.leaf.base_leaf
        B.shape("means", leaf.means, [1, z.C, z.F, z.I, z.R])
        B.shape("log-variances", leaf.logvar, [1, z.C, z.F, z.I, z.R])

        def at(c, f, i, r):
            mean, var = moments(c, f)
            B.is_shifted_noise("the feature's mean plus noise", B.at(leaf.means, 0, c, f, i, r), mean, (c, f, i, r), scale)
            B.true("positive variance, not below the feature's", B.exp(B.at(leaf.logvar, 0, c, f, i, r)) >= (var + 1e-3) * (1 - 1e-6))

        B.forall([z.C, z.F, z.I, z.R], at)
