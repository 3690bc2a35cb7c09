"""C13: leaf layers composed of several families."""
import itertools

from . import contract
from .c_leaf import leaf_ctx

MD = "simple_einet.layers.distributions.multidistribution"


def partitions():
    """every way to hand the features 0..F-1 (F = 1, 2, 3), in any order, to non-empty consecutive groups; some for F = 4, 5"""
    res = []
    for F in (1, 2, 3):
        for perm in itertools.permutations(range(F)):
            for cuts in itertools.product([0, 1], repeat=F - 1):
                g, groups = [perm[0]], []
                for c, p in zip(cuts, perm[1:]):
                    if c:
                        groups.append(g)
                        g = []
                    g.append(p)
                res.append(groups + [g])
    return res + [[[0, 2], [1, 3]], [[3, 1], [2], [0]], [[2], [3, 0, 1]], [[1, 2], [3, 0]], [[4, 0], [3, 1], [2]], [[0, 1, 2, 3, 4]], [[1, 3], [0, 4, 2]]]


ALL = [";".join(",".join(map(str, g)) for g in p) for p in partitions()]
PARTS = ALL[:5] + ALL[5:29:4] + ALL[-7:]


def stub(B, log):
    AbstractLeaf = B.load("simple_einet.layers.distributions.abstract_leaf").AbstractLeaf

    class Part(AbstractLeaf):
        """an arbitrary univariate family: log-density slope*x + offset of the feature, arbitrary draws and parameters"""

        def __init__(self, num_features, num_channels, num_leaves, num_repetitions=1, mine=None, nparam=1):
            super().__init__(num_features=num_features, num_channels=num_channels, num_leaves=num_leaves, num_repetitions=num_repetitions)
            self.mine, self.nparam = mine, nparam
            self.sizes = (num_features, num_channels, num_leaves, num_repetitions)
            log.setdefault("parts", []).append(self)

        def _get_base_distribution(self, ctx=None):
            raise NotImplementedError()

        def forward(self, x, marginalized_scopes=None):
            a, b = log["slope"][:, self.mine], log["offset"][:, self.mine]
            return a.unsqueeze(0) * x.unsqueeze(-1).unsqueeze(-1) + b.unsqueeze(0)

        def sample(self, ctx):
            self.asked = None if ctx.indices_out is None else B.snapshot(ctx.indices_out)
            if ctx.return_leaf_params:
                p = log["params"][:, :, self.mine]
                p = p[..., : self.nparam]
                return p.clone() if ctx.indices_out is None else p[:, :, :, 0].clone()
            d = log["draws"][:, :, self.mine]
            return d.clone() if ctx.indices_out is None else d[:, :, :, 0].clone()

        def get_params(self):
            return log["allparams"][:, :, self.mine][..., : self.nparam].clone()

    return Part


def build(B):
    parts = [[int(i) for i in g.split(",")] for g in B.variant["parts"].split(";")]
    F = sum(len(g) for g in parts)
    B.note_bounded("scopes: every partition of at most 3 features, selected ones of 4 and 5; all other sizes unbounded")
    C, I, R = B.dim("C"), B.dim("I"), B.dim("R")
    log = {}
    Part = stub(B, log)
    l = B.load(MD).MultiDistributionLayer(scopes_to_dist=[(g, Part, {"mine": list(g), "nparam": 1 + k % 2}) for k, g in enumerate(parts)], num_features=F, num_channels=C, num_leaves=I, num_repetitions=R)
    for p, g in zip(log["parts"], parts):
        B.true("every family gets its own number of features", p.sizes[0] == len(g) and p.sizes[1] == C and p.sizes[2] == I and p.sizes[3] == R)
    log["slope"], log["offset"] = B.tensor("slope", [C, F, I, R]), B.tensor("offset", [C, F, I, R])
    return l, log, parts, F, C, I, R


@contract("C13", parts=PARTS, scopes=["none", "list", "tensor"], only=lambda v: v["scopes"] == "none" or v["parts"] in PARTS[::4])
def multi_forward(B):
    """MultiDistributionLayer.forward: feature f is evaluated by the family it was given to, results in feature order"""
    l, log, parts, F, C, I, R = build(B)
    N = B.dim("N")
    x = B.tensor("x", [N, C, F])
    x0 = B.snapshot(x)
    marg, hit = None, lambda f: False
    if B.variant["scopes"] != "none":
        m = B.int_between("m", 0, F - 1)
        marg = [m] if B.variant["scopes"] == "list" else B.torch.tensor([m])
        hit = lambda f: f == m
    out = l(x, marg)
    B.shape("shape", out, [N, C, F, I, R])
    for f in range(F):
        if hit(f):
            B.forall([N, C, I, R], lambda n, c, i, r: B.eq_at("marginalised", out, (n, c, f, i, r), 0))
        else:
            B.forall([N, C, I, R], lambda n, c, i, r: B.eq_at("the feature's own log-density", out, (n, c, f, i, r), B.at(log["slope"], c, f, i, r) * B.at(x0, n, c, f) + B.at(log["offset"], c, f, i, r)))
    B.same("input unchanged", x, x0)


@contract("C13", parts=PARTS, diff=[0, 1], parents=[0, 1], params=[0, 1], only=lambda v: v["parts"] in PARTS[::3] or not (v["diff"] or v["params"] or v["parents"]))
def multi_sample(B):
    """MultiDistributionLayer.sample: every family is asked for the selection of its own features; draws / parameters in feature order"""
    v = B.variant
    l, log, parts, F, C, I, R = build(B)
    N = B.dim("N")
    ctx, p, r = leaf_ctx(B, N, F, I, R, v["diff"], 0, 1.0, parents=bool(v["parents"]), params=bool(v["params"]))
    log["draws"] = B.tensor("draws", [N, C, F, I])
    log["params"] = B.tensor("params", [N, C, F, I, 2])
    io0 = None if ctx.indices_out is None else B.snapshot(ctx.indices_out)
    out = l.sample(ctx)
    for g, part in zip(parts, log["parts"]):
        got = part.asked
        if io0 is None:
            B.true("no selection", got is None)
        else:
            for j, f in enumerate(g):
                B.forall([N] + ([I] if v["diff"] else []), lambda n, *i: B.eq("the selection of its own feature", B.at(got, n, j, *i), B.at(io0, n, f, *i)))
    dims = [N, C] + ([] if v["parents"] else [I])
    width = max(1 + k % 2 for k in range(len(parts)))
    B.shape("shape", out, [N, C, F] + dims[2:] + ([width] if v["params"] else []))
    for k, g in enumerate(parts):
        for f in g:
            def at(n, c, *i):
                i0 = i or (0,)
                if not v["params"]:
                    B.eq_at("value of the feature", out, (n, c, f) + i, B.at(log["draws"], n, c, f, *i0))
                    return
                for q in range(width):
                    want = B.at(log["params"], n, c, f, *i0, q) if q < 1 + k % 2 else 0
                    B.eq_at("parameter of the feature", out, (n, c, f) + i + (q,), want)

            B.forall(dims, at)


@contract("C13", parts=PARTS[::2])
def multi_params(B):
    """MultiDistributionLayer.get_params: parameters in feature order"""
    l, log, parts, F, C, I, R = build(B)
    log["allparams"] = B.tensor("allparams", [1, C, F, I, R, 2])
    out = l.get_params()
    width = max(1 + k % 2 for k in range(len(parts)))
    B.shape("shape", out, [1, C, F, I, R, width])
    for k, g in enumerate(parts):
        for f in g:
            for q in range(width):
                B.forall([C, I, R], lambda c, i, r: B.eq("parameter of the feature", B.at(out, 0, c, f, i, r, q), B.at(log["allparams"], 0, c, f, i, r, q) if q < 1 + k % 2 else 0))


def any_sizes(B):
    """any number of features per family, handed out in any order"""
    v = B.variant
    K = v["families"]
    C, I, R = B.dim("C"), B.dim("I"), B.dim("R")
    sizes = [B.dim(f"n{k}") for k in range(K)]
    F = sizes[0]
    for n in sizes[1:]:
        F = F + n
    log = {}
    Part = stub(B, log)
    if v["order"] == "any":
        perm, inv = B.permutation("perm", F)
        pos = lambda f: inv(f)
    else:
        perm = B.torch.arange(F)
        pos = lambda f: f
    bounds, groups = [0], []
    for n in sizes:
        groups.append(perm[bounds[-1] : bounds[-1] + n])
        bounds.append(bounds[-1] + n)
    scopes_to_dist = [(g.tolist(), Part, {"mine": g, "nparam": 1 + k % 2}) for k, g in enumerate(groups)]
    l = B.load(MD).MultiDistributionLayer(scopes_to_dist=scopes_to_dist, num_features=F, num_channels=C, num_leaves=I, num_repetitions=R)
    for p, n in zip(log["parts"], sizes):
        B.true("every family gets its own number of features", B.both(B.both(p.sizes[0] == n, p.sizes[1] == C), B.both(p.sizes[2] == I, p.sizes[3] == R)))
    log["slope"], log["offset"] = B.tensor("slope", [C, F, I, R]), B.tensor("offset", [C, F, I, R])
    return l, log, groups, bounds, pos, F, C, I, R


ANY = dict(families=[1, 2, 3, 4], order=["any", "sorted"])


@contract("C13", scopes=["none", "one"], **ANY)
def multi_forward_any(B):
    """MultiDistributionLayer.forward, any number of features in any order: feature f is evaluated by its family on its own value"""
    l, log, groups, bounds, pos, F, C, I, R = any_sizes(B)
    N = B.dim("N")
    x = B.tensor("x", [N, C, F])
    x0 = B.snapshot(x)
    marg, m = None, None
    if B.variant["scopes"] == "one":
        m = B.int_between("m", 0, F - 1)
        marg = B.torch.tensor([m])
    out = l(x, marg)
    B.shape("shape", out, [N, C, F, I, R])

    def at(n, c, f, i, r):
        own = B.at(log["slope"], c, f, i, r) * B.at(x0, n, c, f) + B.at(log["offset"], c, f, i, r)
        B.eq_at("the feature's own log-density", out, (n, c, f, i, r), own if m is None else B.ite(f == m, 0, own))

    B.forall([N, C, F, I, R], at)
    B.same("input unchanged", x, x0)


@contract("C13", diff=[0, 1], parents=[0, 1], params=[0, 1], **ANY)
def multi_sample_any(B):
    """MultiDistributionLayer.sample, any number of features in any order: selections, draws and parameters stay with their feature"""
    v = B.variant
    l, log, groups, bounds, pos, F, C, I, R = any_sizes(B)
    N = B.dim("N")
    ctx, p, r = leaf_ctx(B, N, F, I, R, v["diff"], 0, 1.0, parents=bool(v["parents"]), params=bool(v["params"]))
    log["draws"] = B.tensor("draws", [N, C, F, I])
    log["params"] = B.tensor("params", [N, C, F, I, 2])
    io0 = None if ctx.indices_out is None else B.snapshot(ctx.indices_out)
    out = l.sample(ctx)
    for k, g in enumerate(groups):
        got = log["parts"][k].asked
        if io0 is None:
            B.true("no selection", got is None)
        else:
            B.forall([N, bounds[k + 1] - bounds[k]] + ([I] if v["diff"] else []), lambda n, j, *i: B.eq("the selection of its own feature", B.at(got, n, j, *i), B.at(io0, n, B.at(g, j), *i)))
    dims = [N, C, F] + ([] if v["parents"] else [I])
    width = min(2, len(groups))
    B.shape("shape", out, dims + ([width] if v["params"] else []))

    def at(n, c, f, *i):
        i0 = i or (0,)
        if not v["params"]:
            B.eq_at("value of the feature", out, (n, c, f) + i, B.at(log["draws"], n, c, f, *i0))
            return
        for q in range(width):
            want = 0
            for k in range(len(groups)):
                if q < 1 + k % 2:
                    mine = B.both(pos(f) >= bounds[k], pos(f) < bounds[k + 1])
                    want = B.ite(mine, B.at(log["params"], n, c, f, *i0, q), want)
            B.eq_at("parameter of the feature", out, (n, c, f) + i + (q,), want)

    B.forall(dims, at)


@contract("C13", **ANY)
def multi_params_any(B):
    """MultiDistributionLayer.get_params, any number of features in any order: parameters stay with their feature"""
    l, log, groups, bounds, pos, F, C, I, R = any_sizes(B)
    log["allparams"] = B.tensor("allparams", [1, C, F, I, R, 2])
    out = l.get_params()
    width = min(2, len(groups))
    B.shape("shape", out, [1, C, F, I, R, width])

    def at(c, f, i, r):
        for q in range(width):
            want = 0
            for k in range(len(groups)):
                if q < 1 + k % 2:
                    mine = B.both(pos(f) >= bounds[k], pos(f) < bounds[k + 1])
                    want = B.ite(mine, B.at(log["allparams"], 0, c, f, i, r, q), want)
            B.eq("parameter of the feature", B.at(out, 0, c, f, i, r, q), want)

    B.forall([C, F, I, R], at)


BAD = ["0,1;1", "0;0", "0,0;1", "1,2;3", "0;2", "0;1;1", "0,2;2,1", "-1,0;1"]


@contract("C13", parts=BAD, seeds=1)
def multi_rejects(B):
    """scopes that are not a partition of the features are rejected"""
    log = {}
    Part = stub(B, log)
    parts = [[int(i) for i in g.split(",")] for g in B.variant["parts"].split(";")]
    for F in range(1, 5):
        ok = sorted(i for g in parts for i in g) == list(range(F))
        if not ok:
            B.raises("rejected", lambda: B.load(MD).MultiDistributionLayer(scopes_to_dist=[(g, Part, {"mine": g}) for g in parts], num_features=F, num_channels=1, num_leaves=2, num_repetitions=2))


@contract("C13", how=["repeated", "too large", "negative", "one missing", "one too many"], families=[1, 2])
def multi_rejects_any(B):
    """any number of features: a scope named twice, out of range, missing or beyond num_features is rejected"""
    v = B.variant
    F = B.dim("F", lo=2)
    Part = stub(B, {})
    perm, inv = B.permutation("perm", F)
    scopes, num = perm.clone(), F
    if v["how"] == "one missing":
        num = F + 1
    elif v["how"] == "one too many":
        num = F - 1
    else:
        j = B.int_between("j", 0, F - 2)
        if v["how"] == "repeated":
            bad = perm[F - 1]
        else:
            bad = F + B.dim("over", lo=0) if v["how"] == "too large" else -B.dim("under")
        scopes[j] = bad
    cut = F if v["families"] == 1 else B.int_between("cut", 1, F - 1)
    groups = [scopes] if v["families"] == 1 else [scopes[:cut], scopes[cut:]]
    spec = [(g.tolist(), Part, {"mine": g}) for g in groups]
    B.raises("rejected", lambda: B.load(MD).MultiDistributionLayer(scopes_to_dist=spec, num_features=num, num_channels=1, num_leaves=2, num_repetitions=2))
