"""C02 / C07 / C12: factorized input layers: every feature lies in exactly one group, and is sampled from the channel its group asks for."""
from . import contract
from .c_sum_sample import context

FL = "simple_einet.layers.factorized_leaf"


def stub_leaf(B, F, C, I, R, card=1):
    """an arbitrary leaf layer: returns whatever tensors the contract puts into ll / draws / params"""
    AbstractLeaf = B.load("simple_einet.layers.distributions.abstract_leaf").AbstractLeaf

    class Leaf(AbstractLeaf):
        def __init__(self):
            super().__init__(num_features=F * card, num_channels=C, num_leaves=I, num_repetitions=R, cardinality=card)
            self.out_features = F
            self.calls = []

        def _get_base_distribution(self, ctx=None):
            raise NotImplementedError()

        def forward(self, x, marginalized_scopes):
            self.calls.append((x, marginalized_scopes))
            return self.ll.clone()

        def sample(self, ctx):
            self.asked = (ctx.indices_out is None, ctx.indices_repetition)
            return self.draws.clone()

        def get_params(self):
            return self.params.clone()

    return Leaf()


def build(B, card=1):
    """(layer, stub leaf, group indicator G(f, o, r), sizes) for arbitrary sizes with F = Fo * c + rest features and Fo groups"""
    v = B.variant
    Fo = v["groups"]
    F = Fo * B.dim("c") + v["rest"]
    C, I = B.dim("C"), B.dim("I")
    simple = v["cls"] == "simple"
    R = 1 if simple else (v["R"] if v["R"] != "any" else B.dim("R"))
    leaf = stub_leaf(B, F, C, I, R, card)
    m = B.load(FL)
    B.set_rng("init")
    l = (m.FactorizedLeafSimple if simple else m.FactorizedLeaf)(num_features=F, num_features_out=Fo, num_repetitions=R, base_leaf=leaf)
    tr = B.torch
    leaf.ll = (tr.eye(F).view(F, 1, F, 1, 1) * (tr.arange(C) == 0).float().view(1, C, 1, 1, 1)).expand(F, C, F, I, R)
    G = l(tr.zeros(F, C, F * card), None)
    leaf.calls.clear()
    return l, leaf, G, (F, Fo, C, I, R)


AX = dict(cls=["simple", "general"], groups=[1, 2, 4], rest=[0, 1, 2, 3], R=[1, "any"])


def ok(v):
    return v["rest"] < v["groups"] and (v["cls"] == "general") == (v["R"] == "any")


@contract("C02", only=ok, **AX)
def grouping_partitions(B):
    """FactorizedLeaf(.Simple): in every repetition every feature is in exactly one group; the output is the sum over channels and group members"""
    l, leaf, G, (F, Fo, C, I, R) = build(B)
    B.shape("one row per feature", G, [F, Fo, I, R])

    def one(f, i, r):
        s = 0
        for o in range(Fo):
            g = B.at(G, f, o, i, r)
            B.true("membership is 0 or 1", B.either(g == 0, g == 1))
            s = s + g
        B.eq("every feature is in exactly one group", s, 1)

    B.forall([F, I, R], one)
    N = B.dim("N", rows=True)
    leaf.ll = B.tensor("ll", [N, C, F, I, R], loglik=True)
    x, marg = B.tensor("x", [N, C, F]), [0]
    ll = B.snapshot(leaf.ll)
    out = l(x, marg)
    B.shape("output", out, [N, Fo, I, R])
    B.true("the leaf sees the input and the marginalized scopes once", len(leaf.calls) == 1 and leaf.calls[0][0] is x and leaf.calls[0][1] is marg)
    for o in range(Fo):
        B.forall([N, I, R], lambda n, i, r, o=o: B.eq_at("sum over channels and group members", out, (n, o, i, r), B.sum(F, lambda f: B.at(G, f, o, i, r) * B.sum(C, lambda c: B.at(ll, n, c, f, i, r)))))


@contract("C07", only=ok, diff=[0, 1], params=[0, 1], **AX)
def grouping_sample(B):
    """FactorizedLeaf(.Simple).sample: feature f comes from the leaf channel chosen for the group that forward adds f to"""
    sample(B)


@contract("C07", only=lambda v: ok(v) and v["rest"] == 0, diff=[0, 1], params=[0], card=[2, 3], **AX)
def grouping_sample_multivariate(B):
    """the same for leaves over blocks of several features: all features of a block use the same channel"""
    sample(B, B.variant["card"])


def sample(B, card=1):
    v = B.variant
    l, leaf, G, (F, Fo, C, I, R) = build(B, card)
    N = B.dim("N", rows=True)
    ctx, p, rep = context(B, N, Fo, I, R, v["diff"], False, 1.0)
    rep_t = ctx.indices_repetition

    def pick(n, f, val):
        """val(channel) for the one group o with G(f, o, rep(n)) = 1  (C02: there is exactly one)"""
        s = 0
        for o in range(Fo):
            s = s + B.at(G, f, o, 0, rep(n)) * val(p(n, o))
        return s

    if v["params"]:
        ctx.return_leaf_params = True
        Pn = B.dim("P")
        leaf.params = B.tensor("params", [1, C, F, I, R, Pn])
        out = l.sample(ctx)
        B.shape("parameters", out, [N, C, F, Pn])
        B.forall([N, C, F, Pn], lambda n, c, f, k: B.eq_at("parameters of the chosen channel", out, (n, c, f, k), pick(n, f, lambda q: B.at(leaf.params, 0, c, f, q, rep(n), k))))
        return
    leaf.draws = B.tensor("draws", [N, C, F * card, I])
    out = l.sample(ctx)
    B.true("the leaf draws every channel, for the chosen repetition", leaf.asked[0] and leaf.asked[1] is rep_t)
    B.shape("samples", out, [N, C, F * card])
    for j in range(card):
        B.forall([N, C, F], lambda n, c, f, j=j: B.eq_at("value of the chosen channel", out, (n, c, f * card + j), pick(n, f, lambda q: B.at(leaf.draws, n, c, f * card + j, q))))
