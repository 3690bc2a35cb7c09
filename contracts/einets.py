"""Building whole models for the contracts."""


def stub_type(B, log, card=1):
    """a leaf family whose log-densities, draws and parameters are whatever the contract puts into log"""
    AbstractLeaf = B.load("simple_einet.layers.distributions.abstract_leaf").AbstractLeaf

    class Leaf(AbstractLeaf):
        def __init__(self, num_features, num_channels, num_leaves, num_repetitions=1, **kw):
            super().__init__(num_features=num_features, num_channels=num_channels, num_leaves=num_leaves, num_repetitions=num_repetitions)
            self.sizes = (num_features, num_channels, num_leaves, num_repetitions)
            log.setdefault("leaves", []).append(self)

        def _get_base_distribution(self, ctx=None):
            raise NotImplementedError()

        def forward(self, x, marginalized_scopes):
            log.setdefault("calls", []).append((x, marginalized_scopes))
            return log["ll"](x, self) if callable(log["ll"]) else log["ll"].clone()

        def sample(self, ctx):
            log.setdefault("samples", []).append((ctx.indices_out, ctx.indices_repetition, ctx.is_mpe or ctx.mpe_at_leaves))
            return log["draw"](ctx, self)

        def get_params(self):
            return log["params"].clone()

    return Leaf


class Sizes:
    pass


def sizes(B, v):
    """F, C (channels), I, S, K (classes), R from the variant: depth, rest, R in (1, any), K in (1, any)"""
    z = Sizes()
    z.D = v["depth"]
    z.Fo = 2 ** z.D
    # F = Fo * c + rest features; F >= 2 as the configuration demands
    c = B.dim("c", lo=2 if z.Fo + v.get("rest", 0) < 2 else 1)
    z.F = z.Fo * c + v.get("rest", 0)
    z.C, z.I, z.S = B.dim("C"), B.dim("I"), B.dim("S")
    z.R = 1 if v["R"] == 1 else B.dim("R", lo=2)
    z.K = 1 if v.get("K", 1) == 1 else B.dim("K", lo=2)
    return z


def model(B, z, leaf_type, v, dropout=0.0, **leaf_kwargs):
    m = B.load("simple_einet.einet")
    cfg = m.EinetConfig(
        num_features=z.F, num_channels=z.C, num_sums=z.S, num_leaves=z.I, num_repetitions=z.R, num_classes=z.K, depth=z.D,
        dropout=dropout, leaf_type=leaf_type, leaf_kwargs=leaf_kwargs, layer_type=v["layer"], structure=v["structure"])
    B.set_rng("init")
    e = m.Einet(cfg)
    B.randomize(e)
    return e


STRUCT = dict(structure=["top-down", "bottom-up"], layer=["linsum", "linsum2", "einsum"], depth=[0, 1, 2], rest=[0, 1, 2, 3], R=[1, "any"], K=[1, "any"])


def legal(v):
    if v["rest"] >= 2 ** v["depth"]:
        return False
    if v["depth"] == 0 and v["layer"] != "linsum":
        return False
    return v["structure"] == "top-down" or v["layer"] == "linsum"
