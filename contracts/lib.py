"""Helpers shared by the contracts."""

LAYERS = {
    "sum": ("simple_einet.layers.sum", "SumLayer"),
    "linsum": ("simple_einet.layers.linsum", "LinsumLayer"),
    "linsum2": ("simple_einet.layers.linsum", "LinsumLayer2"),
    "einsum": ("simple_einet.layers.einsum", "EinsumLayer"),
    "mixing": ("simple_einet.layers.mixing", "MixingLayer"),
}


def get(B, kind):
    mod, cls = LAYERS[kind]
    return getattr(B.load(mod), cls)


def features(B, kind, name="H", parity=None):
    """(number of input features, number of output features, H)"""
    H = B.dim(name)
    if kind in ("sum", "mixing"):
        return H, H
    if kind == "einsum":
        return 2 * H, H
    if parity is None:
        parity = B.variant.get("parity", 0)
    return 2 * H + parity, H + parity


def layer(B, kind, F, ci, co, R, dropout=0.0):
    """a layer with arbitrary weights"""
    if kind == "mixing":
        l = get(B, kind)(num_features=F, num_sums_in=ci, num_sums_out=co, dropout=dropout)
    else:
        l = get(B, kind)(num_features=F, num_sums_in=ci, num_sums_out=co, num_repetitions=R, dropout=dropout)
    B.randomize(l)
    return l
