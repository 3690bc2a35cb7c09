"""C08: differentiable (one-hot) sampling means the same as index sampling."""
from . import c_factorized, c_leaf, c_sum_sample, contract
from .c_leaf import FAMS
from .c_sum_sample import context
from .lib import features, layer

# the layer and leaf contracts of C06 / C07 / C12, for one-hot contexts: the same specification as for indices
ONLY = dict(diff=[1], mpe=[0, 1], ev=[0, 1])
for f in (c_sum_sample.sum_layer_choice, c_sum_sample.mixing_layer_choice, c_sum_sample.einsum_layer_choice):
    contract("C08", stat=1, **ONLY)(f)
for f in (c_sum_sample.linsum_layer_choice, c_sum_sample.linsum2_layer_choice):
    contract("C08", stat=1, parity=[0, 1], **ONLY)(f)
contract("C08", fam=[f for f in FAMS if f != "binomial"], diff=[1], mpe=[0, 1], parents=[0, 1], stat=1)(c_leaf.leaf_sample)
contract("C08", fam=["normal", "ratnormal"], diff=[1], parents=[0, 1])(c_leaf.leaf_params)
contract("C08", only=c_factorized.ok, diff=[1], params=[0, 1], **c_factorized.AX)(c_factorized.grouping_sample)


@contract("C08", rank=[1, 2, 3, 4], dim=[0, 1, 2, 3, -1], only=lambda v: v["dim"] < v["rank"])
def one_hot_index(B):
    """index_one_hot(t, h, d) = t indexed at the position of the one in h along dimension d"""
    v = B.variant
    f = B.load("simple_einet.sampling_utils").index_one_hot
    k, d = v["rank"], v["dim"] % v["rank"]
    dims = [B.dim(f"D{i}") for i in range(k)]
    other = dims[:d] + dims[d + 1:]
    q, h = B.one_hot_tensor("where", other, dims[d])
    perm = list(range(k - 1))
    perm.insert(d, k - 1)
    h = h.permute(*perm)
    x = B.tensor("x", dims)
    x0, h0 = B.snapshot(x), B.snapshot(h)
    out = f(x, h, v["dim"])
    B.shape("shape", out, other)
    B.forall(other, lambda *i: B.eq_at("the addressed entry", out, i, B.at(x0, *i[:d], q(*i), *i[d:])))
    B.same("input unchanged", x, x0)
    B.same("index unchanged", h, h0)


@contract("C08", dim=[0, 1, 2, -1], what=["logits", "log_weights"], mpe=[0, 1], stat=1, method=["SIMPLE"])
def one_hot_sampler(B):
    """sample_categorical_differentiably (SIMPLE): a one-hot vector whose position is a draw from (the maximum of) the weights"""
    v = B.variant
    m = B.load("simple_einet.sampling_utils")
    d = v["dim"] % 3
    N = B.dim("N", rows=True) if d else B.dim("N")
    dims = [N, B.dim("D1"), B.dim("D2")]
    x = B.tensor("x", dims)
    n = dims[d]
    if v["what"] == "log_weights":
        x = x - B.torch.logsumexp(x, dim=d, keepdim=True)
    x0 = B.snapshot(x)
    B.set_rng("sampling")
    out = m.sample_categorical_differentiably(dim=v["dim"], is_mpe=bool(v["mpe"]), hard=True, tau=1.0, **{v["what"]: x})
    B.shape("shape", out, dims)
    other = dims[:d] + dims[d + 1:]

    def at(*i):
        full = lambda j: i[:d] + (j,) + i[d:]
        w = lambda j: B.at(x0, *full(j))
        vec = lambda j: B.at(out, *full(j))
        if v["mpe"]:
            B.is_onehot_argmax("position", vec, n, w)
        else:
            B.is_onehot_draw("position", vec, n, w, i)

    B.forall(other, at)
    B.same("input unchanged", x, x0)


@contract("C08", kind=["sum", "mixing", "linsum", "linsum2", "einsum"], parity=[0, 1], only=lambda v: v["kind"].startswith("linsum") or not v["parity"])
def selected_weights(B):
    """_select_weights: the same weights for a one-hot context as for the index context it encodes"""
    v = B.variant
    kind = v["kind"]
    F, Fo = features(B, kind)
    N, ci, co, R = B.dim("N"), B.dim("Ci"), B.dim("Co"), B.dim("R")
    T = B.real("T", pos=True)
    l = layer(B, kind, F, ci, co, R)
    Rc = R if kind != "mixing" else 1
    hot, p, r = context(B, N, Fo, co, Rc, True, False, T)
    SamplingContext = B.load("simple_einet.sampling_utils").SamplingContext
    io = (hot.indices_out * B.torch.arange(co)).sum(-1).round().long()
    ir = (hot.indices_repetition * B.torch.arange(Rc)).sum(-1).round().long()
    idx = SamplingContext(num_samples=N, indices_out=io, indices_repetition=ir, is_differentiable=False, temperature_sums=T, num_repetitions=Rc)
    B.same("the same weights", l._select_weights(hot, l.logits), l._select_weights(idx, l.logits))
