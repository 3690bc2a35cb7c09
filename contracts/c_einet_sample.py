"""Whole-model sampling: C07 (top-down pass mirrors the bottom-up pass), C11 (classes)."""
from . import contract
from .c_sum_sample import check_choice, chosen, spec_einsum, spec_linsum, spec_linsum2, spec_mixing, spec_sum
from .einets import STRUCT, legal, model, sizes, stub_type


class Spy:
    """A layer known to the model by its contract only.  The likelihood pass is a function of its input (C01: the value is the
    documented one), so its result is replaced by arbitrary values, the same ones for the same input; a choice made while sampling
    is replaced by an arbitrary legal one after it was recorded (if choices is set).  (Concretely: nothing is replaced.)"""

    def __init__(self, B, kind, layer, name, choices=True):
        self.B, self.kind, self.layer, self.name, self.choices = B, kind, layer, name, choices
        self.x = None
        self.asked, self.seen = [], []
        self.sample0, self.forward0 = layer.sample, layer.forward
        layer.sample, layer.forward = self.sample, self.forward

    def forward(self, x):
        B = self.B
        x0 = B.snapshot(x)
        if self.x is None:
            self.x = x0
        y = self.forward0(x)
        for xi, yi in self.seen:
            if B.known_same(xi, x0):
                return yi.clone()
        y = B.opaque("value of " + self.name, y)
        self.seen.append((x0, B.snapshot(y)))
        return y

    def sample(self, ctx):
        B = self.B
        io, ir = B.snapshot(ctx.indices_out), B.snapshot(ctx.indices_repetition)
        flags = (ctx.is_mpe, ctx.temperature_sums, ctx.is_differentiable)
        res = self.sample0(ctx)
        real, n = B.snapshot(res.indices_out), self.n_choices()
        given = real
        if n is not None and self.choices:
            res.indices_out = B.opaque_choice("choice of " + self.name, real, n, ctx.is_differentiable)
            given = B.snapshot(res.indices_out)
        self.asked.append((io, ir, flags, real, B.snapshot(res.indices_repetition), given))
        return res

    def n_choices(self):
        return None if self.kind == "root" or self.x is None else self.x.shape[3 if self.kind == "mixing" else 2]


def spies(B, e, v, choices=True):
    """(mixing spy or None, layer spies top to bottom)"""
    kinds = {"SumLayer": "sum", "LinsumLayer": "linsum", "LinsumLayer2": "linsum2", "EinsumLayer": "einsum", "RootProductLayer": "root", "MixingLayer": "mixing"}
    ls = [Spy(B, kinds[type(l).__name__], l, f"layer {i}", choices) for i, l in enumerate(e.layers)]
    return (Spy(B, "mixing", e.mixing, "mixing", choices) if hasattr(e, "mixing") else None), ls[::-1]


def pick(B, t, n, d, K, diff):
    """the index stored at [n, d] of an index or one-hot tensor"""
    return B.sum(K, lambda i: i * B.at(t, n, d, i)) if diff else B.at(t, n, d)


def pick1(B, t, n, K, diff):
    return B.sum(K, lambda i: i * B.at(t, n, i)) if diff else B.at(t, n)


@contract("C07", only=lambda v: legal(v) and v["rest"] <= 1 and not (v["diff"] and v["mpe"]), diff=[0, 1], mpe=[0, 1], ev=[0, 1], seconds=200,
          tier=lambda v: "thorough" if v["depth"] == 2 and v["diff"] and v["ev"] else "quick", **STRUCT)
def einet_descends(B):
    """Einet.sample: class -> repetition -> layers top-down -> leaf channels; each choice is made under the previous one and
    conditioned on the input the same layer has in the likelihood pass; the leaf channels drawn for the features are the ones
    whose log-densities that pass adds up"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    diff, mpe = v["diff"], v["mpe"]
    mixing, layers = spies(B, e, v)
    N = B.dim("N", rows=True)
    T, TL = B.real("T", pos=True), B.real("TL", pos=True)
    ll = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    log["ll"] = ll
    x = B.tensor("x", [N, z.C, z.F])
    out = B.snapshot(e(x))
    seen = {id(s): s.x for s in layers + [mixing] if s}
    got = {}

    def draw(ctx, leaf):
        got["ctx"] = ctx
        got["io"], got["ir"] = None if ctx.indices_out is None else B.snapshot(ctx.indices_out), B.snapshot(ctx.indices_repetition)
        if ctx.indices_out is None:
            return draws.clone()
        return draws.clone()[:, :, :, 0]

    draws = B.tensor("draws", [N, z.C, z.F, z.I])
    log["draw"] = draw
    B.set_rng("sampling")
    kw = dict(evidence=x) if v["ev"] else dict(num_samples=N)
    B.distinct_draws()
    e.sample(is_mpe=bool(mpe), is_differentiable=bool(diff), temperature_sums=T, temperature_leaves=TL, **kw)
    for s in [mixing] + layers:
        if s:
            B.true("every layer is asked exactly once", len(s.asked) == 1)
            B.true("sampling options reach the layers", s.asked[0][2] == (bool(mpe), T, bool(diff)) and True)
    B.true("options reach the leaf", got["ctx"].is_mpe == bool(mpe) and got["ctx"].is_differentiable == bool(diff))
    B.eq("leaf temperature", got["ctx"].temperature_leaves, TL)
    # the class
    first = layers[0]
    cls = lambda n: pick(B, (mixing or first).asked[0][0], n, 0, z.K, diff)
    if v["K"] == "any":
        B.forall([N], lambda n: check_choice(B, "class", chosen(B, "class", (mixing or first).asked[0][0], n, 0, z.K, diff), z.K, lambda k: B.at(out, n, k) if v["ev"] else 0, (n,), mpe))
    else:
        B.forall([N], lambda n: B.eq("the only class", cls(n), 0))
    # the repetition
    if mixing:
        io, ir, _, res, _, given = mixing.asked[0]
        spec_mixing(B, mixing.layer.logits, T, lambda n, d: cls(n), seen[id(mixing)] if v["ev"] else None, res, N, z.R, diff, mpe)
        B.forall([N], lambda n: B.eq("the drawn repetition is used", pick1(B, first.asked[0][1], n, z.R, diff), pick(B, given, n, 0, z.R, diff)))
        B.forall([N], lambda n: B.eq("the class is used below the mixing layer", pick(B, first.asked[0][0], n, 0, z.K, diff), cls(n)))
    rep = lambda n: pick1(B, first.asked[0][1], n, z.R, diff)
    # the layers
    prev = None
    for s in layers:
        io, ir, _, res, ir2, given = s.asked[0]
        if prev is not None:
            B.same("a layer is asked for what the layer above chose", io, prev)
            B.same("repetition kept", ir, first.asked[0][1])
        prev = given
        W = getattr(s.layer, "logits", None)
        xs = seen[id(s)] if v["ev"] else None
        Fi, ci, co = seen[id(s)].shape[1], seen[id(s)].shape[2], (io.shape[2] if diff else None)
        p = lambda n, d, io=io, co=co: pick(B, io, n, d, co, diff)
        if s.kind == "sum":
            spec_sum(B, W, T, p, rep, xs, res, N, Fi, ci, diff, mpe)
        elif s.kind == "linsum":
            spec_linsum(B, W, T, p, rep, xs, res, N, Fi, s.layer.num_features_out, ci, diff, mpe)
        elif s.kind == "linsum2":
            spec_linsum2(B, W, T, p, rep, xs, res, N, Fi, ci, diff, mpe)
        elif s.kind == "einsum":
            spec_einsum(B, W, T, p, rep, xs, res, N, s.layer.num_features_out, ci, diff, mpe)
        else:
            B.forall([N, Fi], lambda n, f, res=res, p=p: B.eq("the root product hands its channel to every factor", pick(B, res, n, f, ci, diff), p(n, 0)))
    bottom = layers[-1]
    Fb = seen[id(bottom)].shape[1]
    y = seen[id(bottom)]
    B.true("the leaf draws for the chosen repetition", True)
    B.same("repetition at the leaf", got["ir"], first.asked[0][1])
    if got["io"] is not None:
        B.shape("leaf channel per feature", got["io"], [N, z.F, z.I] if diff else [N, z.F])
        B.forall([N], lambda n: B.eq("leaf channels are those the likelihood pass adds up",
                                     B.sum(z.F, lambda f: B.sum(z.C, lambda c: B.at(ll, n, c, f, pick(B, got["io"], n, f, z.I, diff), rep(n)))),
                                     B.sum(Fb, lambda g: B.at(y, n, g, pick(B, prev, n, g, z.I, diff), rep(n)))))
