"""C06/C08: the choice every sum-type layer makes while sampling."""
from . import contract
from .lib import features, get, layer


def context(B, N, Fo, co, R, diff, mpe, temperature):
    """an arbitrary legal sampling context; returns (ctx, parent channel function, repetition function)"""
    SamplingContext = B.load("simple_einet.sampling_utils").SamplingContext
    if diff:
        p, io = B.one_hot_tensor("parent", [N, Fo], co)
        r, ir = B.one_hot_tensor("rep", [N], R)
    else:
        io = B.index_tensor("parent", [N, Fo], co)
        ir = B.index_tensor("rep", [N], R)
        io0, ir0 = B.snapshot(io), B.snapshot(ir)
        p = lambda n, d: B.at(io0, n, d)
        r = lambda n: B.at(ir0, n)
    ctx = SamplingContext(num_samples=N, indices_out=io, indices_repetition=ir, is_mpe=mpe, is_differentiable=diff, temperature_sums=temperature, num_repetitions=R)
    return ctx, p, r


def chosen(B, name, out, n, f, ci, diff):
    """index chosen at (n, f); differentiable contexts hold it one-hot"""
    if not diff:
        return B.at(out, n, f)
    k = B.sum(ci, lambda i: i * B.at(out, n, f, i))
    B.forall([ci], lambda i: B.eq(name + ": one-hot", B.at(out, n, f, i), B.ind(i == k)))
    return k


def check_choice(B, name, val, n_cat, logp, idx, mpe):
    if mpe:
        B.is_argmax(name, val, n_cat, logp)
    else:
        B.is_draw(name, val, n_cat, logp, idx)


AXES = dict(diff=[0, 1], mpe=[0, 1], ev=[0, 1])


def setup(B, kind):
    v = B.variant
    F, Fo = features(B, kind)
    N = B.dim("N", rows=True)
    ci, co, R = B.dim("Ci"), B.dim("Co"), B.dim("R")
    T = B.real("T", pos=True)
    l = layer(B, kind, F, ci, co, R)
    x = B.tensor("x", [N, F, ci, R] if kind != "mixing" else [N, F, co, ci], loglik=True)
    x0 = B.snapshot(x)
    if v["ev"]:
        l._enable_input_cache()
        l(x)
    ctx, p, r = context(B, N, Fo, co, R if kind != "mixing" else 1, v["diff"], v["mpe"], T)
    rep_before = B.snapshot(ctx.indices_repetition)
    B.set_rng("sampling")
    res = l.sample(ctx)
    B.true("the context is returned", res is ctx)
    B.same("repetition choice kept", ctx.indices_repetition, rep_before)
    B.shape("shape of the choices", ctx.indices_out, [N, F, ci] if v["diff"] else [N, F])
    B.same("cached evidence and input unchanged", x, x0)
    return F, Fo, N, ci, co, R, T, l.logits, x0, p, r, ctx.indices_out


def spec_sum(B, W, T, p, r, x, out, N, F, ci, diff, mpe):
    """child k with probability prop. to softmax_k(W[d,:,parent,rep]/T) * exp(ll of child k), one choice per feature"""

    def at(n, d):
        k = chosen(B, "choice", out, n, d, ci, diff)
        check_choice(B, "choice", k, ci, lambda i: B.at(W, d, i, p(n, d), r(n)) / T + (B.at(x, n, d, i, r(n)) if x is not None else 0), (n, d), mpe)

    B.forall([N, F], at)


def spec_mixing(B, W, T, p, x, out, N, R, diff, mpe):
    """repetition k with probability prop. to softmax_k(W[0,parent,:]/T) * exp(ll of repetition k)"""

    def at(n):
        k = chosen(B, "choice", out, n, 0, R, diff)
        check_choice(B, "choice", k, R, lambda i: B.at(W, 0, p(n, 0), i) / T + (B.at(x, n, 0, p(n, 0), i) if x is not None else 0), (n,), mpe)

    B.forall([N], at)


def spec_linsum(B, W, T, p, r, x, out, N, F, Fo, ci, diff, mpe):
    """one channel k for both children 2j and 2j+1; an odd number of children leaves the last one alone"""

    def at(n, j):
        full = B.both(2 * j + 1 < F) if not isinstance(F, int) or F % 2 else True

        def logp(i):
            s = B.at(W, j, i, p(n, j), r(n)) / T
            if x is not None:
                s = s + B.at(x, n, 2 * j, i, r(n))
                if full:
                    s = s + B.at(x, n, 2 * j + 1, i, r(n))
            return s

        k = chosen(B, "choice", out, n, 2 * j, ci, diff)
        check_choice(B, "choice", k, ci, logp, (n, j), mpe)
        if full:
            k2 = chosen(B, "choice of the right child", out, n, 2 * j + 1, ci, diff)
            B.eq("both children use the same channel", k, k2)

    B.forall([N, Fo], at)


def spec_linsum2(B, W, T, p, r, x, out, N, F, ci, diff, mpe):
    """every child feature f draws its own channel from its own weights"""

    def at(n, f):
        j = B.idiv(f, 2)
        k = chosen(B, "choice", out, n, f, ci, diff)
        check_choice(B, "choice", k, ci, lambda i: B.at(W, f, i, p(n, j), r(n)) / T + (B.at(x, n, f, i, r(n)) if x is not None else 0), (n, f), mpe)

    B.forall([N, F], at)


def spec_einsum(B, W, T, p, r, x, out, N, Fo, ci, diff, mpe):
    """a joint channel pair (a,b) for the children 2j, 2j+1"""

    def at(n, j):
        a = chosen(B, "left choice", out, n, 2 * j, ci, diff)
        b = chosen(B, "right choice", out, n, 2 * j + 1, ci, diff)

        def logp(k):
            i1, i2 = B.idiv(k, ci), B.imod(k, ci)
            s = B.at(W, j, p(n, j), r(n), i1, i2) / T
            if x is not None:
                s = s + B.at(x, n, 2 * j, i1, r(n)) + B.at(x, n, 2 * j + 1, i2, r(n))
            return s

        check_choice(B, "joint choice", a * ci + b, ci * ci, logp, (n, j), mpe)

    B.forall([N, Fo], at)


@contract("C06", stat=1, **AXES)
def sum_layer_choice(B):
    """SumLayer.sample: child k with probability prop. to softmax_k(logits[d,:,parent,rep]/T) * exp(cached ll of child k)"""
    v = B.variant
    F, Fo, N, ci, co, R, T, W, x, p, r, out = setup(B, "sum")
    spec_sum(B, W, T, p, r, x if v["ev"] else None, out, N, F, ci, v["diff"], v["mpe"])


@contract("C06", stat=1, **AXES)
def mixing_layer_choice(B):
    """MixingLayer.sample: repetition k with probability prop. to softmax_k(logits[d,parent,:]/T) * exp(cached ll)"""
    v = B.variant
    N, co, R = B.dim("N", rows=True), B.dim("Co"), B.dim("R")
    T = B.real("T", pos=True)
    l = layer(B, "mixing", 1, R, co, 1)
    x = B.tensor("x", [N, 1, co, R], loglik=True)
    x0 = B.snapshot(x)
    if v["ev"]:
        l._enable_input_cache()
        l(x)
    ctx, p, r = context(B, N, 1, co, 1, v["diff"], v["mpe"], T)
    B.set_rng("sampling")
    l.sample(ctx)
    out = ctx.indices_out
    B.shape("shape of the choices", out, [N, 1, R] if v["diff"] else [N, 1])
    spec_mixing(B, l.logits, T, p, x0 if v["ev"] else None, out, N, R, v["diff"], v["mpe"])


@contract("C06", stat=1, parity=[0, 1], **AXES)
def linsum_layer_choice(B):
    """LinsumLayer.sample: one channel k for both children 2j, 2j+1"""
    v = B.variant
    F, Fo, N, ci, co, R, T, W, x, p, r, out = setup(B, "linsum")
    spec_linsum(B, W, T, p, r, x if v["ev"] else None, out, N, F, Fo, ci, v["diff"], v["mpe"])


@contract("C06", stat=1, parity=[0, 1], **AXES)
def linsum2_layer_choice(B):
    """LinsumLayer2.sample: every child feature f draws its own channel from its own weights"""
    v = B.variant
    F, Fo, N, ci, co, R, T, W, x, p, r, out = setup(B, "linsum2")
    spec_linsum2(B, W, T, p, r, x if v["ev"] else None, out, N, F, ci, v["diff"], v["mpe"])


@contract("C06", stat=1, **AXES)
def einsum_layer_choice(B):
    """EinsumLayer.sample: a joint channel pair (a,b) for the children 2j, 2j+1"""
    v = B.variant
    F, Fo, N, ci, co, R, T, W, x, p, r, out = setup(B, "einsum")
    spec_einsum(B, W, T, p, r, x if v["ev"] else None, out, N, Fo, ci, v["diff"], v["mpe"])
