"""C01: the value of every sum-type layer."""
from . import contract
from .lib import features, get, layer


@contract("C01")
def sum_layer(B):
    """SumLayer.forward: out[n,d,o,r] = log sum_i softmax_i(logits[d,:,o,r]) exp(x[n,d,i,r])"""
    N, D, ci, co, R = B.dim("N"), B.dim("D"), B.dim("Ci"), B.dim("Co"), B.dim("R")
    l = layer(B, "sum", D, ci, co, R)
    x = B.tensor("x", [N, D, ci, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("output shape", out, [N, D, co, R])
    W = l.logits

    def at(n, d, o, r):
        w = B.log_softmax(ci, lambda i: B.at(W, d, i, o, r))
        B.eq_at("value", out, (n, d, o, r), B.lse(ci, lambda i: w(i) + B.at(x0, n, d, i, r)))

    B.forall([N, D, co, R], at)
    B.same("input unchanged", x, x0)


@contract("C01")
def mixing_layer(B):
    """MixingLayer.forward: out[n,d,o] = log sum_r softmax_r(logits[d,o,:]) exp(x[n,d,o,r])"""
    N, D, co, R = B.dim("N"), B.dim("D"), B.dim("Co"), B.dim("R")
    l = layer(B, "mixing", D, R, co, 1)
    x = B.tensor("x", [N, D, co, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("output shape", out, [N, D, co])
    W = l.logits

    def at(n, d, o):
        w = B.log_softmax(R, lambda r: B.at(W, d, o, r))
        B.eq_at("value", out, (n, d, o), B.lse(R, lambda r: w(r) + B.at(x0, n, d, o, r)))

    B.forall([N, D, co], at)
    B.same("input unchanged", x, x0)


@contract("C01", parity=[0, 1])
def linsum_layer(B):
    """LinsumLayer.forward: one mixture over the channels i of x[2j,i]+x[2j+1,i]; a missing right sibling counts as 1"""
    F, Fo = features(B, "linsum")
    N, ci, co, R = B.dim("N"), B.dim("Ci"), B.dim("Co"), B.dim("R")
    l = layer(B, "linsum", F, ci, co, R)
    x = B.tensor("x", [N, F, ci, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("output shape", out, [N, Fo, co, R])
    W = l.logits

    def prod(n, j, i, r):
        left = B.at(x0, n, 2 * j, i, r)
        if B.variant["parity"] == 0:
            return left + B.at(x0, n, 2 * j + 1, i, r)
        if j + 1 < Fo:
            return left + B.at(x0, n, 2 * j + 1, i, r)
        return left

    def at(n, j, o, r):
        w = B.log_softmax(ci, lambda i: B.at(W, j, i, o, r))
        B.eq_at("value", out, (n, j, o, r), B.lse(ci, lambda i: w(i) + prod(n, j, i, r)))

    B.forall([N, Fo, co, R], at)
    B.same("input unchanged", x, x0)


@contract("C01", parity=[0, 1])
def linsum2_layer(B):
    """LinsumLayer2.forward: product of the two children's own mixtures; a missing right sibling counts as 1"""
    F, Fo = features(B, "linsum2")
    N, ci, co, R = B.dim("N"), B.dim("Ci"), B.dim("Co"), B.dim("R")
    l = layer(B, "linsum2", F, ci, co, R)
    x = B.tensor("x", [N, F, ci, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("output shape", out, [N, Fo, co, R])
    W = l.logits

    def mix(n, d, o, r):
        w = B.log_softmax(ci, lambda i: B.at(W, d, i, o, r))
        return B.lse(ci, lambda i: w(i) + B.at(x0, n, d, i, r))

    def at(n, j, o, r):
        v = mix(n, 2 * j, o, r)
        if B.variant["parity"] == 0 or j + 1 < Fo:
            v = v + mix(n, 2 * j + 1, o, r)
        B.eq_at("value", out, (n, j, o, r), v)

    B.forall([N, Fo, co, R], at)
    B.same("input unchanged", x, x0)


@contract("C01")
def einsum_layer(B):
    """EinsumLayer.forward: one mixture over all channel pairs (a,b) of x[2j,a]+x[2j+1,b]"""
    F, Fo = features(B, "einsum")
    N, ci, co, R = B.dim("N"), B.dim("Ci"), B.dim("Co"), B.dim("R")
    l = layer(B, "einsum", F, ci, co, R)
    x = B.tensor("x", [N, F, ci, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("output shape", out, [N, Fo, co, R])
    W = l.logits

    def at(n, j, o, r):
        z = B.log(B.sum(ci, lambda a: B.sum(ci, lambda b: B.exp(B.at(W, j, o, r, a, b)))))
        v = B.lse(ci, lambda a: B.lse(ci, lambda b: B.at(W, j, o, r, a, b) - z + B.at(x0, n, 2 * j, a, r) + B.at(x0, n, 2 * j + 1, b, r)))
        B.eq_at("value", out, (n, j, o, r), v)

    B.forall([N, Fo, co, R], at)
    B.same("input unchanged", x, x0)
