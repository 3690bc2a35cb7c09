"""C20: dropout in the sum-type layers."""
from . import contract
from .einets import STRUCT, legal, model, sizes, stub_type
from .lib import features, layer

KINDS = ["sum", "mixing", "linsum", "linsum2", "einsum"]


def setup(B, p):
    v = B.variant
    kind = v["kind"]
    F, Fo = features(B, kind)
    N, ci, co, R = B.dim("N"), B.dim("Ci"), B.dim("Co"), B.dim("R")
    l = layer(B, kind, F, ci, co, R, dropout=p)
    x = B.tensor("x", [N, F, ci, R] if kind != "mixing" else [N, F, co, ci], loglik=True)
    return kind, F, Fo, N, ci, co, R, l, x


@contract("C20", kind=KINDS, parity=[0, 1], how=["eval", "zero"], only=lambda v: v["parity"] == 0 or v["kind"].startswith("linsum"))
def no_effect(B):
    """rate zero, or evaluation mode: the result of the layer without dropout, and no random number is used"""
    zero = B.variant["how"] == "zero"
    p = 0.0 if zero else B.real("p", lo=0.01, hi=0.99)
    kind, F, Fo, N, ci, co, R, l, x = setup(B, p)
    l.train(zero)
    B.set_rng("dropout")
    key = B.rng_key()
    out = l(x)
    B.true("no random number is used", B.rng_key() == key)
    ref = layer(B, kind, F, ci, co, R)
    with B.torch.no_grad():
        ref.logits.copy_(l.logits)
    ref.eval()
    B.same("as without dropout", out, ref(x))
    # the evidence pass of conditional sampling runs the layers with their input caches enabled
    l._enable_input_cache()
    key = B.rng_key()
    out = l(x)
    B.true("no random number is used in the evidence pass", B.rng_key() == key)
    B.same("as without dropout in the evidence pass", out, ref(x))
    l._disable_input_cache()


@contract("C20", kind=KINDS, parity=[0, 1], seeds=16, only=lambda v: v["parity"] == 0 or v["kind"].startswith("linsum"))
def drops_children(B):
    """training mode: every node is the mixture, with its unchanged weights, of a non-empty subset of its children"""
    p = B.real("p", lo=0.01, hi=0.99) if B.symbolic else B.choice("p", [0.2, 0.5, 0.8])
    kind, F, Fo, N, ci, co, R, l, x = setup(B, p)
    x0, W0 = B.snapshot(x), B.snapshot(l.logits)
    l.train()
    B.set_rng("dropout")
    out = l(x)
    B.same("input unchanged", x, x0)
    B.same("weights unchanged", l.logits, W0)
    W, odd = W0, B.variant["parity"]
    if kind == "mixing":
        D = B.dropped([N, F, co, ci], p)

        def at(n, f, o):
            w = B.log_softmax(ci, lambda r: B.at(W, f, o, r))
            B.some_children("value", out, 1, lambda _: (n, f, o), [(ci, lambda r: D(n, f, o, r))], lambda _, r: w(r) + B.at(x0, n, f, o, r))

        B.forall([N, F, co], at)
    elif kind == "sum":
        D = B.dropped([N, F, ci, R], p)

        def at(n, f, r):
            def term(o, i):
                return B.log_softmax(ci, lambda k: B.at(W, f, k, o, r))(i) + B.at(x0, n, f, i, r)

            B.some_children("value", out, co, lambda o: (n, f, o, r), [(ci, lambda i: D(n, f, i, r))], term)

        B.forall([N, F, R], at)
    elif kind == "linsum":
        D = B.dropped([N, Fo, ci, 1, R], p)

        def at(n, j, r):
            pair = lambda i: B.at(x0, n, 2 * j, i, r) + (B.at(x0, n, 2 * j + 1, i, r) if not odd or j + 1 < Fo else 0)

            def term(o, i):
                return B.log_softmax(ci, lambda k: B.at(W, j, k, o, r))(i) + pair(i)

            B.some_children("value", out, co, lambda o: (n, j, o, r), [(ci, lambda i: D(n, j, i, 0, r))], term)

        B.forall([N, Fo, R], at)
    elif kind == "einsum":
        D = B.dropped([N, F, ci, R], p)

        def at(n, j, r):
            def term(o, a, b):
                return B.log_softmax(ci * ci, lambda k: B.at(W, j, o, r, B.idiv(k, ci), B.imod(k, ci)))(a * ci + b) + B.at(x0, n, 2 * j, a, r) + B.at(x0, n, 2 * j + 1, b, r)

            B.some_children("value", out, co, lambda o: (n, j, o, r), [(ci, lambda a: D(n, 2 * j, a, r)), (ci, lambda b: D(n, 2 * j + 1, b, r))], term)

        B.forall([N, Fo, R], at)
    else:
        D = B.dropped([N, F, ci, R], p)

        def at(n, j, r):
            def term(o, *i):
                return sum(B.log_softmax(ci, lambda k: B.at(W, 2 * j + h, k, o, r))(q) + B.at(x0, n, 2 * j + h, q, r) for h, q in enumerate(i))

            B.some_children("value", out, co, lambda o: (n, j, o, r), [(ci, lambda i, h=h: D(n, 2 * j + h, i, r)) for h in range(2 if not odd or j + 1 < Fo else 1)], term)

        B.forall([N, Fo, R], at)


@contract("C20", only=lambda v: legal(v) and v["rest"] <= 2 - v["depth"] and v["depth"] > 0, how=["eval", "zero"], **STRUCT)
def model_no_effect(B):
    """a model in evaluation mode (or with rate zero): log-likelihoods and MPE use no random number and equal those of the model without dropout"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    leaf = stub_type(B, log)
    p = 0.0 if v["how"] == "zero" else (B.real("p", lo=0.01, hi=0.99) if B.symbolic else B.choice("p", [0.2, 0.5, 0.8]))
    e, f = model(B, z, leaf, v, dropout=p), model(B, z, leaf, v)
    with B.torch.no_grad():
        for a, b in zip(e.modules(), f.modules()):
            for name in ("logits", "scopes", "permutation", "permutation_inv"):
                if hasattr(a, name):
                    getattr(b, name).copy_(getattr(a, name))
    e.train(v["how"] == "zero")
    f.eval()
    N = B.dim("N")
    x = B.tensor("x", [N, z.C, z.F], nan=True)
    log["ll"] = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    draws = B.tensor("draws", [N, z.C, z.F, z.I])
    log["draw"] = lambda ctx, l: draws.clone()
    B.set_rng("call")
    key = B.rng_key()
    a = e(x)
    B.true("no random number is used", B.rng_key() == key)
    B.same("the log-likelihood without dropout", a, f(x))
    a = e(x, None, 3)
    B.true("no random number is used with a cache index", B.rng_key() == key)
    B.same("the log-likelihood without dropout, cached", a, f(x))
