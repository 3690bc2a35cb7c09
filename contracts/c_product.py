"""C02 / C07: product layers — which inputs each product multiplies, and that sampling descends into exactly those."""
from . import contract

PR = "simple_einet.layers.product"


def ctx(B, io, ir, N):
    return B.load("simple_einet.sampling_utils").SamplingContext(num_samples=N, indices_out=io, indices_repetition=ir, is_mpe=False)


def features(B, card, rest):
    """card * m + rest features"""
    return card * B.dim("m") + rest if rest else card * B.dim("m", lo=1)


CARD = dict(card=[1, 2, 3, 4], rest=[0, 1, 2, 3], only=lambda v: v["rest"] < v["card"])


@contract("C02", **CARD)
def product_forward(B):
    """ProductLayer.forward: output j is the product of the inputs j*cardinality ... (j+1)*cardinality - 1 that exist"""
    q = B.variant["card"]
    Fin = features(B, q, B.variant["rest"])
    N, C, R = B.dim("N"), B.dim("C"), B.dim("R")
    l = B.load(PR).ProductLayer(in_features=Fin, cardinality=q, num_repetitions=R)
    x = B.tensor("x", [N, Fin, C, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("shape", out, [N, (Fin + q - 1) // q, C, R])

    def at(n, j, c, r):
        want = 0
        for i in range(q):
            f = j * q + i
            want = want + (B.at(x0, n, f, c, r) if f < Fin else 0)
        B.eq_at("product of its own inputs", out, (n, j, c, r), want)

    B.forall([N, (Fin + q - 1) // q, C, R], at)
    B.same("input unchanged", x, x0)


@contract("C07", **CARD)
def product_sample(B):
    """ProductLayer.sample: every input gets the selection of the product it belongs to"""
    q = B.variant["card"]
    Fin = features(B, q, B.variant["rest"])
    N, C, R = B.dim("N"), B.dim("C"), B.dim("R")
    l = B.load(PR).ProductLayer(in_features=Fin, cardinality=q, num_repetitions=R)
    io = B.index_tensor("io", [N, (Fin + q - 1) // q], C)
    ir = B.index_tensor("ir", [N], R)
    i0 = B.snapshot(io)
    c = ctx(B, io, ir, N)
    c2 = l.sample(c)
    B.shape("one selection per input", c2.indices_out, [N, Fin])
    B.forall([N, Fin], lambda n, f: B.eq_at("selection of its product", c2.indices_out, (n, f), B.at(i0, n, f // q)))
    B.same("repetition kept", c2.indices_repetition, ir)


ANYC = dict(rest=[0, 1])


def any_cardinality(B):
    """any cardinality q of at least two, any number of features q*m + p"""
    q, m = B.dim("q", lo=2), B.dim("m")
    rest = B.int_between("rest", 1, q - 1) if B.variant["rest"] else 0
    return q, q * m + rest, m + 1 if B.variant["rest"] else m


@contract("C02", **ANYC)
def product_forward_any(B):
    """ProductLayer.forward, any cardinality: output j is the product of the inputs j*cardinality ... that exist"""
    q, Fin, J = any_cardinality(B)
    N, C, R = B.dim("N"), B.dim("C"), B.dim("R")
    l = B.load(PR).ProductLayer(in_features=Fin, cardinality=q, num_repetitions=R)
    x = B.tensor("x", [N, Fin, C, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("shape", out, [N, J, C, R])

    def at(n, j, c, r):
        here = lambda i: B.ite(j * q + i < Fin, B.at(x0, n, B.ite(j * q + i < Fin, j * q + i, 0), c, r), 0)
        B.eq_at("product of its own inputs", out, (n, j, c, r), B.sum(q, here))

    B.forall([N, J, C, R], at)
    B.same("input unchanged", x, x0)


@contract("C07", **ANYC)
def product_sample_any(B):
    """ProductLayer.sample, any cardinality: every input gets the selection of the product it belongs to"""
    q, Fin, J = any_cardinality(B)
    N, C, R = B.dim("N"), B.dim("C"), B.dim("R")
    l = B.load(PR).ProductLayer(in_features=Fin, cardinality=q, num_repetitions=R)
    io = B.index_tensor("io", [N, J], C)
    ir = B.index_tensor("ir", [N], R)
    i0 = B.snapshot(io)
    c2 = l.sample(ctx(B, io, ir, N))
    B.shape("one selection per input", c2.indices_out, [N, Fin])
    B.forall([N, Fin], lambda n, f: B.eq_at("selection of its product", c2.indices_out, (n, f), B.at(i0, n, B.idiv(f, q))))
    B.same("repetition kept", c2.indices_repetition, ir)


@contract("C07", card=[2, 3])
def product_root_sample(B):
    """ProductLayer.sample without a selection: starts at the only channel of the only repetition; refuses several repetitions"""
    N, m = B.dim("N"), B.dim("m")
    card = B.variant["card"]
    PL = B.load(PR).ProductLayer
    c2 = PL(in_features=card * m, cardinality=card, num_repetitions=1).sample(ctx(B, None, None, N))
    B.true("one row per sample", c2.indices_out.shape[0] == N)
    B.forall([N], lambda n: B.eq("the only channel", B.at(c2.indices_out, n, 0), 0))
    B.shape("one repetition per sample", c2.indices_repetition, [N])
    B.forall([N], lambda n: B.eq("the only repetition", B.at(c2.indices_repetition, n), 0))
    R = B.dim("R", lo=2)
    B.raises("no repetition to choose", lambda: PL(in_features=card * m, cardinality=card, num_repetitions=R).sample(ctx(B, None, None, N)))


@contract("C02", diff=[0])
def root_product_forward(B):
    """RootProductLayer.forward: the product of all inputs"""
    N, Fin, C, R = B.dim("N"), B.dim("F"), B.dim("C"), B.dim("R")
    l = B.load(PR).RootProductLayer(num_features=Fin, num_repetitions=R)
    x = B.tensor("x", [N, Fin, C, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("shape", out, [N, 1, C, R])
    B.forall([N, C, R], lambda n, c, r: B.eq_at("product of all inputs", out, (n, 0, c, r), B.sum(Fin, lambda f: B.at(x0, n, f, c, r))))
    B.same("input unchanged", x, x0)


@contract("C07", diff=[0, 1])
def root_product_sample(B):
    """RootProductLayer.sample: every input gets the root's selection"""
    N, Fin, C, R = B.dim("N"), B.dim("F"), B.dim("C"), B.dim("R")
    l = B.load(PR).RootProductLayer(num_features=Fin, num_repetitions=R)
    ir = B.index_tensor("ir", [N], R)
    if B.variant["diff"]:
        idx, io = B.one_hot_tensor("io", [N, 1], C)
        i0 = B.snapshot(io)
        c2 = l.sample(ctx(B, io, ir, N))
        B.shape("one selection per input", c2.indices_out, [N, Fin, C])
        B.forall([N, Fin, C], lambda n, f, k: B.eq_at("the root's selection", c2.indices_out, (n, f, k), B.at(i0, n, 0, k)))
    else:
        io = B.index_tensor("io", [N, 1], C)
        i0 = B.snapshot(io)
        c2 = l.sample(ctx(B, io, ir, N))
        B.shape("one selection per input", c2.indices_out, [N, Fin])
        B.forall([N, Fin], lambda n, f: B.eq_at("the root's selection", c2.indices_out, (n, f), B.at(i0, n, 0)))


CROSS = dict(F=[2, 3, 4, 5, 6, 7, 8])


@contract("C02", **CROSS)
def cross_forward(B):
    """CrossProductLayer.forward: output (j, (a, b)) multiplies channel a of input 2j with channel b of input 2j+1 (1 if there is none)"""
    Fin = B.variant["F"]
    B.note_bounded("2 to 8 features; all other sizes unbounded")
    N, C, R = B.dim("N"), B.dim("C"), B.dim("R")
    l = B.load(PR).CrossProductLayer(in_features=Fin, in_channels=C, num_repetitions=R)
    x = B.tensor("x", [N, Fin, C, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    J = (Fin + 1) // 2
    B.shape("shape", out, [N, J, C * C, R])
    for j in range(J):
        B.forall([N, C, C, R], lambda n, a, b, r: B.eq_at("pair of channels", out, (n, j, a * C + b, r), B.at(x0, n, 2 * j, a, r) + (B.at(x0, n, 2 * j + 1, b, r) if 2 * j + 1 < Fin else 0)))
    B.same("input unchanged", x, x0)


@contract("C07", **CROSS)
def cross_sample(B):
    """CrossProductLayer.sample: the inputs of product j get the two channels that make up the selected pair"""
    Fin = B.variant["F"]
    B.note_bounded("2 to 8 features; all other sizes unbounded")
    N, C, R = B.dim("N"), B.dim("C"), B.dim("R")
    l = B.load(PR).CrossProductLayer(in_features=Fin, in_channels=C, num_repetitions=R)
    J = (Fin + 1) // 2
    io = B.index_tensor("io", [N, J], C * C)
    ir = B.index_tensor("ir", [N], R)
    i0 = B.snapshot(io)
    c2 = l.sample(ctx(B, io, ir, N))
    B.shape("one selection per input", c2.indices_out, [N, Fin])
    for f in range(Fin):
        B.forall([N], lambda n: B.eq_at("its channel of the pair", c2.indices_out, (n, f), B.idiv(B.at(i0, n, f // 2), C) if f % 2 == 0 else B.imod(B.at(i0, n, f // 2), C)))


def any_cross(B):
    """a cross product over any number of features, in the state its constructor leaves it in (cross_forward checks that state for 2 to 8)"""
    J, odd = B.dim("J"), B.variant["odd"]
    Fin = 2 * J - odd
    C, R = B.dim("C"), B.dim("R")
    l = B.load(PR).CrossProductLayer(in_features=2, in_channels=C, num_repetitions=R)
    l._scopes = B.torch.arange(2 * J).view(J, 2).t()
    l._pad = odd
    l.num_features = Fin
    return l, J, Fin, C, R


@contract("C02", odd=[0, 1])
def cross_forward_any(B):
    """CrossProductLayer.forward, any number of features: output (j, (a, b)) multiplies channel a of input 2j with channel b of input 2j+1"""
    l, J, Fin, C, R = any_cross(B)
    N = B.dim("N")
    x = B.tensor("x", [N, Fin, C, R], loglik=True)
    x0 = B.snapshot(x)
    out = l(x)
    B.shape("shape", out, [N, J, C * C, R])

    def at(n, j, a, b, r):
        right = B.ite(2 * j + 1 < Fin, B.at(x0, n, B.ite(2 * j + 1 < Fin, 2 * j + 1, 0), b, r), 0)
        B.eq_at("pair of channels", out, (n, j, a * C + b, r), B.at(x0, n, 2 * j, a, r) + right)

    B.forall([N, J, C, C, R], at)
    B.same("input unchanged", x, x0)


@contract("C07", odd=[0, 1])
def cross_sample_any(B):
    """CrossProductLayer.sample, any number of features: the inputs of product j get the two channels that make up the selected pair"""
    l, J, Fin, C, R = any_cross(B)
    N = B.dim("N")
    io = B.index_tensor("io", [N, J], C * C)
    ir = B.index_tensor("ir", [N], R)
    i0 = B.snapshot(io)
    c2 = l.sample(ctx(B, io, ir, N))
    B.shape("one selection per input", c2.indices_out, [N, Fin])

    def at(n, f):
        k = B.at(i0, n, B.idiv(f, 2))
        B.eq_at("its channel of the pair", c2.indices_out, (n, f), B.ite(B.imod(f, 2) == 0, B.idiv(k, C), B.imod(k, C)))

    B.forall([N, Fin], at)
