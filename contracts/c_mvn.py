"""C12 / C03: multivariate normal leaves over blocks of `cardinality` consecutive features (F a multiple of it)."""
from . import contract
from .c_leaf import leaf_ctx

AX = dict(card=[2, 3])


def make(B, rows=False):
    k = B.variant["card"]
    Fo, C, I, R = B.dim("Fo"), B.dim("C"), B.dim("I"), B.dim("R")
    l = B.load("simple_einet.layers.distributions.multivariate_normal").MultivariateNormal(num_features=Fo * k, num_channels=C, num_leaves=I, num_repetitions=R, cardinality=k)
    B.randomize(l)
    return l, k, Fo, C, I, R


def factors(B, l, *e):
    """mean vector and Cholesky factor of entry e = (c, o, i, r)"""
    k = B.variant["card"]
    mu = [B.at(l.means, *e, j) for j in range(k)]
    L = [[B.exp(B.at(l.L_diag_log, *e, j)) if j == q else (B.at(l.L_offdiag, *e, j, q) if q < j else 0) for q in range(k)] for j in range(k)]
    return mu, L


def logpdf(B, l, xs, *e):
    mu, L = factors(B, l, *e)
    z, s = [], 0
    for j in range(len(xs)):
        d = xs[j] - mu[j]
        for q in range(j):
            d = d - L[j][q] * z[q]
        z.append(d / L[j][j])
        s = s - z[j] * z[j] / 2 - B.at(l.L_diag_log, *e, j) - B.log(2 * B.pi) / 2
    return s


@contract("C12", **AX)
def mvn_value(B):
    """MultivariateNormal.forward: the joint log-density of every block under its own mean and Cholesky factor"""
    l, k, Fo, C, I, R = make(B)
    N = B.dim("N")
    x = B.tensor("x", [N, C, Fo * k])
    x0 = B.snapshot(x)
    out = l(x, None)
    B.shape("shape", out, [N, C, Fo, I, R])
    B.forall([N, C, Fo, I, R], lambda n, c, o, i, r: B.eq_at("joint log-density", out, (n, c, o, i, r), logpdf(B, l, [B.at(x0, n, c, o * k + j) for j in range(k)], c, o, i, r)))
    B.same("input unchanged", x, x0)


@contract("C03", scopes=["list", "tensor"], **AX)
def mvn_scopes(B):
    """MultivariateNormal.forward with marginalized_scopes naming whole blocks: those contribute 0, the others are untouched"""
    l, k, Fo, C, I, R = make(B)
    N, M = B.dim("N"), B.dim("M")
    x = B.tensor("x", [N, C, Fo * k])
    x0 = B.snapshot(x)
    blocks = B.index_tensor("blocks", [M], Fo)
    s = (blocks.unsqueeze(1) * k + B.torch.arange(k)).reshape(-1)
    s0 = B.snapshot(s)
    if B.variant["scopes"] == "list":
        s = s.tolist()
    out = l(x, s)

    def at(n, c, o, i, r):
        if B.exists(M * k, lambda q: o == B.idiv(B.at(s0, q), k)):
            B.eq_at("a marginalised block has log-likelihood 0", out, (n, c, o, i, r), 0)
        else:
            B.eq_at("the other blocks keep their log-density", out, (n, c, o, i, r), logpdf(B, l, [B.at(x0, n, c, o * k + j) for j in range(k)], c, o, i, r))

    B.forall([N, C, Fo, I, R], at)


@contract("C12", diff=[0, 1], mpe=[0, 1, 2], stat=1, **AX)
def mvn_sample(B):
    """MultivariateNormal.sample (all leaves of the selected repetition): every block is a joint draw of its own distribution; MPE = means"""
    v = B.variant
    l, k, Fo, C, I, R = make(B)
    N = B.dim("N", rows=True)
    ctx, p, r = leaf_ctx(B, N, Fo, I, R, v["diff"], v["mpe"], 1.0, parents=False)
    B.set_rng("sampling")
    out = l.sample(ctx)
    B.shape("shape", out, [N, C, Fo * k, I])

    def at(n, c, o, i):
        mu, L = factors(B, l, c, o, i, r(n))
        vals = [B.at(out, n, c, o * k + j, i) for j in range(k)]
        if v["mpe"]:
            for j in range(k):
                B.eq("mode", vals[j], mu[j])
        else:
            B.is_joint_draw("draw", vals, mu, L, (n, c, o, i))

    B.forall([N, C, Fo, I], at)
