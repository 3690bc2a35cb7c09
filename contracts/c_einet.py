"""Whole-model contracts: C02 (normalised density, every feature exactly once)."""
from . import contract
from .einets import STRUCT, legal, model, sizes, stub_type


@contract("C02", only=legal, **STRUCT)
def einet_counts_features_once(B):
    """Einet.forward: adding d(n,c,f) to the log-densities of all leaves of (c,f) adds exactly sum d to the result"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    N = B.dim("N", rows=True)
    ll = B.tensor("ll", [N, z.C, z.F, z.I, z.R], loglik=True)
    d = B.tensor("d", [N, z.C, z.F])
    x = B.tensor("x", [N, z.C, z.F])
    log["ll"] = ll
    a = e(x)
    log["ll"] = ll + d.unsqueeze(-1).unsqueeze(-1)
    b = e(x)
    B.shape("one value per row and class", a, [N, z.K])
    B.forall([N, z.K], lambda n, k: B.eq("every feature counts exactly once", B.at(b, n, k), B.at(a, n, k) + B.sum(z.C, lambda c: B.sum(z.F, lambda f: B.at(d, n, c, f)))))


@contract("C02", only=legal, **STRUCT)
def einet_total_mass(B):
    """Einet.forward: when every leaf integrates to one (log 1 = 0) so does the model, for every class"""
    v = B.variant
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    e.eval()
    N = B.dim("N", rows=True)
    log["ll"] = B.torch.zeros(N, z.C, z.F, z.I, z.R)
    a = e(B.tensor("x", [N, z.C, z.F]))
    B.shape("one value per row and class", a, [N, z.K])
    B.forall([N, z.K], lambda n, k: B.eq("total mass", B.at(a, n, k), 0))
