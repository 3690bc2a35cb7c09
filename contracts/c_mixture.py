"""C15: Mixture — every row is scored / completed / drawn by exactly one component, in row order, with all options passed on."""
from . import contract

MX = "simple_einet.mixture"


def parts(B, K, F, log):
    """components: an arbitrary log-density and arbitrary (seeded) sampling per component, recording the options they get"""
    torch = B.torch
    su = B.load("simple_einet.sampling_utils")

    class Part(torch.nn.Module):
        def __init__(self, k):
            super().__init__()
            self.k = k

        def forward(self, x, marginalized_scopes=None):
            x = x.reshape(x.shape[0], F)
            keep = torch.ones(F)
            for j in marginalized_scopes if marginalized_scopes is not None else []:
                keep[j] = 0.0
            v = torch.where(torch.isnan(x), torch.zeros_like(x), x)
            return (v * (keep * log["slope"][self.k]).unsqueeze(0)).sum(dim=1, keepdim=True) + log["offset"][self.k]

        def sample(self, num_samples=None, evidence=None, seed=None, **kw):
            log.setdefault("calls", []).append((self.k, num_samples, kw))
            with su.sampling_context(self, None, seed=seed):
                n = num_samples if evidence is None else evidence.shape[0]
                z = torch.randn(n, 1, F) + log["loc"][self.k]
                if kw.get("class_index") is not None:
                    z = z + torch.tensor(kw["class_index"]).float().reshape(-1, 1, 1) * log["shift"][self.k]
            if evidence is None:
                return z
            z = z.reshape(evidence.shape)
            return torch.where(torch.isnan(evidence), z, evidence)

    return Part


def mixture(B, K, F, log):
    torch = B.torch
    mx = B.load(MX)
    ein = B.load("simple_einet.einet")
    leaf = B.load("simple_einet.layers.distributions.normal").Normal
    m = mx.Mixture(K, ein.EinetConfig(num_features=F, num_channels=1, num_sums=1, num_leaves=1, num_repetitions=1, num_classes=1, depth=0, dropout=0.0, leaf_type=leaf, leaf_kwargs={}))
    B.true("number of components", len(m.models) == K)
    Part = parts(B, K, F, log)
    m.models = torch.nn.ModuleList([Part(k) for k in range(K)])
    log["slope"], log["offset"], log["shift"] = B.tensor("slope", [K, F]), B.tensor("offset", [K]), B.tensor("shift", [K])
    log["loc"] = B.tensor("loc", [K, F])
    log["cent"], log["w"] = B.tensor("cent", [K, F]), B.tensor("w", [K], pos=True)
    m.centroids.data = log["cent"].clone()
    m.mixture_weights.data = log["w"].clone()

    def max_sim(a, b):
        """assumed contract of the clustering library: index of the nearest centroid"""
        d = -(a.unsqueeze(1) - b.unsqueeze(0)).square().sum(dim=-1)
        return d.max(dim=1)

    m._kmeans.max_sim = max_sim
    return m


def rows(B, name, N, F, nan, layout):
    shape = [N, F] if layout == "2d" else [N, 1, F]
    x = B.tensor(name, shape, nan=nan)
    if nan:  # some value is missing
        f0 = B.int_between("f0", 0, F - 1)
        if layout == "2d":
            x[0, f0] = float("nan")
        else:
            x[0, 0, f0] = float("nan")
    return x


def cell(layout):
    return (lambda i, f: (i, f)) if layout == "2d" else (lambda i, f: (i, 0, f))


def assigned(B, log, x, K, F, at, marg):
    """the component row i belongs to: its nearest centroid over the present, not marginalised features"""

    def score(i, k):
        def term(f):
            d = B.at(x, *at(i, f)) - B.at(log["cent"], k, f)
            gone = B.isnan(x, *at(i, f))
            if marg is not None:
                gone = B.either(gone, f == marg)
            return B.ite(gone, 0, -(d * d))

        return B.sum(F, term)

    def who(i):
        best, top = 0, score(i, 0)
        for k in range(1, K):
            sk = score(i, k)
            if top < sk:
                best, top = k, sk
        return best

    return who


AX = dict(K=[1, 2, 3], N=[1, 2, 3], nan=[0, 1], marg=["none", "list"], layout=["2d", "3d"])


def small(v):
    if v["marg"] == "list" and (v["K"] == 3 or v["N"] == 3 or v["nan"] and v["N"] == 2 and v["K"] == 2):
        return False
    if v["nan"] and v["N"] * v["K"] >= 6:
        return False
    return v["N"] * v["K"] <= 6 and (v["layout"] == "2d" or v["N"] == 2)


@contract("C15", only=small, **AX)
def mixture_forward(B):
    """Mixture.forward: row i gets the log-likelihood of the component it is assigned to, with the same marginalised scopes"""
    v = B.variant
    K, N, log = v["K"], v["N"], {}
    B.note_bounded("at most 3 components and 3 rows; features, parameters and values unbounded")
    F = B.dim("F", lo=2) if v.get("marg", "none") == "none" else 2
    m = mixture(B, K, F, log)
    x = rows(B, "x", N, F, bool(v["nan"]), v["layout"])
    at = cell(v["layout"])
    mg = None if v["marg"] == "none" else B.int_between("mg", 0, F - 1)
    x0 = B.snapshot(x)
    out = m(x, None if mg is None else [mg])
    B.true("one result per row", out.shape[0] == N)
    who = assigned(B, log, x0, K, F, at, mg)
    for i in range(N):
        def ll(k):
            def term(f):
                gone = B.isnan(x0, *at(i, f))
                if mg is not None:
                    gone = B.either(gone, f == mg)
                return B.ite(gone, 0, B.at(x0, *at(i, f)) * B.at(log["slope"], k, f))

            return B.sum(F, term) + B.at(log["offset"], k)

        B.eq("log-likelihood under the assigned component", B.at(out, i, 0), ll(who(i)))
    B.same("input unchanged", x, x0)


@contract("C15", only=small, mode=["sample", "mpe"], seeded=[0, 1], **AX)
def mixture_evidence(B):
    """conditional sampling / MPE: row i is completed by the component its evidence belongs to; evidence and row order are kept"""
    v = B.variant
    K, N, log = v["K"], v["N"], {}
    B.note_bounded("at most 3 components and 3 rows; features, parameters and values unbounded")
    F = B.dim("F", lo=2) if v["marg"] == "none" else 2
    m = mixture(B, K, F, log)
    ev = rows(B, "ev", N, F, bool(v["nan"]), v["layout"])
    at = cell(v["layout"])
    mg = None if v["marg"] == "none" else B.int_between("mg", 0, F - 1)
    ev0 = B.snapshot(ev)
    marg = None if mg is None else [mg]
    kw = dict(evidence=ev, marginalized_scopes=marg)
    if v["seeded"]:
        kw["seed"] = 11
    if v["mode"] == "mpe" and not v["seeded"]:
        out = m.mpe(evidence=ev, marginalized_scopes=marg)
        want = dict(is_mpe=True)
    else:
        want = dict(is_mpe=v["mode"] == "mpe", temperature_leaves=0.25, temperature_sums=0.5, mpe_at_leaves=v["mode"] == "sample")
        out = m.sample(**want, **kw)
    B.shape("shape of the evidence", out, [N, F] if v["layout"] == "2d" else [N, 1, F])
    for k, n, opts in log["calls"]:
        for name, val in want.items():
            B.true("option reaches the component: " + name, opts.get(name) == val)
        B.true("marginalised scopes reach the component", opts.get("marginalized_scopes") is marg or opts.get("marginalized_scopes") == marg)
    who = assigned(B, log, ev0, K, F, at, mg)
    for i in range(N):
        k = who(i)

        def row(f):
            if B.isnan(ev0, *at(i, f)):
                B.is_affine_draw("missing value drawn by the assigned component", B.at(out, *at(i, f)), B.at(log["loc"], k, f), 1, (f,))
            else:
                B.eq_at("evidence is kept", out, at(i, f), B.at(ev0, *at(i, f)))

        B.forall([F], row)
    B.same("evidence unchanged", ev, ev0)


@contract("C15", stat=200, K=[1, 2, 3], N=["none", 1, 2, 3], cls=["none", "int", "list"], seeded=[0, 1], only=lambda v: (v["cls"] == "none" or v["N"] in (1, 2) and v["K"] == 2) and (v["K"] < 3 or v["N"] != 3))
def mixture_sample(B):
    """unconditional sampling: row i comes from a component drawn with the mixture weights; rows, classes and options stay aligned"""
    v = B.variant
    K, log = v["K"], {}
    N = 1 if v["N"] == "none" else v["N"]
    B.note_bounded("at most 3 components and 3 rows; features, parameters and values unbounded")
    F = B.dim("F", lo=2)
    m = mixture(B, K, F, log)
    if not B.symbolic:  # the component a row comes from is visible
        log["loc"][:] = B.torch.arange(K).float().unsqueeze(1) * 1000.0
    opts = dict(temperature_leaves=0.25, temperature_sums=0.5, mpe_at_leaves=True, marginalized_scopes=None)
    cls = None
    if v["cls"] == "int":
        cls = 7
    elif v["cls"] == "list":
        cls = [3 + 2 * i for i in range(N)]
    kw = dict(opts)
    if cls is not None:
        kw["class_index"] = cls
    if v["seeded"]:
        kw["seed"] = B.int_between("seed", 0, 2**31)
    if v["N"] != "none" and v["cls"] != "list":
        kw["num_samples"] = N
    out = m.sample(**kw)
    B.shape("num_samples rows", out, [N, 1, F])
    asked = sum(n if n is not None else len(o["class_index"]) for k, n, o in log["calls"])
    B.true("as many rows asked for as returned", asked == N)
    for k, n, o in log["calls"]:
        for name, val in dict(opts, is_mpe=False).items():
            B.true("option reaches the component: " + name, o.get(name) == val)
    zs = []
    for i in range(N):
        c = 0 if cls is None else cls if v["cls"] == "int" else cls[i]
        zk = [(k, B.residual_noise(B.at(out, i, 0, 0), B.at(log["loc"], k, 0) + c * B.at(log["shift"], k))) for k in range(K)]
        zk = [(k, z) for k, z in zk if z is not None]
        B.true("row i is a draw of one component for its own class", len(zk) == 1)
        if len(zk) != 1:
            continue
        zs.append(zk[0][1])
        k = zk[0][0]
        B.forall([F], lambda f: B.is_affine_draw("row drawn by one component", B.at(out, i, 0, f), B.at(log["loc"], k, f) + c * B.at(log["shift"], k), 1, (f,)))
        if K > 1:
            B.is_draw("component of the row", k, K, lambda k: B.log(B.at(log["w"], k)), (i,))
    B.separate_noise("rows do not share randomness", zs)


@contract("C15", per=[1, 2], K=[1, 2, 3])
def mixture_per_cluster(B):
    """num_samples_per_cluster: that many rows from every component, component after component"""
    K, per, log = B.variant["K"], B.variant["per"], {}
    B.note_bounded("at most 3 components, 2 rows each; features, parameters and values unbounded")
    F = B.dim("F", lo=2)
    m = mixture(B, K, F, log)
    if not B.symbolic:
        log["loc"][:] = B.torch.arange(K).float().unsqueeze(1) * 1000.0
    out = m.sample(num_samples_per_cluster=per)
    B.shape("rows", out, [K * per, 1, F])
    for i in range(K * per):
        k = i // per
        B.forall([F], lambda f: B.is_affine_draw("row drawn by its component", B.at(out, i, 0, f), B.at(log["loc"], k, f), 1, (f,)))
    B.separate_noise("rows do not share randomness", [B.residual_noise(B.at(out, i, 0, 0), B.at(log["loc"], i // per, 0)) for i in range(K * per)])


@contract("C15", N=["none", 1, 3], K=[1, 2, 3])
def mixture_mpe(B):
    """unconditional MPE: every requested row comes from a component of largest weight, asked for its MPE"""
    v = B.variant
    K, log = v["K"], {}
    N = 1 if v["N"] == "none" else v["N"]
    B.note_bounded("at most 3 components and rows; features, parameters and values unbounded")
    F = B.dim("F", lo=2)
    m = mixture(B, K, F, log)
    out = m.sample(is_mpe=True) if v["N"] == "none" else m.sample(num_samples=N, is_mpe=True)
    B.shape("rows", out, [N, 1, F])
    for k, n, o in log["calls"]:
        B.true("the component is asked for its MPE", o.get("is_mpe") == True)
        for j in range(K):
            B.true("largest weight", B.at(log["w"], j) <= B.at(log["w"], k))


@contract("C15", K=[2, 3], N=[1, 2], kind=["free", "evidence"], only=lambda v: v["K"] * v["N"] <= 4)
def mixture_seed(B):
    """the same seed gives the same rows, whatever the generator's state, and leaves that state as it was"""
    v = B.variant
    K, N, log = v["K"], v["N"], {}
    B.note_bounded("at most 3 components and 2 rows; features, parameters and values unbounded")
    F = B.dim("F", lo=2)
    m = mixture(B, K, F, log)
    kw = dict(seed=5)
    if v["kind"] == "free":
        kw["num_samples"] = N
    else:
        kw["evidence"] = rows(B, "ev", N, F, False, "2d")
        kw["evidence"][:] = float("nan")
    B.set_rng("before")
    s0 = B.rng_key()
    a = m.sample(**kw)
    B.true("generator state restored", B.rng_key() == s0)
    B.set_rng("other")
    s1 = B.rng_key()
    b = m.sample(**kw)
    B.true("generator state restored", B.rng_key() == s1)
    B.same("same seed, same rows", a, b)


@contract("C15", K=[1, 2, 3], N=[1, 2, 3])
def mixture_initialize(B):
    """initialize: one weight per component, the share of the rows assigned to it"""
    v = B.variant
    K, N, log = v["K"], v["N"], {}
    B.note_bounded("at most 3 components and 4 rows; features and values unbounded")
    F = B.dim("F", lo=2)
    m = mixture(B, K, F, log)
    x = B.tensor("x", [N, F])
    lab = B.index_tensor("lab", [N], K)
    cent = B.tensor("found", [K, F])

    def fit_predict(data):
        m._kmeans.centroids = cent
        return lab

    m._kmeans.fit_predict = fit_predict
    m.initialize(data=x)
    B.shape("one weight per component", m.mixture_weights, [K])
    for k in range(K):
        B.eq("share of the rows", B.at(m.mixture_weights, k), B.sum(N, lambda i: B.ind(B.at(lab, i) == k)) / N)
        B.forall([F], lambda f: B.eq("centroid", B.at(m.centroids, k, f), B.at(cent, k, f)))


def component(B, K, F, log):
    """a Mixture whose centroids are arbitrary, with any number of components and features"""
    m = mixture_shell(B)
    m.num_features = F
    m.n_components = K
    log["cent"] = B.tensor("cent", [K, F])
    m.centroids = B.torch.nn.Parameter(log["cent"].clone(), requires_grad=False)
    return m


def mixture_shell(B):
    torch = B.torch
    mx = B.load(MX)
    ein = B.load("simple_einet.einet")
    leaf = B.load("simple_einet.layers.distributions.normal").Normal
    m = mx.Mixture(1, ein.EinetConfig(num_features=2, num_channels=1, num_sums=1, num_leaves=1, num_repetitions=1, num_classes=1, depth=0, dropout=0.0, leaf_type=leaf, leaf_kwargs={}))

    def max_sim(a, b):
        d = -(a.unsqueeze(1) - b.unsqueeze(0)).square().sum(dim=-1)
        return d.max(dim=1)

    m._kmeans.max_sim = max_sim
    return m


@contract("C15", nan=[0, 1], layout=["2d", "3d"])
def nearest_component(B):
    """Mixture._predict_cluster, any number of rows, components and features: the centroid nearest over the row's present features"""
    v = B.variant
    K, N, F, log = B.dim("K"), B.dim("N"), B.dim("F"), {}
    m = component(B, K, F, log)
    x = rows(B, "x", N, F, bool(v["nan"]), v["layout"])
    at = cell(v["layout"])
    x0 = B.snapshot(x)
    out = m._predict_cluster(x)
    B.shape("one component per row", out, [N])

    def row(i):
        def score(k):
            def term(f):
                d = B.at(x0, *at(i, f)) - B.at(log["cent"], k, f)
                return B.ite(B.isnan(x0, *at(i, f)), 0, -(d * d))

            return B.sum(F, term)

        B.is_argmax("nearest", B.at(out, i), K, score)

    B.forall([N], row)
    B.same("input unchanged", x, x0)


@contract("C15")
def component_weights(B):
    """Mixture.initialize, any number of rows, components and features: the weight of a component is its share of the rows"""
    K, N, F, log = B.dim("K"), B.dim("N"), B.dim("F"), {}
    m = component(B, K, F, log)
    x = B.tensor("x", [N, F])
    lab = B.index_tensor("lab", [N], K)
    cent = B.tensor("found", [K, F])

    def fit_predict(data):
        m._kmeans.centroids = cent
        return lab

    m._kmeans.fit_predict = fit_predict
    m.initialize(data=x)
    B.shape("one weight per component", m.mixture_weights, [K])
    B.forall([K], lambda k: B.eq("share of the rows", B.at(m.mixture_weights, k), B.sum(N, lambda i: B.ind(B.at(lab, i) == k)) / N))
    B.forall([K, F], lambda k, f: B.eq("centroid", B.at(m.centroids, k, f), B.at(cent, k, f)))
