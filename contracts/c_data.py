"""C18: data preparation keeps values, labels and supports consistent."""
from . import contract

BITS = (1, 2, 3, 4, 5, 6, 7, 8)


def image(B):
    """an image whose intensities are the 256 grey levels k / 255, as datasets deliver them"""
    dims = [B.dim("N"), B.dim("C", 1, 3), B.dim("H"), B.dim("W")]
    k = B.tensor("level", dims, lo=0, hi=255, integer=True)
    return k, k / 255.0, dims


def level(B, k, bits, ix):
    return B.idiv(B.at(k, *ix), 2 ** (8 - bits))


def codes(B, k, out, dims):
    """the level kept with n bits: exactly 0 .. 2^n - 1, in the order of the intensities, the extremes reaching the extremes"""
    bits = B.variant["bits"]
    B.shape("shape", out, dims)

    def at(*ix):
        B.eq("level", B.at(out, *ix), level(B, k, bits, ix))
        B.true("not below 0", B.at(out, *ix) >= 0)
        B.true("not above 2^n - 1", B.at(out, *ix) <= 2**bits - 1)
        B.true("black is 0", B.implies(B.at(k, *ix) < 1, B.at(out, *ix) < 0.5))
        B.true("white is 2^n - 1", B.implies(B.at(k, *ix) > 254, B.at(out, *ix) > 2**bits - 1.5))

    B.forall(dims, at)
    B.forall(dims + dims, lambda *ij: B.true("order kept", B.implies(B.at(k, *ij[:4]) <= B.at(k, *ij[4:]), B.at(out, *ij[:4]) <= B.at(out, *ij[4:]))))


@contract("C18", bits=BITS, where=["simple_einet.utils", "exp_utils"])
def quantised(B):
    """reduce_bits"""
    k, img, dims = image(B)
    before = B.snapshot(img)
    out = B.load(B.variant["where"]).reduce_bits(img, B.variant["bits"])
    codes(B, k, out, dims)
    B.same("input untouched", img, before)


@contract("C18", bits=BITS)
def codes_for_discrete_leaves(B):
    """preprocess without a Gaussian leaf: the integer codes themselves"""
    bits = B.variant["bits"]
    k, img, dims = image(B)
    out = B.load("simple_einet.utils").preprocess(img, bits, 2**bits, dequantize=True, has_gauss_dist=False)
    B.true("integers", out.dtype == B.torch.long)
    codes(B, k, out, dims)


@contract("C18", bits=BITS)
def centred_for_gaussian_leaves(B):
    """preprocess for Gaussian leaves without noise: code / bins - 1/2, inside [-1/2, 1/2)"""
    bits = B.variant["bits"]
    k, img, dims = image(B)
    out = B.load("simple_einet.utils").preprocess(img, bits, 2**bits, dequantize=False, has_gauss_dist=True)
    B.shape("shape", out, dims)

    def at(*ix):
        B.eq("code / bins - 1/2", B.at(out, *ix), level(B, k, bits, ix) / 2**bits - 0.5)
        B.true("inside", B.both(B.at(out, *ix) >= -0.5, B.at(out, *ix) < 0.5))

    B.forall(dims, at)


@contract("C18", bits=BITS)
def dequantised(B):
    """preprocess for Gaussian leaves with noise: uniform inside the bin of the code, drawn separately for every pixel"""
    bits = B.variant["bits"]
    k, img, dims = image(B)
    out = B.load("simple_einet.utils").preprocess(img, bits, 2**bits, dequantize=True, has_gauss_dist=True)
    B.shape("shape", out, dims)

    def at(*ix):
        low = level(B, k, bits, ix) / 2**bits - 0.5
        B.true("not below the bin", B.at(out, *ix) >= low)
        B.true("not above the bin", B.at(out, *ix) <= low + 1 / 2**bits)
        B.is_affine_draw("uniform in the bin", B.at(out, *ix), low, 1 / 2**bits, ix, kind="rand")

    B.forall(dims, at)


@contract("C18")
def not_an_image(B):
    """reduce_bits refuses an image with an intensity outside [0, 1]"""
    M = B.dim("M")
    x = B.tensor("x", [M])
    v, exc = B.attempt(lambda: B.load("simple_einet.utils").reduce_bits(x, 5))
    bad = B.exists(M, lambda m: B.either(B.at(x, m) < 0, B.at(x, m) > 1))
    B.true("refused exactly when outside", bad if exc is not None else B.neg(bad))


class Cfg:
    def __init__(self, **k):
        self.__dict__.update(k)


@contract("C18", bits=BITS, dist=["BINOMIAL", "CATEGORICAL"])
def support(B):
    """get_distribution: the leaf chosen for n bit images gives the codes 0 .. 2^n - 1, and only those, all the probability"""
    bits = B.variant["bits"]
    D = B.load("simple_einet.dist")
    dist = getattr(D.Dist, B.variant["dist"])
    kwargs, leaf = D.get_distribution(dist, Cfg(n_bits=bits, min_sigma=0.1, max_sigma=1.0, multivariate_cardinality=2))
    B.true("a discrete leaf", D.get_data_type_from_dist(dist) == D.DataType.DISCRETE)
    C, L, R = B.dim("C", 1, 2), B.dim("L", 1, 2), B.dim("R", 1, 2)
    F = B.dim("F", 1, 3)
    l = leaf(num_features=F, num_channels=C, num_leaves=L, num_repetitions=R, **kwargs)
    B.randomize(l)
    n = 2**bits
    x = B.torch.arange(n).to(B.float).reshape(n, 1, 1).expand(n, C, F)
    out = l(x, None)
    B.shape("every code has a likelihood", out, [n, C, F, L, R])
    mass = out.exp().sum(0)
    if bits <= 2:
        B.forall([C, F, L, R], lambda *e: B.eq_at("the codes carry all the probability", mass, e, 1))


@contract("C18", dist=["NORMAL", "NORMAL_RAT", "MULTIVARIATE_NORMAL", "PIECEWISE_LINEAR"])
def continuous_leaf(B):
    """get_distribution: continuous distributions get a continuous leaf with the configured parameters"""
    D = B.load("simple_einet.dist")
    name = B.variant["dist"]
    dist = getattr(D.Dist, name)
    lo, hi, k = B.real("lo", pos=True), B.real("hi", pos=True), B.choice("cardinality", [1, 2, 3])
    kwargs, leaf = D.get_distribution(dist, Cfg(n_bits=8, min_sigma=lo, max_sigma=hi, multivariate_cardinality=k))
    B.true("continuous", D.get_data_type_from_dist(dist) == D.DataType.CONTINUOUS)
    want = {
        "NORMAL": ("normal", "Normal", {}),
        "NORMAL_RAT": ("normal", "RatNormal", {"min_sigma": lo, "max_sigma": hi}),
        "MULTIVARIATE_NORMAL": ("multivariate_normal", "MultivariateNormal", {"cardinality": k}),
        "PIECEWISE_LINEAR": ("piecewise_linear", "PiecewiseLinear", {}),
    }[name]
    B.true("leaf", leaf is getattr(B.load("simple_einet.layers.distributions." + want[0]), want[1]))
    B.true("parameters", sorted(kwargs) == sorted(want[2]))
    for key, v in want[2].items():
        B.eq(key, kwargs[key], v)


@contract("C18")
def unknown_distribution(B):
    """an unknown distribution is refused"""
    D = B.load("simple_einet.dist")
    B.raises("no leaf", lambda: D.get_distribution("cauchy", Cfg(n_bits=8)), (ValueError,))
    B.raises("no data type", lambda: D.get_data_type_from_dist("cauchy"), (ValueError,))


@contract("C18", seed=[None, 0, 7], shuffle=[True, False])
def sampler(B):
    """TrainingSampler: every pass over the stream names each row of the dataset exactly once"""
    n, seed, shuffle = B.dim("size", 1, 40), B.variant["seed"], B.variant["shuffle"]
    make = B.load("simple_einet.data").TrainingSampler
    B.note_bounded("the first three passes")
    key = B.rng_key()
    passes = B.passes(iter(make(n, shuffle=shuffle, seed=seed)), n, 3)
    again = B.passes(iter(make(n, shuffle=shuffle, seed=seed)), n, 3)
    B.true("the global generator is not used", B.rng_key() == key)
    for p, q in zip(passes, again):
        B.shape("length", p, [n])

        def at(i, p=p, q=q):
            B.true("a row of the dataset", B.both(B.at(p, i) >= 0, B.at(p, i) < n))
            B.eq("same seed, same stream", B.at(p, i), B.at(q, i))
            if not shuffle:
                B.eq("in order", B.at(p, i), i)

        B.forall([n], at)
        B.forall([n, n], lambda i, j, p=p: B.true("no row twice", B.implies(B.both(B.at(p, i) <= B.at(p, j), B.at(p, j) <= B.at(p, i)), B.both(i <= j, j <= i))))


@contract("C18", sym=False, seeds=8)
def reshuffled(B):
    """TrainingSampler: a new order in every pass, another one for another seed"""
    n, s = B.dim("size", 12, 40), B.int_between("seed", 0, 1000)
    make = B.load("simple_einet.data").TrainingSampler
    a = B.passes(iter(make(n, seed=s)), n, 3)
    b = B.passes(iter(make(n, seed=s + 1)), n, 1)
    B.true("passes differ", len({tuple(p.tolist()) for p in a}) == 3)
    B.true("seeds differ", a[0].tolist() != b[0].tolist())


NAMES = (
    "mnist-16 mnist-32 mnist-bin mnist fmnist fmnist-16 fmnist-32 cifar svhn svhn-extra celeba celeba-small celeba-tiny lsun fake flowers tiny-imagenet lfw"
    " 20newsgroup kddcup99 covtype breast_cancer wine digits"
).split()
SYNTH = {"2-clusters": 2, "3-clusters": 3, "9-clusters": 9, "2-moons": 2, "circles": 2, "aniso": 3, "varied": 3}


@contract("C18", name=NAMES + ["plants"])
def described(B):
    """every dataset with a shape also has a number of classes, and a classification dataset has some"""
    D = B.load("simple_einet.data")
    name = B.variant["name"]
    s = D.get_data_shape(name)
    c = D.get_data_num_classes(name)
    B.true("shape", s.channels >= 1 and s.height >= 1 and s.width >= 1)
    B.true("unpacked in the order channels, height, width", tuple(s) == (s.channels, s.height, s.width) == (s[0], s[1], s[2]))
    B.eq("pixels", s.num_pixels, s.height * s.width)
    B.true("classes", c >= 0)
    B.true("one dimensional data has one column", s.width == 1 or not D.is_1d_data(name))
    B.true("images are not one dimensional", s.width > 1 or D.is_1d_data(name))


@contract("C18", sym=False, name=sorted(SYNTH))
def synthetic(B):
    """generate_data: as many rows as asked for, labels below the reported number of classes, all of them used"""
    D = B.load("simple_einet.data")
    name = "synth-" + B.variant["name"]
    n = B.dim("n", 30, 200)
    data, labels = D.generate_data(name, n)
    s = D.get_data_shape(name)
    c = D.get_data_num_classes(name)
    B.shape("data", data, [n, s.channels * s.num_pixels])
    B.shape("labels", labels, [n])
    B.true("types", data.dtype == B.torch.float32 and labels.dtype == B.torch.int64)
    B.true("reported number of classes", sorted(set(labels.tolist())) == list(range(c)))
    B.true("finite", bool(B.torch.isfinite(data).all()))


@contract("C18", sym=False, seeds=1, name=["wine", "breast_cancer", "synth-2-moons", "synth-9-clusters", "digits"])
def splits(B):
    """get_datasets (the datasets that need no download): three splits with the reported shape and classes"""
    D = B.load("simple_einet.data")
    name = B.variant["name"]
    s, c = D.get_data_shape(name), D.get_data_num_classes(name)
    parts = D.get_datasets(name, "/nonexistent", normalize=False)
    B.true("three splits", len(parts) == 3)
    rows = []
    for part in parts:
        B.true("not empty", len(part) > 0)
        for k in range(len(part)):
            x, y = part[k]
            B.true("reported shape", x.numel() == s.channels * s.num_pixels)
            B.true("label", 0 <= int(y) < c)
    seen = {int(part[k][1]) for part in parts for k in range(len(part))}
    B.true("every class occurs", seen == set(range(c)))


@contract("C18", sym=False)
def loaders(B):
    """_make_loader: an endless loader passes over the dataset again and again, a finite one once; unshuffled in order"""
    D = B.load("simple_einet.data")
    B.load("exp_utils")
    n, b = B.dim("rows", 2, 30), B.dim("batch", 1, 8)
    data = B.torch.utils.data.TensorDataset(B.torch.arange(n))
    once = [int(v) for (x,) in D._make_loader(b, 0, data, loop=False, shuffle=False, seed=1) for v in x]
    B.true("every row once, in order", once == list(range(n)))
    mixed = [int(v) for (x,) in D._make_loader(b, 0, data, loop=False, shuffle=True, seed=1) for v in x]
    B.true("every row once", sorted(mixed) == list(range(n)))
    it = iter(D._make_loader(b, 0, data, loop=True, shuffle=True, seed=1))
    stream = []
    while len(stream) < 3 * n:
        stream += [int(v) for v in next(it)[0]]
    for k in range(3):
        B.true("every row once in every pass", sorted(stream[k * n : (k + 1) * n]) == list(range(n)))


@contract("C18")
def domains(B):
    """Domain: the values, bounds and type of a feature"""
    D = B.load("simple_einet.dist")
    lo = B.choice("lo", [-2, 0, 3])
    k = B.choice("k", [0, 1, 4])
    d = D.Domain.discrete_range(lo, lo + k)
    B.true("every integer from min to max", [int(v) for v in d.values] == list(range(lo, lo + k + 1)))
    B.true("bounds", (d.min, d.max) == (lo, lo + k))
    B.true("discrete", d.data_type == D.DataType.DISCRETE)
    v = [lo + 2, lo, lo + 7]
    d = D.Domain.discrete_bins(v)
    B.true("values", list(d.values) == v)
    B.true("bounds of the values", (d.min, d.max) == (lo, lo + 7))
    B.true("still discrete", d.data_type == D.DataType.DISCRETE)
    a, b = B.real("a"), B.real("b")
    d = D.Domain.continuous_range(a, b)
    B.eq("min", d.min, a)
    B.eq("max", d.max, b)
    B.true("continuous", d.data_type == D.DataType.CONTINUOUS)
    d = D.Domain.continuous_inf_support()
    B.true("the whole line", d.min == float("-inf") and d.max == float("inf") and d.data_type == D.DataType.CONTINUOUS)


@contract("C18")
def shapes(B):
    """Shape: scaling changes height and width only"""
    D = B.load("simple_einet.data")
    c, h, w, k = B.dim("c"), B.dim("h"), B.dim("w"), B.choice("k", [1, 2, 3])
    s = D.Shape(c, h, w)
    B.eq("pixels", s.num_pixels, h * w)
    u = s.upscale(k)
    B.eq("channels", u.channels, c)
    B.eq("height", u.height, h * k)
    B.eq("width", u.width, w * k)
    d = D.Shape(c, h * k, w * k).downscale(k)
    B.eq("channels again", d.channels, c)
    B.eq("height again", d.height, h)
    B.eq("width again", d.width, w)
    for got, e in zip(s, (c, h, w)):
        B.eq("order", got, e)
    for i, e in enumerate((c, h, w)):
        B.eq("indexed", s[i], e)
