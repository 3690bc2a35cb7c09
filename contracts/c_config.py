"""C14: validation of values, configurations and call arguments."""
from . import contract

TC = "simple_einet.type_checks"


@contract("C14", kind=["int", "float"], lo=["none", "some", "zero"], hi=["none", "some", "zero"], seeds=24)
def bounds(B):
    """check_valid: accepted exactly when lower <= value < upper, value returned unchanged"""
    v = B.variant
    cv = B.load(TC).check_valid
    typ = B.int if v["kind"] == "int" else B.float
    mk = (lambda n: B.int_between(n, -4, 4)) if v["kind"] == "int" else (lambda n: B.real(n, lo=-4.0, hi=4.0))
    x = mk("value")
    lo = {"none": None, "some": mk("lower"), "zero": typ(0)}[v["lo"]]
    hi = {"none": None, "some": mk("upper"), "zero": typ(0)}[v["hi"]]
    ok = B.both(*([x >= lo] if lo is not None else []), *([x < hi] if hi is not None else []), True)
    if ok:
        res, exc = B.attempt(lambda: cv(x, typ, lo, hi))
        B.true("a value inside the bounds is accepted", exc is None)
        if exc is None:
            B.eq("the value is returned unchanged", res, x)
    else:
        B.raises("a value outside the bounds is rejected", lambda: cv(x, typ, lo, hi))


@contract("C14")
def types(B):
    """check_valid: wrong types and None are rejected (None is accepted when allowed)"""
    cv = B.load(TC).check_valid
    i, f = B.int_between("i", -3, 9), B.real("f", lo=-3.0, hi=9.0)
    B.raises("an int is not a float", lambda: cv(i, B.float))
    B.raises("a float is not an int", lambda: cv(f, B.int))
    B.raises("None is rejected", lambda: cv(None, B.int, 1))
    B.raises("None is rejected", lambda: cv(None, B.float, 0.0, 1.0))
    B.true("None is accepted when allowed", cv(None, B.float, 0.0, 1.0, allow_none=True) is None)
    B.raises("strings are rejected", lambda: cv("3", B.int, 1))
    t_i, t_f = B.tensor("ti", [], lo=1, hi=5, integer=True, dtype="int64"), B.tensor("tf", [], lo=0.1, hi=0.9)
    B.raises("a long tensor is not a float", lambda: cv(t_i, B.float))
    B.raises("a float tensor is not an int", lambda: cv(t_f, B.int))
    B.eq("a long tensor is an int", cv(t_i, B.int, 1), B.at(t_i))
    B.eq("a float tensor is a float", cv(t_f, B.float, 0.0, 1.0), B.at(t_f))


NUMBERS = ["num_features", "num_channels", "num_sums", "num_leaves", "num_repetitions", "num_classes", "depth"]


def leaf_class(B, name="normal.Normal"):
    mod, cls = name.split(".")
    return getattr(B.load("simple_einet.layers.distributions." + mod), cls)


def config(B, **changes):
    kw = dict(num_features=8, num_channels=2, num_sums=3, num_leaves=4, num_repetitions=5, num_classes=6, depth=1, dropout=0.0,
              leaf_type=leaf_class(B), leaf_kwargs={}, layer_type="linsum", structure="top-down")
    kw.update(changes)
    return B.load("simple_einet.einet").EinetConfig(**kw)


def accepted_iff(B, ok, fn):
    """fn() returns when ok holds and raises when it does not"""
    if ok:
        _, exc = B.attempt(fn)
        B.true("a valid value is accepted", exc is None)
    else:
        B.raises("an invalid value is rejected", fn)


@contract("C14", field=NUMBERS, seeds=24)
def config_numbers(B):
    """EinetConfig.assert_valid: each size is accepted exactly from its documented lower bound on, and only as an integer"""
    f = B.variant["field"]
    low = {"depth": 0, "num_features": 2}.get(f, 1)
    x = B.int_between("value", -3, 3) if f != "depth" else B.choice("value", [-2, -1, 0, 1, 2, 3])
    accepted_iff(B, x >= low, lambda: config(B, **{f: x}).assert_valid())
    y = B.real("float", lo=1.0, hi=3.0)
    for wrong in (None, y, "3", [3]):
        B.raises("a value of another type is rejected", lambda: config(B, **{f: wrong}).assert_valid())


@contract("C14", seeds=24)
def config_dropout(B):
    """EinetConfig.assert_valid: dropout rates are accepted exactly in [0, 1)"""
    p = B.real("rate", lo=-2.0, hi=2.0)
    accepted_iff(B, B.both(p >= 0, p < 1), lambda: config(B, dropout=p).assert_valid())
    for wrong in (0, 1, "0.5"):
        B.raises("a value of another type is rejected", lambda: config(B, dropout=wrong).assert_valid())
    for edge, ok in ((0.0, True), (1.0, False), (-0.0, True)):
        accepted_iff(B, ok, lambda: config(B, dropout=edge).assert_valid())


@contract("C14", depth=[0, 1, 2, 3, 5], card=["none", "any"], build=[0, 1], seeds=24, only=lambda v: not v["build"] or (v["card"] == "none" and v["depth"] > 1))
def config_depth(B):
    """a depth is accepted exactly when the 2**depth leaf partitions get at least one (group of) feature(s) each; no model is built otherwise"""
    v = B.variant
    F = B.int_between("F", 2, 2 ** (v["depth"] + 2) + 3)
    kw = {}
    card = 1
    if v["card"] == "any":
        card = B.int_between("cardinality", 1, 4)
        kw = dict(leaf_type=leaf_class(B, "multivariate_normal.MultivariateNormal"), leaf_kwargs=dict(cardinality=card))
    ok = 2 ** v["depth"] * card <= F
    if v["build"]:
        if ok:
            return
        B.raises("no model of this depth", lambda: B.load("simple_einet.einet").Einet(config(B, num_features=F, depth=v["depth"], **kw)))
    else:
        accepted_iff(B, ok, lambda: config(B, num_features=F, depth=v["depth"], **kw).assert_valid())


@contract("C14", layer_type=["linsum", "linsum2", "einsum", "sum", None], structure=["top-down", "bottom-up", "original", None])
def config_kinds(B):
    """EinetConfig.assert_valid: the layer types and structures that exist, bottom-up only with linsum"""
    v = B.variant
    ok = (v["structure"] == "top-down" and v["layer_type"] in ("linsum", "linsum2", "einsum")) or (v["structure"] == "bottom-up" and v["layer_type"] == "linsum")
    cfg = config(B, layer_type=v["layer_type"], structure=v["structure"])
    accepted_iff(B, ok, cfg.assert_valid)
    if not ok:
        B.raises("no such model", lambda: B.load("simple_einet.einet").Einet(cfg))


@contract("C14", which=["einet", "convpc"])
def config_leaf_type(B):
    """the leaf type must be a class of leaves"""
    if B.variant["which"] == "einet":
        make = lambda t: config(B, leaf_type=t)
    else:
        make = lambda t: conv_config(B, leaf_type=t)
    for name in ("normal.Normal", "normal.RatNormal", "bernoulli.Bernoulli", "binomial.Binomial", "categorical.Categorical", "multivariate_normal.MultivariateNormal"):
        _, exc = B.attempt(make(leaf_class(B, name)).assert_valid)
        B.true("leaf classes are accepted", exc is None)
    for wrong in (None, 3, "Normal", int, B.load("simple_einet.einet").Einet):
        B.raises("anything else is rejected", make(wrong).assert_valid)


def conv_config(B, **changes):
    kw = dict(channels=[2, 3], kernel_size=2, num_channels=2, num_classes=3, leaf_type=leaf_class(B), leaf_kwargs={}, structure="top-down", order="sum-prod")
    kw.update(changes)
    return B.load("simple_einet.conv_pc").ConvPcConfig(**kw)


@contract("C14", order=["sum-prod", "prod-sum", "sum", None], structure=["top-down", "bottom-up", "original", None])
def convpc_kinds(B):
    """ConvPcConfig.assert_valid: the orders and structures that exist"""
    v = B.variant
    ok = v["order"] in ("sum-prod", "prod-sum") and v["structure"] in ("top-down", "bottom-up")
    accepted_iff(B, ok, conv_config(B, order=v["order"], structure=v["structure"]).assert_valid)


@contract("C14", field=["num_channels", "num_classes"])
def convpc_numbers(B):
    """ConvPcConfig.assert_valid: sizes from one on"""
    x = B.int_between("value", -3, 3)
    accepted_iff(B, x >= 1, lambda: conv_config(B, **{B.variant["field"]: x}).assert_valid())


@contract("C14", family=["normal.Normal", "normal.RatNormal", "bernoulli.Bernoulli", "binomial.Binomial", "categorical.Categorical", "multivariate_normal.MultivariateNormal"],
          field=["num_features", "num_channels", "num_leaves", "num_repetitions", "cardinality", "total_count"], seeds=12,
          only=lambda v: (v["field"] != "cardinality" or v["family"].endswith("MultivariateNormal")) and (v["field"] != "total_count" or v["family"].endswith("Binomial")))
def leaf_numbers(B):
    """every leaf family: sizes from one on"""
    v = B.variant
    x = B.int_between("value", -3, 3)
    kw = dict(num_features=4, num_channels=2, num_leaves=3, num_repetitions=2)
    kw.update({"binomial.Binomial": dict(total_count=5), "categorical.Categorical": dict(num_bins=4), "multivariate_normal.MultivariateNormal": dict(cardinality=2)}.get(v["family"], {}))
    if v["family"].endswith("MultivariateNormal") and v["field"] == "num_features":
        kw["cardinality"] = 1
    if v["field"] == "cardinality":
        kw["num_features"] = 6
    kw[v["field"]] = x
    accepted_iff(B, x >= 1, lambda: leaf_class(B, v["family"])(**kw))


@contract("C14", mean=["none", "any"], seeds=24)
def ratnormal_bounds(B):
    """RatNormal: bounds are accepted exactly when 0 <= min_sigma < max_sigma and min_mean < max_mean"""
    a, b = B.real("min_sigma", lo=-1.0, hi=2.0), B.real("max_sigma", lo=-1.0, hi=2.0)
    kw, ok = {}, B.both(a >= 0, a < b)
    if B.variant["mean"] == "any":
        m, n = B.real("min_mean", lo=-2.0, hi=2.0), B.real("max_mean", lo=-2.0, hi=2.0)
        kw, ok = dict(min_mean=m, max_mean=n), B.both(ok, m < n)
    accepted_iff(B, ok, lambda: leaf_class(B, "normal.RatNormal")(num_features=3, num_channels=2, num_leaves=2, min_sigma=a, max_sigma=b, **kw))


@contract("C14", kind=["sum", "linsum", "linsum2", "einsum", "mixing"], field=["num_features", "num_sums_in", "num_sums_out", "num_repetitions"], seeds=12,
          only=lambda v: v["kind"] != "mixing" or v["field"] != "num_repetitions")
def layer_numbers(B):
    """every sum layer: sizes from one on"""
    from .lib import get

    v = B.variant
    x = B.int_between("value", -3, 3)
    kw = dict(num_features=4, num_sums_in=3, num_sums_out=2)
    if v["kind"] != "mixing":
        kw["num_repetitions"] = 2
    if v["field"] == "num_features" and v["kind"] == "einsum":
        x = 2 * x
    kw[v["field"]] = x
    accepted_iff(B, x >= 1, lambda: get(B, v["kind"])(**kw))


@contract("C14", kind=["sum", "linsum", "linsum2", "einsum", "mixing"], seeds=24)
def layer_dropout(B):
    """every sum layer: dropout rates in [0, 1)"""
    from .lib import get

    p = B.real("rate", lo=-2.0, hi=2.0)
    kw = dict(num_features=4, num_sums_in=3, num_sums_out=2)
    accepted_iff(B, B.both(p >= 0, p < 1), lambda: get(B, B.variant["kind"])(dropout=p, **kw))
    for wrong in (None, 0, "0.5"):
        B.raises("a value of another type is rejected", lambda: get(B, B.variant["kind"])(dropout=wrong, **kw))


@contract("C14", kind=["product", "cross"], seeds=24)
def product_numbers(B):
    """product layers: the cardinality lies between one and the number of input features; cross products need two features and a channel"""
    P = B.load("simple_einet.layers.product")
    F, k = B.int_between("F", 1, 6), B.int_between("cardinality", -1, 8)
    if B.variant["kind"] == "product":
        accepted_iff(B, B.both(k >= 1, k <= F), lambda: P.ProductLayer(in_features=F, cardinality=k, num_repetitions=2))
    else:
        F, c = B.choice("F2", [1, 2, 3, 4, 5]), B.choice("channels", [-1, 0, 1, 2, 3])
        accepted_iff(B, B.both(F >= 2, c >= 1), lambda: P.CrossProductLayer(in_features=F, in_channels=c, num_repetitions=2))


@contract("C14", structure=["top-down", "bottom-up"], K=[1, "any"])
def call_arguments(B):
    """Einet.sample and Einet.posterior refuse contradictory arguments before anything happens"""
    from .einets import model, sizes, stub_type

    v = dict(B.variant, depth=1, rest=0, R="any", layer="linsum")
    z = sizes(B, v)
    log = {}
    e = model(B, z, stub_type(B, log), v)
    N = B.dim("N")
    x = B.tensor("x", [N, z.C, z.F], nan=True)
    x0 = B.snapshot(x)
    for fn in (e.sample,):
        B.raises("classes contradict evidence", lambda: fn(class_index=0, evidence=x))
        B.raises("a list of classes contradicts evidence", lambda: fn(class_index=[0], evidence=x))
        if z.K == 1:
            B.raises("a model of one class has no classes to choose", lambda: fn(num_samples=N, class_index=0))
            B.raises("a model of one class has no classes to choose", lambda: fn(class_index=[0]))
    B.raises("a number of samples contradicts evidence", lambda: e.sample(num_samples=N, evidence=x))
    if z.K == 1:
        B.raises("no posterior without classes", lambda: e.posterior(x))
    B.true("no leaf was touched", not log.get("samples") and not log.get("calls"))
    B.same("evidence", x, x0)
