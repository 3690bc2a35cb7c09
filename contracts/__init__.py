"""Contracts on the code of /repo.  Every contract is a function check(B); B is either the symbolic backend (all sizes and
entries universally quantified, obligations discharged by the prover) or the concrete one (real torch; replay, cross-check,
bounded stand-in)."""
import importlib
import itertools
import os

UNITS = {}  # uid -> Unit


class Unit:
    def __init__(self, prop, fn, variant, tier, about, con_seeds, stat, sym, seconds):
        self.prop, self.fn, self.variant, self.tier = prop, fn, variant, tier
        self.about = about
        self.con_seeds, self.stat, self.sym, self.seconds = con_seeds, stat, sym, seconds
        v = ",".join(f"{k}={x}" for k, x in variant.items())
        self.uid = f"{prop}/{fn.__module__.split('.')[-1]}.{fn.__name__}" + (f"[{v}]" if v else "")


def contract(prop, tier="quick", about="", seeds=6, stat=0, sym=True, seconds=100, only=None, **axes):
    """axes: name -> list of values; every combination is one unit.  stat: number of statistical concrete runs."""
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def deco(fn):
        names = list(axes)
        for combo in itertools.product(*[axes[n] for n in names]):
            variant = dict(zip(names, combo))
            if only and not only(variant):
                continue
            for p in props:
                u = Unit(p, fn, variant, tier(variant) if callable(tier) else tier, about or (fn.__doc__ or ""), seeds, stat, sym, seconds)
                assert u.uid not in UNITS, u.uid
                UNITS[u.uid] = u
        return fn

    return deco


def load_all():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f.startswith("c_"):
            importlib.import_module("contracts." + f[:-3])
    return UNITS
