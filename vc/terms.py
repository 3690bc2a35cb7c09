"""Hash-consed term language of the verifier.

Numeric terms are kept in polynomial normal form over *atoms* with rational coefficients and rational
exponents (op 'poly'); Boolean terms are small propositional formulas over `le`/`eq` literals on polynomials.
0/1 indicators I(b) embed Booleans into polynomials, so if-then-else, one-hot encodings and masks are ordinary
polynomials.  exp/log are normalised against each other (exp(a+b)=exp a * exp b, exp(log t)=t,
log(ab)=log a+log b for non-negative factors), finite sums over symbolic ranges are binders.

The theory is that of mathematical reals with the usual convention exp(log 0) = 0.
"""
from fractions import Fraction
from functools import reduce
from math import gcd

_table = {}
_count = [0]
EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "fv", "h", "id", "__weakref__")

    def __repr__(self):
        return show(self)


def _mk(op, args, fv, h):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.fv, t.h = op, args, fv, h
        _count[0] += 1
        t.id = _count[0]
        _table[k] = t
    return t


def _fv(ts):
    ts = [t for t in ts if isinstance(t, T)]
    if not ts:
        return EMPTY
    return frozenset().union(*[t.fv for t in ts])


def _h(ts):
    return max([t.h for t in ts if isinstance(t, T)], default=0)


class Unsupported(BaseException):
    """The engine cannot represent this construct (never a property violation)."""


# ----------------------------------------------------------------------------- polynomials
def _poly_from_dict(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: _mkey(mc[0])))
    atoms = [a for m, _ in items for a, _ in m]
    return _mk("poly", items, _fv(atoms), _h(atoms))


def _mkey(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite constant {c}")
        c = Fraction(repr(float(c)))
    return _poly_from_dict({(): Fraction(c)})


ZERO = const(0)
ONE = const(1)


def is_const(p):
    return p.op == "poly" and (len(p.args) == 0 or (len(p.args) == 1 and p.args[0][0] == ()))


def cval(p):
    return p.args[0][1] if p.args else Fraction(0)


def atom(a, e=1):
    return _poly_from_dict({((a, e),): Fraction(1)})


def add(*ps):
    d = {}
    for p in ps:
        for m, c in p.args:
            d[m] = d.get(m, 0) + c
    return _poly_from_dict(d)


def scale(p, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return _poly_from_dict({m: k * c for m, k in p.args})


def neg(p):
    return scale(p, -1)


def sub(a, b):
    return add(a, neg(b))


_mul_cache = {}


def _mmul(m1, m2):
    """Multiply monomials; returns (monomial, list of polynomials still to multiply in)."""
    if not m1:
        return m2, []
    if not m2:
        return m1, []
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = []
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "I":
            e = 1
        if a.op == "pp" and e > 0 and e == int(e):
            extra.append((a.args[0], int(e)))
            continue
        out.append((a, int(e) if e == int(e) else e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), extra


MAXTERMS = 4000


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if not a.args or not b.args:
        return ZERO
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mul_cache.get(k)
    if r is not None:
        return r
    if len(a.args) * len(b.args) > MAXTERMS:
        raise Unsupported("polynomial blow-up")
    d = {}
    rest = ZERO
    for m1, c1 in a.args:
        for m2, c2 in b.args:
            m, extra = _mmul(m1, m2)
            if extra:
                t = _poly_from_dict({m: c1 * c2})
                for p, e in extra:
                    for _ in range(e):
                        t = mul(t, p)
                rest = add(rest, t)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _poly_from_dict(d)
    if rest.args:
        r = add(r, rest)
    _mul_cache[k] = r
    return r


def prod(ps):
    return reduce(mul, ps, ONE)


# ----------------------------------------------------------------------------- facts
class Facts:
    """Background facts that hold for the whole path: variable ranges and declared function properties."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.lo = {}  # var/uf-name -> lower bound (poly or function args->poly)
        self.hi = {}  # var/uf-name -> inclusive upper bound
        self.pos = set()  # names known > 0
        self.nonneg = set()
        self.perm = {}  # name -> (inverse name, range fn)
        self.n = 0
        self.path = []  # path condition (bool terms)
        self.pathsub = {}
        self.prove_hook = None


facts = Facts()


def var(name, sort="I"):
    t = _mk("var", (name, sort), EMPTY, 0)
    if not t.fv:
        t.fv = frozenset([t])
    return t


def fresh_name(prefix):
    facts.n += 1
    return f"{prefix}!{facts.n}"


def fresh_index(n, prefix="i"):
    """A fresh integer variable v with 0 <= v < n."""
    v = var(fresh_name(prefix), "I")
    facts.lo[v] = ZERO
    facts.hi[v] = sub(n, ONE)
    return v


def dim_var(name, lo=1):
    v = var(name, "I")
    facts.lo[v] = const(lo)
    return atom(v)


def atom_sort(a):
    if a.op == "var":
        return a.args[1]
    if a.op == "bv":
        return "I"
    if a.op == "uf":
        return a.args[1]
    if a.op in ("I", "div", "mod", "floor", "argmax"):
        return "I"
    if a.op == "sum" or a.op == "max":
        return "I" if is_int(a.args[1]) else "R"
    return "R"


def is_int(p):
    for m, c in p.args:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or e != int(e) or atom_sort(a) != "I":
                return False
    return True


def atom_bounds(a):
    """(lo, hi) inclusive polynomials or None."""
    if a.op == "var":
        return facts.lo.get(a), facts.hi.get(a)
    if a.op == "uf":
        name = a.args[0]
        lo = facts.lo.get(name)
        hi = facts.hi.get(name)
        if callable(lo):
            lo = lo(*a.args[2])
        if callable(hi):
            hi = hi(*a.args[2])
        return lo, hi
    if a.op == "I":
        return ZERO, ONE
    if a.op == "mod":
        if nonneg(sub(a.args[1], ONE)):
            return ZERO, sub(a.args[1], ONE)
    if a.op == "argmax":
        return ZERO, sub(a.args[0], ONE)
    if a.op == "sum":
        if nonneg_struct(a.args[1]):
            m = a.args[1].args
            if len(m) == 1 and m[0][1] == 1 and m[0][0] and all(x.op == "I" for x, _ in m[0][0]) and nonneg(a.args[0]):
                return ZERO, a.args[0]  # a count
            return ZERO, None
    if a.op == "exp":
        return ZERO, None
    if a.op == "div":
        # floor(p/d) with d>=1
        return None, None
    return None, None


def atom_pos(a):
    if a.op == "exp":
        return True
    if a.op in ("var", "uf"):
        key = a if a.op == "var" else a.args[0]
        if key in facts.pos:
            return True
        lo, _ = atom_bounds(a)
        return lo is not None and is_const(lo) and cval(lo) > 0
    if a.op == "sum":
        # nonempty ranges only
        return nonneg(sub(a.args[0], ONE)) and pos_struct(a.args[1])
    if a.op == "pp":
        return pos_struct(a.args[0])
    return False


def pos_struct(p):
    """every monomial is nonnegative and one is positive"""
    strict = False
    for m, c in p.args:
        sg = 1 if c > 0 else -1
        st = True
        for a, e in m:
            if atom_pos(a):
                continue
            if atom_nonneg(a):
                st = False
                continue
            if a.op == "log" and e == int(e):
                lo, hi = interval(a.args[0])
                if hi is not None and hi < 1 and (lo is None or lo >= 0):
                    sg = -sg if int(e) % 2 else sg
                    continue
                if lo is not None and lo > 1:
                    continue
            return False
        if sg < 0:
            return False
        strict = strict or st
    return strict


def interval(p):
    """(lo, hi) rational bounds of a polynomial that is linear in atoms with constant bounds"""
    lo = hi = Fraction(0)
    for m, c in p.args:
        if not m:
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None, None
        a, b = atom_bounds(m[0][0])
        a = cval(a) if a is not None and is_const(a) else None
        b = cval(b) if b is not None and is_const(b) else None
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi


def atom_nonneg(a):
    if atom_pos(a):
        return True
    if a.op == "I":
        return True
    if a.op in ("var", "uf"):
        key = a if a.op == "var" else a.args[0]
        if key in facts.nonneg:
            return True
        lo, _ = atom_bounds(a)
        if lo is not None:
            return lo is ZERO or (is_const(lo) and cval(lo) >= 0) or nonneg_struct(lo)
        return False
    if a.op == "bv":
        return True
    if a.op == "sum":
        return nonneg_struct(a.args[1])
    if a.op == "pp":
        return nonneg_struct(a.args[0])
    if a.op in ("mod", "argmax"):
        return True
    if a.op == "div":
        return nonneg(a.args[0]) and nonneg(a.args[1])
    return False


def nonneg_struct(p):
    return all(c >= 0 and all(atom_nonneg(a) or (e == int(e) and int(e) % 2 == 0) for a, e in m) for m, c in p.args)


_nn_cache = {}


def nonneg(p, depth=8):
    """Cheap sound test for p >= 0: substitutes extreme values for bounded atoms, then checks coefficients."""
    if not p.args:
        return True
    if is_const(p):
        return cval(p) >= 0
    key = (p.id, len(facts.path))
    r = _nn_cache.get(key)
    if r is not None:
        return r
    _nn_cache[key] = False
    r = _nonneg(p, depth)
    _nn_cache[key] = r
    return r


def _occurs_inside(v, a):
    return v in a.fv and a is not v


def _nonneg(p, depth):
    if nonneg_struct(p):
        return True
    if depth == 0:
        return False
    # candidates: atoms with bounds, occurring linearly
    atoms = {}
    for m, c in p.args:
        for a, e in m:
            atoms.setdefault(a, []).append((m, c, e))
    for a in sorted(atoms, key=lambda t: -t.id):
        lo, hi = atom_bounds(a)
        if lo is None and hi is None:
            continue
        if any(e != 1 for _, _, e in atoms[a]):
            continue
        if a.op == "var" and any(_occurs_inside(a, b) for b in atoms):
            continue
        coef = _poly_from_dict({tuple(x for x in m if x[0] is not a): c for m, c, _ in atoms[a]})
        rest = _poly_from_dict({m: c for m, c in p.args if all(x[0] is not a for x in m)})
        if nonneg(coef, depth - 1):
            if lo is not None and lo.args != () and nonneg(add(rest, mul(coef, lo)), depth - 1):
                return True
            if lo is not None and not lo.args and nonneg(rest, depth - 1):
                return True
        elif nonneg(neg(coef), depth - 1):
            if hi is not None and nonneg(add(rest, mul(coef, hi)), depth - 1):
                return True
    # dims with lower bound lo: substitute d = d' + lo (d' >= 0) for products
    q = p
    changed = False
    for a in atoms:
        if a.op == "var":
            lo, hi = atom_bounds(a)
            if lo is not None and lo.args and is_const(lo) and not any(_occurs_inside(a, b) for b in atoms):
                d = var(a.args[0] + "'", "I")
                if d not in facts.lo:
                    facts.lo[d] = ZERO
                try:
                    q = subst(q, {a: add(atom(d), lo)})
                except Unsupported:
                    continue
                changed = True
    if changed and q is not p:
        return nonneg_struct(q) or _nonneg(q, depth - 1)
    return False


# ----------------------------------------------------------------------------- booleans
def _mkb(op, args):
    ts = []
    for a in args:
        if isinstance(a, T):
            ts.append(a)
        elif isinstance(a, tuple):
            ts.extend(x for x in a if isinstance(x, T))
    return _mk(op, args, _fv(ts), _h(ts))


TRUE = _mkb("true", ())
FALSE = _mkb("false", ())


def boolc(b):
    return TRUE if b else FALSE


def _content(p):
    """positive rational content of p"""
    num, den = 0, 1
    for _, c in p.args:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den) if num else Fraction(1)


def _common_denominator(p):
    """one form for sums of fractions: the numerator is reduced with the common denominator"""
    if len(p.args) < 2 or not any(a.op == "pp" and e < 0 for m, _ in p.args for a, e in m):
        return p
    c, mono, prim = factor(p)
    if c == 0:
        return ZERO
    return mul(prod([const(c)] + [atom_pow(a, e) for a, e in mono.items()]), prim)


def le0(p):
    """p <= 0"""
    if is_const(p):
        return boolc(cval(p) <= 0)
    ind = first_ind(p)
    if ind is not None:
        return bite(ind.args[0], le0(set_ind(p, ind, 1)), le0(set_ind(p, ind, 0)))
    p = _common_denominator(p)
    if is_const(p):
        return boolc(cval(p) <= 0)
    c = _content(p)
    if c != 1:
        p = scale(p, 1 / c)
    if nonneg(neg(p)):
        return TRUE
    if is_int(p):
        p = _tighten(p)
        if nonneg(sub(p, ONE)):
            return FALSE
    elif _pos_struct(p):
        return FALSE
    return _mkb("le", (p,))


def _tighten(p):
    """integers: g*q + c <= 0  <=>  q + ceil(c/g) <= 0"""
    k = [c for m, c in p.args if m]
    c0 = sum((c for m, c in p.args if not m), Fraction(0))
    if not k or c0 == 0 or any(x.denominator != 1 for x in k) or c0.denominator != 1:
        return p
    g = gcd(*[int(abs(x)) for x in k])
    if g == 1:
        return p
    q = scale(sub(p, const(c0)), Fraction(1, g))
    return add(q, const(-((-c0) // g)))


def _pos_struct(p):
    if not p.args:
        return False
    return nonneg_struct(p) and any(c > 0 and all(atom_pos(a) for a, _ in m) for m, c in p.args)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    d = sub(a, b)
    if is_int(d):
        return le0(add(d, ONE))
    return bnot(le0(neg(d)))


def eq(a, b):
    d = sub(a, b)
    return eq0(d)


def eq0(p):
    if is_const(p):
        return boolc(cval(p) == 0)
    if len(p.args) == 1 and len(p.args[0][0]) == 1 and p.args[0][0][0][0].op == "sum":
        n, b, k = p.args[0][0][0][0].args
        if len(b.args) == 1 and all(a.op == "I" for a, _ in b.args[0][0]):
            # a count is 0 when nothing is counted
            v, b = open_binder(p.args[0][0][0][0])
            if len(b.args) == 1 and all(a.op == "I" for a, _ in b.args[0][0]):
                return bnot(any_close(n, v, band(*[a.args[0] for a, _ in b.args[0][0]])))
    ind = first_ind(p)
    if ind is not None:
        return bite(ind.args[0], eq0(set_ind(p, ind, 1)), eq0(set_ind(p, ind, 0)))
    if len(p.args) == 2 and p.args[0][1] == -p.args[1][1]:
        ls = [m[0][0] for m, _ in p.args if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log"]
        if len(ls) == 2 and any(x is _LOG0 for x in ls):
            return eq0(add(ls[0].args[0], ls[1].args[0]))  # log x = log 0
    p = _common_denominator(p)
    if is_const(p):
        return boolc(cval(p) == 0)
    c = _content(p)
    # canonical sign: leading coefficient positive
    if p.args[-1][1] < 0:
        c = -c
    if c != 1:
        p = scale(p, 1 / c)
    if is_int(p):
        if nonneg(sub(p, ONE)) or nonneg(sub(neg(p), ONE)):
            return FALSE
    elif _pos_struct(p) or _pos_struct(neg(p)):
        return FALSE
    return _mkb("eq", (p,))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "and":
        return bor(*[bnot(x) for x in b.args])
    if b.op == "or":
        return band(*[bnot(x) for x in b.args])
    return _mkb("not", (b,))


def band(*bs):
    out = {}
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in b.args if b.op == "and" else (b,):
            out[x.id] = x
    for x in out.values():
        n = x.args[0] if x.op == "not" else None
        if n is not None and n.id in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mkb("and", tuple(out[k] for k in sorted(out)))


def bor(*bs):
    out = {}
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in b.args if b.op == "or" else (b,):
            out[x.id] = x
    for x in out.values():
        n = x.args[0] if x.op == "not" else None
        if n is not None and n.id in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mkb("or", tuple(out[k] for k in sorted(out)))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def implies(a, b):
    return bor(bnot(a), b)


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def biff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


_ind_cache = {}


def ind(b):
    """0/1 polynomial of a Boolean."""
    r = _ind_cache.get(b.id)
    if r is None:
        r = _ind(b)
        _ind_cache[b.id] = r
    return r


def _ind(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == "not":
        return sub(ONE, ind(b.args[0]))
    if b.op == "and":
        return prod([ind(x) for x in b.args])
    if b.op == "or":
        return sub(ONE, prod([sub(ONE, ind(x)) for x in b.args]))
    a = _mk("I", (b,), b.fv, b.h)
    return atom(a)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return add(b, mul(ind(c), sub(a, b)))


def nonzero(p):
    """Boolean of a 0/1 (or general) numeric."""
    return bnot(eq0(p))


def first_ind(p):
    for m, _ in p.args:
        for a, _ in m:
            if a.op == "I":
                return a
    return None


def set_ind(p, a, v):
    d = {}
    for m, c in p.args:
        if any(x is a for x, _ in m):
            if v == 0:
                continue
            m = tuple(xe for xe in m if xe[0] is not a)
        d[m] = d.get(m, 0) + c
    return _poly_from_dict(d)


_lift_depth = [0]


def lift(fn, args):
    """Apply fn (polys -> poly) after moving top-level indicators out of the arguments."""
    for k, p in enumerate(args):
        a = first_ind(p)
        if a is not None:
            _lift_depth[0] += 1
            try:
                if _lift_depth[0] > 20:
                    raise Unsupported("too many conditions in one term")
                c = atom(a)
                A1 = [set_ind(q, a, 1) for q in args]
                A0 = [set_ind(q, a, 0) for q in args]
                r1 = lift(fn, A1)
                r0 = lift(fn, A0)
            finally:
                _lift_depth[0] -= 1
            if r1 is r0:
                return r1
            return add(r0, mul(c, sub(r1, r0)))
    return fn(*args)


# ----------------------------------------------------------------------------- powers / exp / log
def factor(p):
    """p = coeff * prod(atom^e) * prim where prim has no common monomial; prim is ONE for single monomials."""
    if len(p.args) == 1:
        m, c = p.args[0]
        return c, dict(m), ONE
    common = None
    for m, _ in p.args:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0))
            for a in d:
                if a not in common:
                    common[a] = min(0, d[a])
    common = {a: e for a, e in common.items() if e != 0 and a.op != "I"}
    c = _content(p)
    if p.args[-1][1] < 0 and all(k < 0 for _, k in p.args):
        c = -c
    d = {}
    for m, k in p.args:
        mm = dict(m)
        for a, e in common.items():
            mm[a] = mm.get(a, 0) - e
        mm = tuple(sorted(((a, int(e) if e == int(e) else e) for a, e in mm.items() if e != 0), key=lambda x: x[0].id))
        d[mm] = d.get(mm, 0) + k / c
    prim = _poly_from_dict(d)
    if any(a.op == "pp" and e == int(e) and e > 0 for m, _ in prim.args for a, e in m):
        ex = ZERO
        for m, k in prim.args:
            term = const(k)
            for a, e in m:
                term = mul(term, atom_pow(a, e))
            ex = add(ex, term)
        if not ex.args:
            return Fraction(0), {}, ONE
        c2, m2, prim = factor(ex)
        for a, e in m2.items():
            common[a] = common.get(a, 0) + e
        common = {a: e for a, e in common.items() if e != 0}
        c = c * c2
    return c, common, prim


def power(p, e):
    e = Fraction(e)
    if e.denominator == 1:
        e = int(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.args:
        if e > 0:
            return ZERO
        raise Unsupported("division by zero")
    if isinstance(e, int) and e > 0:
        if e > 6:
            raise Unsupported("large power")
        r = p
        for _ in range(e - 1):
            r = mul(r, p)
        return r
    return lift(lambda q: _power1(q, e), [p])


def _power1(p, e):
    if not p.args:
        if e > 0:
            return ZERO
        # x**-k at a zero divisor: unspecified value; keep opaque
        return atom(_mk("uf", ("div0", "R", (const(e),)), EMPTY, 0))
    c, mono, prim = factor(p)
    out = ONE
    if isinstance(e, int):
        out = const(Fraction(c) ** e)
    else:
        if c < 0:
            raise Unsupported("fractional power of a negative")
        k = Fraction(c)
        r = _exact_root(k, e)
        out = const(r) if r is not None else atom(_pp(const(k)), e)
    unk = ONE
    for a, k in mono.items():
        if isinstance(e, int) or atom_nonneg(a):
            out = mul(out, atom_pow(a, k * e))
        else:
            unk = mul(unk, atom_pow(a, k))
    if prim is not ONE:
        unk = mul(unk, prim)
    if unk is not ONE:
        out = mul(out, atom(_pp(unk), e))
    return out


def _exact_root(k, e):
    try:
        from math import isqrt

        if e.denominator == 2:
            n, d = isqrt(k.numerator), isqrt(k.denominator)
            if n * n == k.numerator and d * d == k.denominator:
                return Fraction(n, d) ** e.numerator
    except Exception:
        pass
    return None


def atom_pow(a, e):
    if a.op == "I":
        return atom(a)
    if a.op == "pp" and e == int(e) and e > 0:
        return power(a.args[0], int(e))
    return _poly_from_dict({((a, int(e) if e == int(e) else e),): Fraction(1)})


def _pp(p):
    return _mk("pp", (p,), p.fv, p.h)


def div_real(a, b):
    return mul(a, power(b, -1))


_exp_cache = {}


def exp(p):
    r = _exp_cache.get(p.id)
    if r is None:
        r = lift(_exp1, [p])
        _exp_cache[p.id] = r
    return r


def _exp_atom(m):
    ats = [a for a, _ in m]
    q = _poly_from_dict({m: Fraction(1)})
    return _mk("exp", (q,), _fv(ats), _h(ats))


def _exp1(p):
    p = merge_adjacent(p)
    out = ONE
    for m, c in p.args:
        if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1 and c.denominator == 1:
            out = mul(out, power(m[0][0].args[0], int(c)))
        elif len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1 and c.denominator == 2:
            out = mul(out, power(m[0][0].args[0], c))
        else:
            e = int(c) if c.denominator == 1 else c
            out = mul(out, _poly_from_dict({((_exp_atom(m), e),): Fraction(1)}))
    return out


_log_cache = {}


def log(p):
    r = _log_cache.get(p.id)
    if r is None:
        r = lift(_log1, [p])
        _log_cache[p.id] = r
    return r


def _log_const(c):
    if c == 1:
        return ZERO
    if c < 0:
        raise Unsupported("log of a negative constant")
    # prime factorisation, so that log 4 = 2 log 2
    out = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        k = 2
        while n > 1 and k * k <= n and k < 2000:
            while n % k == 0:
                out = add(out, scale(_log_atom(const(k)), s))
                n //= k
            k += 1
        if n > 1:
            out = add(out, scale(_log_atom(const(n)), s))
    return out


def _log_atom(p):
    return atom(_mk("log", (p,), p.fv, p.h))


_LOG0 = _mk("log", (ZERO,), ZERO.fv, ZERO.h)


def _log1(p):
    if not p.args:
        return _log_atom(ZERO)
    c, mono, prim = factor(p)
    out = ZERO
    unk = ONE
    if prim is not ONE and (c.numerator > 10**6 or c.denominator > 10**6):
        unk = const(c)
    elif c > 0:
        out = _log_const(c)
    else:
        unk = const(c)
    for a, e in mono.items():
        if a.op == "exp":
            out = add(out, scale(a.args[0], e))
        elif atom_nonneg(a):
            base = a.args[0] if a.op == "pp" else atom(a)
            out = add(out, scale(_log_atom(base), e))
        else:
            unk = mul(unk, atom_pow(a, e))
    if prim is not ONE:
        unk = mul(unk, prim)
    if unk is not ONE:
        out = add(out, _log_atom(unk))
    return out


def sqrt(p):
    return power(p, Fraction(1, 2))


def func(name, *ps):
    """Other real functions, uninterpreted."""
    return lift(lambda *qs: atom(_mk("uf", (name, "R", qs), _fv(qs), _h(qs))), list(ps))


# ----------------------------------------------------------------------------- integer division
def _divides(m_d, c_d, m, c):
    """monomial quotient m/m_d if exact (integer coefficient and nonneg exponents)"""
    d = dict(m)
    for a, e in m_d:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
    q = c / c_d
    if q.denominator != 1:
        return None
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id)), q


def _split_div(p, d):
    if len(d.args) != 1:
        if d is p:
            return ONE, ZERO
        # polynomial multiple?  try leading-term division
        q, r = poly_divmod(p, d)
        if q is not None and not r.args:
            return q, ZERO
        return ZERO, p
    md, cd = d.args[0]
    q, r = {}, {}
    for m, c in p.args:
        x = _divides(md, cd, m, c)
        if x is not None:
            q[x[0]] = q.get(x[0], 0) + x[1]
        elif not md and cd.denominator == 1:
            # constant divisor: split coefficient
            k = c // cd
            if c.denominator == 1:
                rem = c - k * cd
                q[m] = q.get(m, 0) + k
                r[m] = r.get(m, 0) + rem
            else:
                r[m] = c
        else:
            r[m] = r.get(m, 0) + c
    return _poly_from_dict(q), _poly_from_dict(r)


def poly_divmod(p, d):
    """Exact-ish multivariate division by leading term; returns (q, r)."""
    q, r = ZERO, p
    lead_m, lead_c = d.args[-1]
    for _ in range(40):
        if not r.args:
            break
        done = True
        for m, c in reversed(r.args):
            x = _divides(lead_m, lead_c, m, c)
            if x is not None:
                t = _poly_from_dict({x[0]: x[1]})
                q = add(q, t)
                r = sub(r, mul(t, d))
                done = False
                break
        if done:
            break
    return q, r


def prove(b):
    """Ask the attached solver (if any) whether b holds under the path condition."""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if facts.prove_hook is None:
        return False
    return facts.prove_hook(b)


def idiv(p, d):
    return lift(_idiv1, [p, d])


def _in_range(r, d):
    if nonneg(r) and nonneg(sub(sub(d, ONE), r)):
        return True
    return False


def _idiv1(p, d):
    if is_const(p) and is_const(d):
        if cval(d) == 0:
            raise ZeroDivisionError("integer division by zero")
        return const(cval(p) // cval(d))
    if d is ONE:
        return p
    q, r = _split_div(p, d)
    if not r.args:
        return q
    if _in_range(r, d):
        return q
    a = _mk("div", (r, d), _fv((r, d)), _h((r, d)))
    # parity style: r//d for r in [-d,0) is -1
    if nonneg(sub(neg(r), ONE)) and nonneg(add(d, r)):
        return sub(q, ONE)
    return add(q, atom(a))


def imod(p, d):
    return lift(_imod1, [p, d])


def _imod1(p, d):
    if is_const(p) and is_const(d):
        if cval(d) == 0:
            raise ZeroDivisionError("integer modulo by zero")
        return const(cval(p) % cval(d))
    if d is ONE:
        return ZERO
    q, r = _split_div(p, d)
    if not r.args or _in_range(r, d):
        return r
    if nonneg(sub(neg(r), ONE)) and nonneg(add(d, r)):
        return add(r, d)
    # express mod through div: p mod d = p - d*(p div d)  (one canonical atom)
    a = _mk("div", (r, d), _fv((r, d)), _h((r, d)))
    return sub(r, mul(d, atom(a)))


def floor(p):
    if is_int(p):
        return p
    return lift(_floor1, [p])


def _floor1(p):
    if is_int(p):
        return p
    if is_const(p):
        v = cval(p)
        return const(v.numerator // v.denominator)
    # p = n / d with n, d integer polynomials, d a monomial
    den = {}
    cden = 1
    for m, c in p.args:
        cden = cden * c.denominator // gcd(cden, c.denominator)
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
    if all(e == int(e) and atom_sort(a) == "I" for a, e in den.items()) or not den:
        d = _poly_from_dict({tuple(sorted(((a, int(e)) for a, e in den.items()), key=lambda x: x[0].id)): Fraction(cden)})
        n = mul(p, d)
        if is_int(n) and is_int(d) and nonneg(sub(d, ONE)):
            return idiv(n, d)
    a = _mk("floor", (p,), p.fv, p.h)
    return atom(a)


def ceil(p):
    return neg(floor(neg(p)))


# ----------------------------------------------------------------------------- uninterpreted functions
def uf(name, sort, args):
    if sort == "B":
        return lift_bool(name, list(args))
    return lift(lambda *qs: _uf1(name, sort, qs), list(args))


def _uf1(name, sort, qs):
    pr = facts.perm.get(name)
    if pr is not None:
        # name is a permutation in its last argument: name(.., inv(.., x)) = x
        inv = pr
        x = qs[-1]
        if len(x.args) == 1 and x.args[0][1] == 1 and len(x.args[0][0]) == 1:
            a, e = x.args[0][0][0]
            if e == 1 and a.op == "uf" and a.args[0] == inv and a.args[2][:-1] == qs[:-1]:
                return a.args[2][-1]
    return atom(_mk("uf", (name, sort, qs), _fv(qs), _h(qs)))


def lift_bool(name, args):
    for p in args:
        a = first_ind(p)
        if a is not None:
            return bite(
                a.args[0],
                lift_bool(name, [set_ind(q, a, 1) for q in args]),
                lift_bool(name, [set_ind(q, a, 0) for q in args]),
            )
    return _mkb("ufb", (name, tuple(args)))


# ----------------------------------------------------------------------------- binders
def bv(k):
    t = _mk("bv", (k,), EMPTY, 0)
    if not t.fv:
        t.fv = frozenset([t])
    return t


EXPAND = 16


def close(v, body):
    """Abstract variable v in body -> (level, body with bv)."""
    k = body.h + 1
    return k, subst(body, {v: atom(bv(k))}, raw=True)


def _binder(op, n, v, body):
    k, b = close(v, body)
    b2 = bv(k)
    fvs = n.fv | (b.fv - {b2})
    return _mk(op, (n, b, k), fvs, max(k, n.h))


def open_binder(t, v=None):
    """Instantiate a binder term with a fresh index variable; returns (v, body)."""
    n, b, k = t.args
    if v is None:
        v = fresh_index(n, "k")
    return v, subst(b, {bv(k): atom(v)})


def summ(n, f):
    if is_const(n) and cval(n) <= EXPAND:
        return reduce(add, [f(const(k)) for k in range(max(0, int(cval(n))))], ZERO)
    v = fresh_index(n, "s")
    body = f(atom(v))
    return sum_close(n, v, body)


def _linear_in(p, v):
    """p = c*v + rest with c = +-1 and v not in rest -> (c, rest) else None"""
    c = None
    rest = {}
    for m, k in p.args:
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            c = k
        else:
            if any(v in a.fv for a, _ in m):
                return None
            rest[m] = k
    if c is None or abs(c) != 1:
        return None
    return c, _poly_from_dict(rest)


def _solve(p, v):
    """p = 0 has at most one solution for v: (t, guard) with p = 0 <=> guard and v = t (v ranging over indices in range)"""
    lin = _linear_in(p, v)
    if lin is not None:
        return scale(lin[1], -lin[0]), TRUE
    # +-perm(.., L(v)) + rest = 0  <=>  L(v) = perm^-1(.., -+rest), for -+rest in range
    hit = None
    for m, k in p.args:
        if any(v in a.fv for a, _ in m):
            if hit is not None or len(m) != 1 or m[0][1] != 1 or abs(k) != 1:
                return None
            hit = (m[0][0], k)
    if hit is None:
        return None
    a, k = hit
    if a.op != "uf" or a.args[0] not in facts.perm or any(v in q.fv for q in a.args[2][:-1]):
        return None
    hi = facts.hi.get(a.args[0])
    hi = hi(*a.args[2]) if callable(hi) else hi
    if hi is None or v in hi.fv:
        return None
    q = scale(sub(p, scale(atom(a), k)), -k)
    r = _solve(sub(a.args[2][-1], uf(facts.perm[a.args[0]], "I", list(a.args[2][:-1]) + [q])), v)
    if r is None:
        return None
    return r[0], band(r[1], le(ZERO, q), le(q, hi))


def sum_close(n, v, body):
    if not body.args:
        return ZERO
    if is_const(n) and cval(n) <= EXPAND:
        return reduce(add, [subst(body, {v: const(k)}) for k in range(max(0, int(cval(n))))], ZERO)
    if v not in body.fv:
        return mul(body, n)
    # 1. equality indicators: delta elimination, split on whole body
    for m, _ in body.args:
        for a, _ in m:
            if a.op == "I" and v in a.fv and a.args[0].op == "eq":
                sol = _solve(a.args[0].args[0], v)
                if sol is not None:
                    t, guard = sol
                    b1, b0 = set_ind(body, a, 1), set_ind(body, a, 0)
                    # sum b1*[v=t] + b0*(1-[v=t]) = sum b0 + [0<=t<n](b1-b0)(t)
                    d = sub(b1, b0)
                    hit = mul(ind(band(guard, le(ZERO, t), lt(t, n))), subst(d, {v: t}))
                    return add(hit, sum_close(n, v, b0))
    # 2. interval indicators: split the range
    for m, _ in body.args:
        for a, _ in m:
            if a.op == "I" and v in a.fv and a.args[0].op == "le":
                lin = _linear_in(a.args[0].args[0], v)
                if lin is not None:
                    c, rest = lin
                    # c*v + rest <= 0
                    if c == 1:
                        cut = add(neg(rest), ONE)  # v < cut  holds
                        first, second = 1, 0
                    else:
                        cut = rest  # v >= cut  holds
                        first, second = 0, 1
                    if nonneg(cut) and nonneg(sub(n, cut)) or (
                        prove(le(ZERO, cut)) and prove(le(cut, n))
                    ):
                        b1 = set_ind(body, a, first)
                        b2 = set_ind(body, a, second)
                        w1 = fresh_index(cut, "s")
                        s1 = sum_close(cut, w1, subst(b1, {v: atom(w1)}))
                        n2 = sub(n, cut)
                        w2 = fresh_index(n2, "s")
                        s2 = sum_close(n2, w2, subst(b2, {v: add(atom(w2), cut)}))
                        return add(s1, s2)
    # 2b. an interval of perm(v): sum over w = perm(v) instead
    for m, _ in body.args:
        for a, _ in m:
            if a.op == "I" and v in a.fv and a.args[0].op == "le":
                pa = _perm_interval(a.args[0].args[0], v)
                if pa is not None and pa.args[0].endswith("^-1"):  # one direction only: terminates
                    size = facts.hi[pa.args[0]]
                    size = add(size(*pa.args[2]) if callable(size) else size, ONE)
                    if v in size.fv or not nonneg(sub(size, n)):
                        continue
                    w = fresh_index(size, "s")
                    back = uf(facts.perm[pa.args[0]], "I", list(pa.args[2][:-1]) + [atom(w)])
                    b = subst(body, {v: back})
                    if sub(size, n).args:
                        b = mul(b, ind(lt(back, n)))
                    return sum_close(size, w, b)
    # 3. div/mod structure: v = i*b + j
    dv = _find_div(body, v)
    if dv is not None:
        q, r = _split_div(n, dv)
        if not r.args and q is not n:
            i = fresh_index(q, "s")
            j = fresh_index(dv, "s")
            b = subst(body, {v: add(mul(atom(i), dv), atom(j))})
            return sum_close(q, i, sum_close(dv, j, b))
    # 4. distribute over monomials, pull independent factors out
    total = ZERO
    for m, c in body.args:
        dep, indep = [], []
        for a, e in m:
            (dep if v in a.fv else indep).append((a, e))
        out = _poly_from_dict({tuple(indep): c})
        if not dep:
            total = add(total, mul(out, n))
            continue
        dm = _poly_from_dict({tuple(dep): Fraction(1)})
        s = _sum_atom(n, v, dm)
        total = add(total, mul(out, s))
    return total


def _halve(body, w, u):
    """h(u) with h(2w) = body when w occurs only in even multiples, else None"""
    ok = [True]
    seen = set()

    def walk(x):
        if x in seen or w not in x.fv:
            return
        seen.add(x)
        if x is w:
            ok[0] = False  # outside of a linear polynomial
            return
        if x.op == "poly":
            for m, c in x.args:
                if len(m) == 1 and m[0][0] is w:
                    if m[0][1] != 1 or c.denominator != 1 or c % 2 != 0:
                        ok[0] = False
                        return
                else:
                    for a, _ in m:
                        walk(a)
            return
        for y in children(x):
            walk(y)

    walk(body)
    if not ok[0]:
        return None
    return subst(body, {w: scale(atom(u), Fraction(1, 2))})


def merge_adjacent(p):
    """sum[b<a] g(b) + sum[b<k] g(a+b)  ->  sum[b<a+k] g(b)"""
    for _ in range(16):
        groups = {}
        for m, c in p.args:
            ss = [a for a, e in m if a.op == "sum" and e == 1]
            if len(ss) == 1:
                rest = tuple(x for x in m if x[0] is not ss[0])
                groups.setdefault((rest, c), []).append(ss[0])
        done = False
        coef = None
        for (rest, c), atoms in groups.items():
            if len(atoms) > 24:
                continue
            if len(p.args) > 1:
                # sum[b<k] g(b) + g(k)
                coef = coef or dict(p.args)
                for a in atoms:
                    w = fresh_index(a.args[0], "s")
                    _, body = open_binder(a, w)
                    last = mul(_poly_from_dict({rest: c}), subst(body, {w: a.args[0]}))
                    if len(last.args) == 1 and coef.get(last.args[0][0]) == last.args[0][1]:
                        n = add(a.args[0], ONE)
                        w2 = fresh_index(n, "s")
                        p = add(sub(p, add(last, mul(_poly_from_dict({rest: c}), atom(a)))), mul(_poly_from_dict({rest: c}), sum_close(n, w2, subst(body, {w: atom(w2)}))))
                        done = True
                        break
            if done:
                break
            if len(atoms) < 2:
                continue
            for a in atoms:
                n1 = a.args[0]
                w = fresh_index(n1, "s")
                _, body = open_binder(a, w)
                shifted = subst(body, {w: add(atom(w), n1)})
                for a2 in atoms:
                    if a2 is a or a2.args[1] is not close(w, shifted)[1]:
                        continue
                    n = add(n1, a2.args[0])
                    w2 = fresh_index(n, "s")
                    merged = sum_close(n, w2, subst(body, {w: atom(w2)}))
                    k = _poly_from_dict({rest: c})
                    p = add(sub(p, mul(k, add(atom(a), atom(a2)))), mul(k, merged))
                    done = True
                    break
                if done:
                    break
                # even and odd positions:  sum[b<k] g(2b) + sum[b<k'] g(2b+1) -> sum[b<k+k'] g(b),  k' in {k-1, k}
                u = fresh_index(n1, "s")
                half = _halve(body, w, u)
                if half is None:
                    continue
                odd = close(w, subst(half, {u: add(scale(atom(w), 2), ONE)}))[1]
                for a2 in atoms:
                    if a2 is a or a2.args[1] is not odd:
                        continue
                    diff = sub(n1, a2.args[0])
                    if not (is_const(diff) and cval(diff) in (0, 1)):
                        continue
                    n = add(n1, a2.args[0])
                    w2 = fresh_index(n, "s")
                    merged = sum_close(n, w2, subst(half, {u: atom(w2)}))
                    k = _poly_from_dict({rest: c})
                    p = add(sub(p, mul(k, add(atom(a), atom(a2)))), mul(k, merged))
                    done = True
                    break
                if done:
                    break
            if not done:
                # the same inside an enclosing sum
                for x in range(len(atoms)):
                    for y in range(x):
                        a, a2 = atoms[x], atoms[y]
                        if a.args[0] is not a2.args[0]:
                            continue
                        w = fresh_index(a.args[0], "s")
                        both = add(open_binder(a, w)[1], open_binder(a2, w)[1])
                        mb = merge_adjacent(both)
                        if mb is not both:
                            k = _poly_from_dict({rest: c})
                            p = add(sub(p, mul(k, add(atom(a), atom(a2)))), mul(k, sum_close(a.args[0], w, mb)))
                            done = True
                            break
                    if done:
                        break
            if done:
                break
        if not done:
            return p
    return p


def _perm_interval(p, v):
    """the atom perm(.., v) if p = +-perm(.., v) + rest, rest free of v"""
    hit = None
    for m, k in p.args:
        if any(v in a.fv for a, _ in m):
            if hit is not None or len(m) != 1 or m[0][1] != 1 or abs(k) != 1:
                return None
            hit = m[0][0]
    if hit is None or hit.op != "uf" or hit.args[0] not in facts.perm or facts.hi.get(hit.args[0]) is None:
        return None
    if hit.args[2][-1] is not atom(v) or any(v in q.fv for q in hit.args[2][:-1]):
        return None
    return hit


def _sum_atom(n, v, dm):
    # permutation reindexing: body depends on v only through perm(v)
    r = _perm_reindex(n, v, dm)
    if r is not None:
        return r
    # canonical order of nested sums over independent ranges
    if len(dm.args) == 1:
        m, c = dm.args[0]
        ss = [a for a, e in m if a.op == "sum"]
        if len(ss) == 1:
            a = ss[0]
            n2 = a.args[0]
            if v not in n2.fv and dict(m)[a] == 1 and v in a.fv:
                # the outer index is determined below the inner sum: sum over it first
                w, b = open_binder(a, fresh_index(n2, "s"))
                if any(i.op == "I" and v in i.fv and w in i.fv and i.args[0].op == "eq" and _solve(i.args[0].args[0], v) is not None for m2, _ in b.args for i, _ in m2):
                    rest = _poly_from_dict({tuple(x for x in m if x[0] is not a): c})
                    return sum_close(n2, w, sum_close(n, v, mul(rest, b)))
            if _nest_key(n2) < _nest_key(n) and v not in n2.fv and dict(m)[a] == 1:
                rest = _poly_from_dict({tuple(x for x in m if x[0] is not a): c})
                w, b = open_binder(a, fresh_index(n2, "s"))
                return sum_close(n2, w, _sum_plain(n, v, mul(rest, b)))
    return atom(_binder("sum", n, v, dm))


def _nest_key(n):
    return (sorted(a.id for a in n.fv), n.id)


def _sum_plain(n, v, body):
    """sum over v after the order of the nest has been settled"""
    total = ZERO
    for m, c in body.args:
        dep = tuple(x for x in m if v in x[0].fv)
        out = _poly_from_dict({tuple(x for x in m if v not in x[0].fv): c})
        total = add(total, mul(out, _sum_atom(n, v, _poly_from_dict({dep: Fraction(1)})) if dep else n))
    return total


def _perm_reindex(n, v, dm):
    occ = set()
    only = _collect_perm(dm, v, occ, set())
    if not only:
        occ = {p for p in occ if p.args[0].endswith("^-1")}
    if len(occ) != 1:
        return None
    p = next(iter(occ))
    hi = facts.hi.get(p.args[0])
    hi = hi(*p.args[2]) if callable(hi) else hi
    if hi is None or sub(hi, sub(n, ONE)).args:
        return None
    w = fresh_index(n, "s")
    if not only:
        # body depends on v and on perm^-1(v): sum over w = perm^-1(v) instead
        return sum_close(n, w, subst(dm, {v: uf(facts.perm[p.args[0]], "I", list(p.args[2][:-1]) + [atom(w)])}))
    try:
        body = replace_atom(dm, p, atom(w))
    except Unsupported:
        return None
    if v in body.fv:
        return None
    return sum_close(n, w, body)


def _collect_perm(t, v, occ, seen):
    if v not in t.fv:
        return True
    if t in seen:
        return True
    seen.add(t)
    if t is v or t.op == "bv":
        return False
    if t.op == "uf" and t.args[0] in facts.perm and t.args[2][-1] is atom(v) and all(v not in q.fv for q in t.args[2][:-1]):
        occ.add(t)
        return True
    res = True
    for c in children(t):
        if not _collect_perm(c, v, occ, seen):
            res = False
    return res


def children(t):
    if t.op == "poly":
        return [a for m, _ in t.args for a, _ in m]
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            out.extend(x for x in a if isinstance(x, T))
    return out


def _find_div(t, v, seen=None):
    if seen is None:
        seen = set()
    if v not in t.fv or t in seen:
        return None
    seen.add(t)
    if t.op == "div" and v in t.args[0].fv and v not in t.args[1].fv:
        lin = _linear_in(t.args[0], v)
        if lin is not None and not lin[1].args:
            return t.args[1]
    for c in children(t):
        r = _find_div(c, v, seen)
        if r is not None:
            return r
    return None


def maxx(n, f):
    if is_const(n) and cval(n) <= EXPAND:
        vals = [f(const(k)) for k in range(int(cval(n)))]
        return reduce(lambda a, b: ite(le(b, a), a, b), vals)
    v = fresh_index(n, "m")
    return max_close(n, v, f(atom(v)))


def max_close(n, v, body):
    if v not in body.fv:
        return body
    for m, _ in body.args:
        for a, _ in m:
            if a.op == "I" and v not in a.fv:
                return add(
                    mul(atom(a), max_close(n, v, set_ind(body, a, 1))),
                    mul(sub(ONE, atom(a)), max_close(n, v, set_ind(body, a, 0))),
                )
    dep, indep = {}, {}
    for m, c in body.args:
        # log(0) = -inf stays inside: outside it would cancel against another one
        (dep if any(v in a.fv or a is _LOG0 for a, _ in m) else indep)[m] = c
    d = _poly_from_dict(dep)
    if len(d.args) == 1 and d.args[0][1] in (1, -1) and all(a.op == "I" for a, _ in d.args[0][0]):
        b = band(*[a.args[0] for a, _ in d.args[0][0]])
        return add(_poly_from_dict(indep), ind(any_close(n, v, b)) if d.args[0][1] == 1 else neg(ind(bnot(any_close(n, v, bnot(b))))))
    return add(_poly_from_dict(indep), atom(_binder("max", n, v, d)))


NOISE = ("rand@", "randn@", "gumbel@")


def argmax(n, f):
    if is_const(n) and cval(n) == 1:
        return ZERO
    v = fresh_index(n, "a")
    return argmax_close(n, v, f(atom(v)))


def argmax_close(n, v, body):
    for m, _ in body.args:
        for a, _ in m:
            if a.op == "I" and v not in a.fv:
                return add(
                    mul(atom(a), argmax_close(n, v, set_ind(body, a, 1))),
                    mul(sub(ONE, atom(a)), argmax_close(n, v, set_ind(body, a, 0))),
                )
    body = merge_adjacent(strip_indep(body, v))
    if is_const(n) and cval(n) <= 4 and not any(a.op == "uf" and a.args[0].startswith(NOISE) for m, _ in body.args for a, _ in m):
        vals = [subst(body, {v: const(k)}) for k in range(int(cval(n)))]
        best, bi = vals[0], ZERO
        for k in range(1, len(vals)):
            c_ = lt(best, vals[k])
            bi = ite(c_, const(k), bi)
            best = ite(c_, vals[k], best)
        return bi
    if len(body.args) == 1 and body.args[0][1] > 0 and all(atom_pos(a) for a, _ in body.args[0][0]):
        body = strip_indep(log(body), v)
    if len(body.args) > 1:
        c, mono, prim = factor(body)
        mono = {a: e for a, e in mono.items() if v not in a.fv and atom_pos(a)}
        if mono:
            body = mul(body, prod([atom_pow(a, -e) for a, e in mono.items()]))
    c = _content(body)
    if c != 1 and body.args:
        body = scale(body, 1 / c)
    if v not in body.fv:
        return ZERO
    return atom(_binder("argmax", n, v, body))


def strip_indep(body, v):
    return _poly_from_dict({m: c for m, c in body.args if any(v in a.fv for a, _ in m)})


def anyb(n, f):
    if is_const(n) and cval(n) <= EXPAND:
        return bor(*[f(const(k)) for k in range(int(cval(n)))])
    v = fresh_index(n, "e")
    return any_close(n, v, f(atom(v)))


def any_close(n, v, body):
    if body is FALSE:
        return FALSE
    if v not in body.fv:
        return band(body, lt(ZERO, n))
    if body.op == "or":
        return bor(*[any_close(n, v, b) for b in body.args])
    if body.op == "and":
        ind_ = [b for b in body.args if v not in b.fv]
        dep = [b for b in body.args if v in b.fv]
        if ind_:
            return band(band(*ind_), any_close(n, v, band(*dep)))
        for b in dep:
            if b.op == "eq":
                sol = _solve(b.args[0], v)
                if sol is not None:
                    t, guard = sol
                    rest = band(*[x for x in dep if x is not b])
                    return band(guard, le(ZERO, t), lt(t, n), subst(rest, {v: t}))
    if body.op == "eq":
        sol = _solve(body.args[0], v)
        if sol is not None:
            t, guard = sol
            return band(guard, le(ZERO, t), lt(t, n))
    k, b = close(v, body)
    b2 = bv(k)
    return _mk("any", (n, b, k), n.fv | (b.fv - {b2}), max(k, n.h))


def allb(n, f):
    return bnot(anyb(n, lambda i: bnot(f(i))))


# ----------------------------------------------------------------------------- substitution
def subst(t, mp, raw=False, memo=None):
    """Replace var/bv atoms (and, through replace_atom, arbitrary atoms). Values are polynomials.

    raw=True is used when a free variable is renamed to a bound variable: no simplification that depends on
    range facts may fire in that case, so nodes are rebuilt structurally.
    """
    if memo is None:
        memo = {}
    keys = mp.keys()
    if t.fv.isdisjoint(keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = (_subst_raw if raw else _subst)(t, mp, memo)
    memo[t] = r
    return r


def _sa(a, mp, memo):
    """substituted atom -> polynomial"""
    if a.fv.isdisjoint(mp.keys()):
        return atom(a)
    return subst(a, mp, False, memo)


def _subst(t, mp, memo):
    op = t.op
    S = lambda x: subst(x, mp, False, memo)
    if op == "poly":
        out = ZERO
        for m, c in t.args:
            term = const(c)
            for a, e in m:
                if a.fv.isdisjoint(mp.keys()):
                    term = mul(term, atom_pow(a, e) if e != 1 else atom(a))
                else:
                    pa = S(a)
                    term = mul(term, power(pa, e))
            out = add(out, term)
        return out
    if op in ("var", "bv"):
        return mp[t]
    if op == "I":
        return ind(S(t.args[0]))
    if op == "exp":
        return exp(S(t.args[0]))
    if op == "log":
        return log(S(t.args[0]))
    if op == "pp":
        return S(t.args[0])
    if op == "div":
        return idiv(S(t.args[0]), S(t.args[1]))
    if op == "floor":
        return floor(S(t.args[0]))
    if op == "uf":
        return uf(t.args[0], t.args[1], [S(q) for q in t.args[2]])
    if op == "ufb":
        return uf(t.args[0], "B", [S(q) for q in t.args[1]])
    if op == "le":
        return le0(S(t.args[0]))
    if op == "eq":
        return eq0(S(t.args[0]))
    if op == "not":
        return bnot(S(t.args[0]))
    if op == "and":
        return band(*[S(x) for x in t.args])
    if op == "or":
        return bor(*[S(x) for x in t.args])
    if op in ("sum", "max", "argmax", "any"):
        n, b, k = t.args
        n2 = S(n)
        mp2 = {kk: vv for kk, vv in mp.items() if kk is not bv(k)}
        if is_const(n2) and cval(n2) <= EXPAND and op != "argmax":
            vals = []
            for j in range(max(0, int(cval(n2)))):
                mp3 = dict(mp2)
                mp3[bv(k)] = const(j)
                vals.append(subst(b, mp3))
            if op == "sum":
                return reduce(add, vals, ZERO)
            if op == "any":
                return bor(*vals)
            return reduce(lambda a, b_: ite(le(b_, a), a, b_), vals)
        v = fresh_index(n2, "r")
        mp3 = dict(mp2)
        mp3[bv(k)] = atom(v)
        body = subst(b, mp3)
        return {"sum": sum_close, "max": max_close, "argmax": argmax_close, "any": any_close}[op](n2, v, body)
    raise Unsupported(f"subst {op}")


def _subst_raw(t, mp, memo):
    op = t.op
    S = lambda x: subst(x, mp, True, memo)
    if op == "poly":
        d = {}
        for m, c in t.args:
            mm = {}
            for a, e in m:
                if a.fv.isdisjoint(mp.keys()):
                    b = a
                else:
                    b = S(a)
                    if b.op == "poly":
                        assert len(b.args) == 1 and b.args[0][1] == 1 and len(b.args[0][0]) == 1, "raw substitution"
                        b = b.args[0][0][0][0]
                mm[b] = mm.get(b, 0) + e
            key = tuple(sorted(mm.items(), key=lambda x: x[0].id))
            d[key] = d.get(key, 0) + c
        return _poly_from_dict(d)
    if op in ("var", "bv"):
        p = mp[t]
        return p.args[0][0][0][0]
    if op in ("sum", "max", "argmax", "any"):
        n, b, k = t.args
        n2 = S(n)
        mp2 = {kk: vv for kk, vv in mp.items() if kk is not bv(k)}
        b2 = subst(b, mp2, True)
        # the new bound variable has a level above every inner binder: no capture
        return _mk(op, (n2, b2, k), n2.fv | (b2.fv - {bv(k)}), max(k, n2.h))
    args = tuple(
        S(a) if isinstance(a, T) else (tuple(S(x) if isinstance(x, T) else x for x in a) if isinstance(a, tuple) else a)
        for a in t.args
    )
    if op in ("and", "or"):
        args = tuple(sorted(args, key=lambda x: x.id))
    ts = []
    for a in args:
        if isinstance(a, T):
            ts.append(a)
        elif isinstance(a, tuple):
            ts.extend(x for x in a if isinstance(x, T))
    return _mk(op, args, _fv(ts), _h(ts))


def rewrite(t, hook, memo=None):
    """Rebuild t bottom-up; hook(atom) may return a polynomial to put in its place (None: rebuild it)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    W = lambda x: rewrite(x, hook, memo)
    op = t.op
    if op == "poly":
        r = ZERO
        for m, c in t.args:
            term = const(c)
            for a, e in m:
                p = W(a)
                term = mul(term, power(p, e) if e != 1 else p)
            r = add(r, term)
    else:
        r = hook(t)
        if r is None:
            if op in ("var", "bv"):
                r = atom(t)
            elif op in ("true", "false"):
                r = t
            elif op == "I":
                r = ind(W(t.args[0]))
            elif op in ("exp", "log", "floor"):
                r = {"exp": exp, "log": log, "floor": floor}[op](W(t.args[0]))
            elif op == "pp":
                r = W(t.args[0])
            elif op == "div":
                r = idiv(W(t.args[0]), W(t.args[1]))
            elif op == "uf":
                r = uf(t.args[0], t.args[1], [W(q) for q in t.args[2]])
            elif op == "ufb":
                r = uf(t.args[0], "B", [W(q) for q in t.args[1]])
            elif op == "le":
                r = le0(W(t.args[0]))
            elif op == "eq":
                r = eq0(W(t.args[0]))
            elif op == "not":
                r = bnot(W(t.args[0]))
            elif op in ("and", "or"):
                r = (band if op == "and" else bor)(*[W(x) for x in t.args])
            elif op in ("sum", "max", "argmax", "any"):
                n = W(t.args[0])
                v = fresh_index(n, "r")
                body = rewrite(open_binder(t, v)[1], hook, {})
                r = {"sum": sum_close, "max": max_close, "argmax": argmax_close, "any": any_close}[op](n, v, body)
            else:
                raise Unsupported(f"rewrite {op}")
    memo[t] = r
    return r


def replace_atom(t, a, p, memo=None):
    """Replace every occurrence of atom a (not a variable necessarily) by polynomial p."""
    v = var(fresh_name("ra"), atom_sort(a) if a.op not in ("le", "eq", "any", "ufb") else "B")
    s = _abstract(t, a, v, {})
    return subst(s, {v: p})


def _abstract(t, a, v, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t is a:
        r = v
    elif t.op in ("var", "bv", "true", "false"):
        r = t
    elif t.op == "poly":
        d = {}
        for m, c in t.args:
            mm = {}
            for x, e in m:
                y = _abstract(x, a, v, memo)
                mm[y] = mm.get(y, 0) + e
            key = tuple(sorted(mm.items(), key=lambda z: z[0].id))
            d[key] = d.get(key, 0) + c
        r = _poly_from_dict(d)
    else:
        args = tuple(
            _abstract(x, a, v, memo)
            if isinstance(x, T)
            else (tuple(_abstract(y, a, v, memo) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x)
            for x in t.args
        )
        if args == t.args:
            r = t
        elif t.op in ("sum", "max", "argmax", "any"):
            n, b, k = args
            r = _mk(t.op, args, n.fv | (b.fv - {bv(k)}), max(k, n.h))
        else:
            ts = []
            for x in args:
                if isinstance(x, T):
                    ts.append(x)
                elif isinstance(x, tuple):
                    ts.extend(y for y in x if isinstance(y, T))
            r = _mk(t.op, args, _fv(ts), _h(ts))
    memo[t] = r
    return r


# ----------------------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14:
        return "..."
    S = lambda x: show(x, depth + 1)
    op = t.op
    if op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args:
            fs = [(S(a) + (f"^{e}" if e != 1 else "")) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op == "var":
        return t.args[0]
    if op == "bv":
        return f"b{t.args[0]}"
    if op == "uf":
        return f"{t.args[0]}({', '.join(S(x) for x in t.args[2])})"
    if op == "ufb":
        return f"{t.args[0]}({', '.join(S(x) for x in t.args[1])})"
    if op in ("sum", "max", "argmax", "any"):
        return f"{op}[b{t.args[2]}<{S(t.args[0])}]({S(t.args[1])})"
    if op == "I":
        return f"[{S(t.args[0])}]"
    if op == "le":
        return f"{S(t.args[0])}<=0"
    if op == "eq":
        return f"{S(t.args[0])}==0"
    if op in ("true", "false"):
        return op
    if op == "not":
        return f"!({S(t.args[0])})"
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(S(x) for x in t.args) + ")"
    return f"{op}({', '.join(S(x) if isinstance(x, T) else str(x) for x in t.args)})"


def reset():
    facts.reset()
    _nn_cache.clear()
    _exp_cache.clear()
    _log_cache.clear()
    _mul_cache.clear()
