"""Loads the unmodified sources of /repo for the symbolic run.

What the extraction changes, mechanically and on every run: `for` iterables, list comprehensions and `while` tests are
wrapped in calls to the loop rules below; builtins (int, float, range, isinstance, ...) are replaced by versions that
accept symbolic scalars; imports of third-party packages resolve to the contracts in ftorch/fnumpy.  Nothing else is
dropped or rewritten."""
import ast
import builtins as _b
import importlib
import itertools
import os
import sys
import types

from . import terms as t
from . import storch as S
from . import ftorch
from . import fnumpy
from . import prover
from .engine import E, Loop, PathPruned
from .sym import SymBool, SymNum, P, is_sym, num, tobool, trunc, wrap, wrapb
from .terms import FALSE, Unsupported


# ------------------------------------------------------------------ builtins
class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        s, e, p = P(start), P(stop), P(step)
        if not t.is_const(p) or t.cval(p) == 0:
            raise Unsupported("range with a symbolic step")
        c = t.cval(p)
        d = t.sub(e, s) if c > 0 else t.sub(s, e)
        c = abs(c)
        n = d if c == 1 else t.idiv(t.add(d, t.const(c - 1)), t.const(c))
        if not t.nonneg(n):
            n = t.ite(t.le(t.ZERO, n), n, t.ZERO)
            if not E.decide(t.le(t.ZERO, d)):
                n = t.ZERO
            else:
                n = d if c == 1 else t.idiv(t.add(d, t.const(c - 1)), t.const(c))
        self.n, self.s, self.p = n, s, p

    def at(self, v):
        return wrap(t.add(self.s, t.mul(v, self.p)), True)

    def __iter__(self):
        if t.is_const(self.n):
            return iter([self.at(t.const(k)) for k in _b.range(int(t.cval(self.n)))])
        raise Unsupported("iteration over a symbolic range outside a loop rule")

    def __len__(self):
        if t.is_const(self.n):
            return int(t.cval(self.n))
        raise Unsupported("len of a symbolic range")


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SymNum) and x.isint and not x.numpy)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __repr__(cls):
        return "<class 'int'>"


class vc_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymNum):
            return wrap(trunc(x.p), True)
        if isinstance(x, SymBool):
            return wrap(t.ind(x.b), True)
        if isinstance(x, S.STensor):
            return wrap(trunc(x._scalar()[0]), True)
        return int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymNum) and not x.isint and not x.numpy)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __repr__(cls):
        return "<class 'float'>"


class vc_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            return wrap(x.p, False)
        if isinstance(x, SymBool):
            return wrap(t.ind(x.b), False)
        if isinstance(x, S.STensor):
            return wrap(x._scalar()[0], False)
        return float(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class vc_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return bool(x)


class _NpSym:
    pass


_NpSym.__module__ = "numpy"


def vc_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SymNum):
        return _NpSym if x.numpy else (vc_int if x.isint else vc_float)
    if isinstance(x, SymBool):
        return bool
    return type(x)


def vc_isinstance(x, c):
    if c is vc_type:
        return isinstance(x, type)
    if isinstance(x, SymNum) and not isinstance(c, tuple):
        n = getattr(c, "__module__", "")
        if n == "numpy":
            nm = c.__name__
            return x.numpy and (("int" in nm and x.isint) or ("float" in nm and not x.isint) or nm in ("generic", "number"))
        nm = getattr(c, "__name__", "")
        if n == "numbers":
            return nm in ("Number", "Real", "Complex") or (nm in ("Integral", "Rational") and x.isint)
        if c is int or c is float:
            return not x.numpy and x.isint == (c is int)
        return isinstance(x, c)
    if isinstance(x, SymNum) and isinstance(c, tuple):
        return any(vc_isinstance(x, k) for k in c)
    if isinstance(x, S.SymList):
        cs = c if isinstance(c, tuple) else (c,)
        return list in cs
    if isinstance(c, tuple):
        return any(vc_isinstance(x, k) for k in c)
    if isinstance(c, ftorch.Missing):
        return False
    return isinstance(x, c)


def vc_range(*a):
    if any(is_sym(x) or isinstance(x, S.STensor) for x in a):
        a = [wrap(P(x), True) if not isinstance(x, S.STensor) else x.item() for x in a]
        if any(is_sym(x) for x in a):
            st, sp, se = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            r = SymRange(st, sp, se)
            if t.is_const(r.n):
                return [r.at(t.const(k)) for k in _b.range(int(t.cval(r.n)))]
            return r
    return range(*[x.__index__() for x in a])


def vc_len(x):
    if isinstance(x, S.STensor):
        return x.shape[0]
    if isinstance(x, S.SymList):
        return wrap(x.n, True)
    if isinstance(x, SymRange):
        return wrap(x.n, True)
    return len(x)


_NONE = object()


def vc_sum(xs, start=0):
    if isinstance(xs, S.STensor):
        return xs.sum(0) + start if not (isinstance(start, int) and start == 0) else xs.sum(0)
    if isinstance(xs, S.SymList):
        if isinstance(xs.elt, S.STensor):
            return S.stack(xs).sum(0) + start
        return wrap(t.add(P(start), symsum(xs)), False if not getattr(xs.elt, "isint", True) else True)
    r = start
    for x in xs:
        r = r + x
    return r


def symsum(xs):
    if len(xs.ranges) == 1:
        v = xs.vars[0]
        return t.sum_close(xs.ranges[0], v, P(xs.elt))
    raise Unsupported("sum over nested symbolic ranges")


def _minmax(pick):
    def f(*a, key=None, default=_NONE):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(is_sym(x) or isinstance(x, S.STensor) for x in xs) or key is not None:
            fn = max if pick else min
            kw = {} if key is None else {"key": key}
            if default is not _NONE:
                kw["default"] = default
            return fn(xs, **kw)
        r = xs[0]
        for x in xs[1:]:
            if isinstance(r, S.STensor) or isinstance(x, S.STensor):
                r = (S.as_tensor(r).maximum(x) if pick else S.as_tensor(r).minimum(x))
                continue
            p, q = num(r), num(x)
            c = t.le(q[0], p[0]) if pick else t.le(p[0], q[0])
            r = wrap(t.ite(c, p[0], q[0]), p[1] and q[1])
        return r

    return f


def vc_abs(x):
    return abs(x)


def vc_round(x, n=None):
    if is_sym(x):
        return x.round()
    return round(x, n) if n is not None else round(x)


def vc_any(xs):
    if isinstance(xs, S.STensor):
        return bool(xs.any())
    r = t.FALSE
    for x in xs:
        if is_sym(x):
            r = t.bor(r, tobool(x))
        elif x:
            return True
    return wrapb(r) if r is not t.FALSE else False


def vc_all(xs):
    r = t.TRUE
    for x in xs:
        if is_sym(x):
            r = t.band(r, tobool(x))
        elif not x:
            return False
    return wrapb(r) if r is not t.TRUE else True


def vc_pow(a, b, m=None):
    return a**b if m is None else pow(a, b, m)


# ------------------------------------------------------------------ loop rules
_frames = {}


class _LoopState:
    def __init__(self, loop):
        self.loop = loop
        self.carry = None
        self.end = None


def vc_iter(it, info):
    """info: (id, carried names, unsupported reasons, live-out names)"""
    lid, carried, bad, live = info
    rng = None
    if isinstance(it, SymRange):
        rng = (it.n, it.at)
    elif isinstance(it, S.STensor) and it.dim() > 0 and isinstance(it.shape[0], SymNum):
        rng = (it._dims[0], lambda v, it=it: it[wrap(v, True)])
    elif isinstance(it, fnumpy.SArray):
        tt = it.tensor
        if isinstance(tt.shape[0], SymNum):
            rng = (tt._dims[0], lambda v, it=it: it[wrap(v, True)])
        else:
            return iter([it[k] for k in range(tt.shape[0])])
    elif isinstance(it, S.SymList):
        rng = (it.n, it.sub_at)
    if rng is None:
        return iter(it)
    if bad:
        raise Unsupported(f"symbolic loop with {bad}")
    if live:
        raise Unsupported(f"loop variables {sorted(live)} used after a symbolic loop")
    return _symloop(rng, lid, carried)


def _symloop(rng, lid, carried):
    n, at = rng
    v = t.fresh_index(n, "L")
    loop = Loop(v, t.ZERO, n, t.ONE)
    st = _LoopState(loop)
    pre_rng, pre_np = E.rng, E.nprng
    E.loops.append(loop)
    E.loop_states = getattr(E, "loop_states", {})
    E.loop_states.setdefault(lid, []).append(st)
    E.rng = ("loop", E.rng_id(pre_rng), "body")
    body_rng = E.rng
    E.nprng = ("nploop", E.rng_ids.setdefault(pre_np, len(E.rng_ids)), "body")
    body_np = E.nprng
    yield at(t.atom(v))
    E.loops.pop()
    loop.finish()
    E.rng = pre_rng if E.rng == body_rng else ("loopend", E.rng_id(pre_rng), E.rng_id(E.rng), n.id)
    E.nprng = pre_np if E.nprng == body_np else ("nploopend", E.rng_ids.setdefault(pre_np, len(E.rng_ids)), E.rng_ids.setdefault(E.nprng, len(E.rng_ids)), n.id)
    E.loop_states[lid].pop()
    E.loop_done = (lid, st)


def vc_carry(lid, vals):
    sts = getattr(E, "loop_states", {}).get(lid)
    if not sts or sts[-1].carry is not None:
        return vals
    st = sts[-1]
    # placeholders for the values at the start of iteration v
    ph = []
    for x in vals:
        if isinstance(x, S.STensor):
            name = t.fresh_name("carry")
            sort = "B" if x.dtype is S.bool_ else ("R" if x.dtype.is_floating_point else "I")
            if sort == "B":
                raise Unsupported("loop-carried boolean tensor")
            y = S.STensor.new(x._dims, lambda i, name=name, sort=sort: (t.uf(name, sort, list(i)), t.FALSE), x.dtype)
            y._carry = name
            st.loop.exempt.add(id(y._st))
            st.keep = getattr(st, "keep", []) + [y]
            ph.append(y)
        elif isinstance(x, bool) or isinstance(x, SymBool):
            raise Unsupported("loop-carried boolean")
        elif isinstance(x, (int, float, SymNum)):
            name = t.fresh_name("carry")
            isint = isinstance(x, int) or (isinstance(x, SymNum) and x.isint)
            ph.append(SymNum(t.atom(t.var(name, "I" if isint else "R")), isint))
        elif x is None or isinstance(x, (str,)):
            ph.append(x)
        elif isinstance(x, list) and not x or isinstance(x, S.SymList):
            ph.append(x)
        else:
            raise Unsupported(f"loop-carried value of type {type(x).__name__}")
    st.carry = (vals, ph)
    return tuple(ph)


def vc_end(lid, vals):
    sts = getattr(E, "loop_states", {}).get(lid)
    if sts and sts[-1].carry is not None and sts[-1].end is None:
        sts[-1].end = vals
    return None


def vc_final(lid, vals):
    done = getattr(E, "loop_done", None)
    if done is None or done[0] != lid:
        return vals
    st = done[1]
    E.loop_done = None
    if st.carry is None:
        return vals
    if st.end is None:
        raise Unsupported("symbolic loop body did not run to its end")
    pre, ph = st.carry
    out = []
    v, n = st.loop.var, st.loop.n
    names = []
    for x in ph:
        names.append(getattr(x, "_carry", None) or (x.p.args[0][0][0][0].args[0] if isinstance(x, SymNum) else None))
    for x0, p, e, nm in zip(pre, ph, st.end, names):
        if nm is None:
            if isinstance(e, S.SymList):
                out.append(e)
                continue
            if e is not p and e != p:
                raise Unsupported("loop-carried non-numeric value changes")
            out.append(x0)
            continue
        if isinstance(p, S.STensor):
            if not isinstance(e, S.STensor) or len(e._dims) != len(p._dims) or any(not S.known_eq(a, b) for a, b in zip(e._dims, p._dims)):
                raise Unsupported("shape of a loop-carried tensor changes")
            f0, fe, fp = x0._read(), e._read(), p.__dict__["_orig_fn"] if "_orig_fn" in p.__dict__ else None
            sort = "R" if p.dtype.is_floating_point else "I"

            def fn(i, f0=f0, fe=fe, nm=nm, sort=sort):
                val, nan = fe(i)
                a0, n0 = f0(i)
                d = t.sub(val, t.uf(nm, sort, list(i)))
                _check_free(d, names)
                _check_free(nan, names)
                return (t.add(a0, t.sum_close(n, v, d)), t.bor(n0, t.any_close(n, v, nan)))

            r = S.STensor.new(x0._dims, fn, x0.dtype)
            if e._st is p._st:
                x0.copy_(r)
                out.append(x0)
            else:
                out.append(r)
        else:
            q, isint = num(e)
            d = t.sub(q, p.p)
            if any(mentions(d, k) for k in names if k):
                raise Unsupported("loop-carried value is not a plain accumulation")
            out.append(wrap(t.add(P(x0), t.sum_close(n, v, d)), isint and isinstance(x0, (int, SymNum))))
            # partial sums: values at iteration v
            st.loop.carried[nm] = lambda vv, x0=x0, d=d: t.add(P(x0), t.sum_close(vv, (w := t.fresh_index(vv, "w")), t.subst(d, {v: t.atom(w)})))
    st.loop.resolve(names)
    return tuple(out)


def _check_free(d, names):
    for k in names:
        if k and mentions(d, k):
            raise Unsupported("loop-carried tensor is not a plain accumulation")


def mentions(x, name):
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op in ("uf", "var", "ufb") and y.args[0] == name:
            return True
        stack.extend(t.children(y))
    return False


def vc_raise():
    if E.loops:
        raise Unsupported("an iteration of a symbolic loop raises")


def vc_append(lst, x):
    """name.append(x) as a statement"""
    if E.loops and isinstance(lst, list):
        loop = E.loops[-1]
        if lst:
            raise Unsupported("append to a non-empty list in a symbolic loop")
        if len(E.loops) > 1:
            raise Unsupported("append in nested symbolic loops")
        r = S.SymList([loop.n], [loop.var], x)
        r.made = loop
        return r
    if isinstance(lst, S.SymList):
        if len(E.loops) != 1 or getattr(lst, "made", None) is E.loops[-1]:
            raise Unsupported("append to a symbolic list")
        loop = E.loops[-1]
        return S.SymConcat([lst, S.SymList([loop.n], [loop.var], x)], loop)
    lst.append(x)
    return lst


def vc_sorted(xs, *a, **k):
    if isinstance(xs, S.SortedList):
        return xs
    if isinstance(xs, S.STensor) and xs.dim() == 1 and isinstance(xs.shape[0], SymNum):
        xs = xs.tolist()
    if isinstance(xs, S.SymList) and not a and not k:
        return S.SortedList(xs)
    return sorted(xs, *a, **k)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, S.SymList, S.SortedList))

    def __eq__(cls, o):
        return o is list or o is cls

    __hash__ = type.__hash__


def _as_list(x):
    if isinstance(x, (S.SymList, S.SortedList)):
        return x
    if isinstance(x, SymRange) and not t.is_const(x.n):
        v = t.fresh_index(x.n, "r")
        return S.SymList([x.n], [v], x.at(t.atom(v)))
    if isinstance(x, S.STensor) and x.dim() == 1 and isinstance(x.shape[0], SymNum):
        return x.tolist()
    return None


class vc_list(list, metaclass=_ListMeta):
    def __new__(cls, *a):
        r = _as_list(a[0]) if a else None
        return list(*a) if r is None else r


class _CompFrame:
    def __init__(self):
        self.ranges, self.vars = [], []


def vc_comp_begin():
    E.comp_stack.append(_CompFrame())
    return 0


class Chunk:
    """the elements of a symbolic list, handed on by `yield from`"""

    def __init__(self, tensor):
        self.tensor = tensor


def vc_chunk(it):
    if isinstance(it, S.SymList) or (isinstance(it, S.STensor) and it.dim() and isinstance(it.shape[0], SymNum)):
        return iter([Chunk(it)])
    return it


def vc_islice(it, *a):
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (tuple(a) + (1,))[:3]

    def whole(x):
        if isinstance(x, Chunk) and ((start or 0) != 0 or stop is not None or (step or 1) != 1):
            raise Unsupported("slice of a stream of symbolic chunks")
        return x

    return itertools.islice((whole(x) for x in it), *a)


def vc_citer(it):
    r = None
    if isinstance(it, SymRange):
        r = (it.n, it.at)
    elif isinstance(it, S.STensor) and it.dim() > 0 and isinstance(it.shape[0], SymNum):
        r = (it._dims[0], lambda v: it[wrap(v, True)])
    elif isinstance(it, S.SymList):
        r = (it.n, it.sub_at)
    elif isinstance(it, fnumpy.SArray):
        if isinstance(it.tensor.shape[0], SymNum):
            r = (it.tensor._dims[0], lambda v: it[wrap(v, True)])
        else:
            return [it[k] for k in range(it.tensor.shape[0])]
    if r is None:
        if E.comp_stack and E.comp_stack[-1].ranges:
            raise Unsupported("concrete loop inside a symbolic comprehension")
        return it
    n, at = r
    v = t.fresh_index(n, "C")
    f = E.comp_stack[-1]
    f.ranges.append(n)
    f.vars.append(v)
    return [at(t.atom(v))]


def vc_comp_end(_, res):
    f = E.comp_stack.pop()
    if not f.ranges:
        return res
    if len(res) != 1:
        raise Unsupported("filter in a symbolic comprehension")
    return S.SymList(f.ranges, f.vars, res[0])


def vc_while(c, lid, loc=None, names=()):
    """while-loops.  When the state after an iteration is an instance of the (arbitrary) state before the loop, that state has already
    been followed from the loop head, so the path ends there (loop invariant: the form of the state before the loop); otherwise
    undecided conditions are unrolled a bounded number of times (labelled bounded)."""
    if loc is not None:
        st = E.whiles.get(lid)
        if st is None:
            E.whiles[lid] = _state(loc, names)
            E.while_path[lid] = len(t.facts.path)
        elif names and _subsumed(lid, st, _state(loc, names), names):
            raise PathPruned(lid)
    before = E.pos
    r = bool(c)
    if not r:
        E.whiles.pop(lid, None)
    if E.pos != before and r:
        k = ("while", lid)
        E.site_count[k] = E.site_count.get(k, 0) + 1
        if E.site_count[k] > E.unroll:
            E.notes.add(f"while loop unrolled {E.unroll} times")
            raise PathPruned(lid)
    return r


def vc_enter(lid):
    E.whiles.pop(lid, None)


def _state(loc, names):
    return {k: (tuple(x._dims), x._read(), x.dtype) if isinstance(x, S.STensor) else x for k, x in loc.items() if k in names or isinstance(x, S.STensor)}


def _subsumed(lid, old, new, names):
    """new = old with the values of one uniform draw u < q, used only through that comparison, replaced by another 0/1 tensor"""
    try:
        if set(old) != set(new):
            return False
        pairs = {}
        for k, a in old.items():
            b = new[k]
            if not isinstance(a, tuple):
                if a is not b:
                    return False
                continue
            if len(a[0]) != len(b[0]) or a[2] is not b[2] or not all(S.same_dim(x, y) for x, y in zip(a[0], b[0])):
                return False
            idx = tuple(t.atom(t.fresh_index(d, "w")) for d in a[0])
            (va, na), (vb, nb) = a[1](idx), b[1](idx)
            if na is not FALSE or nb is not FALSE:
                if not (va is vb and na is nb):
                    return False
            pairs[k] = (idx, va, vb)
        changed = [k for k, (_, va, vb) in pairs.items() if va is not vb]
        if not set(changed) <= set(names):
            return False
        # the variable that holds the draws themselves
        for k in changed:
            idx, va, vb = pairs[k]
            u = _comparison(va, idx)
            if u is None:
                continue
            name, q, sign = u
            if any(mentions(pairs[o][1], name) for o in pairs if o not in changed) or any(mentions(p, name) for p in t.facts.path[: E.while_path.get(lid, 0)]):
                continue
            if not prover.prove_bool(t.bor(t.eq(vb, t.ZERO), t.eq(vb, t.ONE)), [], 5000):
                continue
            fn = new[k][1]

            def hook(x, name=name, q=q):
                if x.op not in ("I", "le") or not mentions(x, name):
                    return None
                s = _indicator(x, name, q) if x.op == "I" else _indicator_le(x, name, q)
                if s is None:
                    raise Unsupported("draw used otherwise")
                pos, args = s
                d = fn(tuple(args))[0]
                d = d if pos == sign else t.sub(t.ONE, d)
                return d if x.op == "I" else t.eq(d, t.ONE)

            ok = True
            for o in changed:
                i2, oa, ob = pairs[o]
                w = t.rewrite(oa, hook) if oa.op == "poly" else t.rewrite(oa, hook)
                if mentions(w, name) and not mentions(ob, name):
                    ok = False
                    break
                same = w is ob
                if not same:
                    same = prover.prove_bool(t.eq(w, ob) if w.op == "poly" else t.biff(w, ob), [], 5000)
                if not same:
                    ok = False
                    break
            if ok:
                return True
    except Unsupported:
        pass
    return False


def _indicator(x, name, q):
    """(positive?, args) when the indicator atom x states u(args) < q (True) or its negation (False)"""
    b = x.args[0]
    if b.op == "not":
        r = _indicator_le(b.args[0], name, q)
        return None if r is None else (not r[0], r[1])
    return _indicator_le(b, name, q)


def _indicator_le(b, name, q):
    # q - u <= 0  states  not (u < q)
    if b.op != "le":
        return None
    for m, c in b.args[0].args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "uf" and m[0][0].args[0] == name:
            a = m[0][0]
            if b.args[0] is t.sub(q, t.atom(a)):
                return False, a.args[2]
            # u - q <= 0 cannot be told from u < q on a set of measure zero; not used
    return None


def _comparison(v, idx):
    """(draw, q, polarity) when v is the indicator of u(idx) < q, written with the atom [u < q] (True) or 1 - [q <= u] (False)"""
    if v.op != "poly":
        return None
    for m, c in v.args:
        for a, e in m:
            if a.op == "I" and a.args[0].op in ("le", "not"):
                le = a.args[0] if a.args[0].op == "le" else a.args[0].args[0]
                if le.op != "le":
                    continue
                for m2, c2 in le.args[0].args:
                    if len(m2) == 1 and m2[0][0].op == "uf" and m2[0][0].args[0].startswith("rand@"):
                        u = m2[0][0]
                        if tuple(u.args[2]) != tuple(idx):
                            continue
                        q = t.add(le.args[0], t.atom(u))
                        if mentions(q, u.args[0]) or not q.fv.isdisjoint(set().union(*[i.fv for i in idx])):
                            continue
                        if v is t.ind(t.lt(t.atom(u), q)):
                            return u.args[0], q, True
    return None


# ------------------------------------------------------------------ AST instrumentation
class Instr(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.func = []
        self.loopdepth = 0

    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_FunctionDef(self, node):
        self.func.append(node)
        d, self.loopdepth = self.loopdepth, 0
        self.generic_visit(node)
        self.loopdepth = d
        self.func.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _info(self, node):
        lid = f"{self.fname}:{node.lineno}:{node.col_offset}"
        stores, carried, bad = set(), set(), set()
        defined = set(n.id for n in ast.walk(node.target) if isinstance(n, ast.Name))
        targets = set(defined)

        def expr(e):
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    if x.id not in defined:
                        carried.add(x.id)
                elif isinstance(x, ast.NamedExpr):
                    stores.add(x.target.id)
                elif isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                    bad.add("yield")

        def target(tg, defs):
            if isinstance(tg, ast.Name):
                stores.add(tg.id)
                defs.add(tg.id)
            elif isinstance(tg, (ast.Tuple, ast.List)):
                for x in tg.elts:
                    target(x, defs)
            elif isinstance(tg, ast.Starred):
                target(tg.value, defs)
            elif isinstance(tg, ast.Attribute):
                expr(tg.value)
                bad.add("attribute assignment")
            elif isinstance(tg, ast.Subscript):
                expr(tg.value)
                expr(tg.slice)

        def block(body):
            nonlocal defined
            for s in body:
                if isinstance(s, ast.Assign):
                    expr(s.value)
                    for tg in s.targets:
                        target(tg, defined)
                elif isinstance(s, ast.AnnAssign):
                    if s.value is not None:
                        expr(s.value)
                        target(s.target, defined)
                elif isinstance(s, ast.AugAssign):
                    expr(s.value)
                    if isinstance(s.target, ast.Name):
                        if s.target.id not in defined:
                            carried.add(s.target.id)
                    target(s.target, defined)
                elif isinstance(s, ast.If):
                    expr(s.test)
                    d0 = set(defined)
                    block(s.body)
                    d1 = defined
                    defined = set(d0)
                    block(s.orelse)
                    # a name bound in one branch only counts as unbound afterwards: reading it makes it loop-carried
                    if s.body and isinstance(s.body[-1], ast.Raise):
                        d1 = d1 | defined
                    if s.orelse and isinstance(s.orelse[-1], ast.Raise):
                        defined = d1 | defined
                    defined = d1 & defined
                elif isinstance(s, ast.For):
                    expr(s.iter)
                    d0 = set(defined)
                    target(s.target, defined)
                    block(s.body)
                    block(s.orelse)
                    defined = d0
                elif isinstance(s, ast.With):
                    for i in s.items:
                        expr(i.context_expr)
                    block(s.body)
                elif isinstance(s, ast.Expr):
                    expr(s.value)
                    c = s.value
                    if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                            and c.func.attr == "append"):
                        stores.add(c.func.value.id)
                elif isinstance(s, (ast.Break, ast.Continue, ast.Return)):
                    bad.add(type(s).__name__.lower())
                elif isinstance(s, ast.Raise):
                    for x in (s.exc, s.cause):
                        if x is not None:
                            expr(x)
                elif isinstance(s, (ast.Pass, ast.Assert)):
                    if isinstance(s, ast.Assert):
                        expr(s.test)
                elif isinstance(s, (ast.While, ast.Try, ast.Delete, ast.Global, ast.Nonlocal, ast.FunctionDef)):
                    bad.add(type(s).__name__.lower())
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            stores.add(x.id)

        block(node.body)
        if node.orelse:
            bad.add("else")
        carried &= stores
        carried -= targets
        live = set()
        if self.func:
            end = node.end_lineno
            for x in ast.walk(self.func[-1]):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.lineno > end and x.id in (stores | targets) - carried:
                    if not self._reassigned(x.id, end, x.lineno):
                        live.add(x.id)
        return lid, tuple(sorted(carried)), ", ".join(sorted(bad)), tuple(sorted(live))

    def _reassigned(self, nm, lo, hi):
        """plain top-level assignment to nm between the loop and the use"""
        for x in ast.walk(self.func[-1]):
            if isinstance(x, (ast.Assign, ast.For)) and lo < x.lineno < hi:
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for tg in ts:
                    for y in ast.walk(tg):
                        if isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Store):
                            return True
        return False

    def visit_Raise(self, node):
        self.generic_visit(node)
        if not self.loopdepth:
            return node
        pre = ast.Expr(value=ast.Call(func=self.name("__vc_raise__"), args=[], keywords=[]))
        ast.copy_location(pre, node)
        ast.fix_missing_locations(pre)
        return [pre, node]

    def visit_For(self, node):
        info = self._info(node)
        self.loopdepth += 1
        self.generic_visit(node)
        self.loopdepth -= 1
        lid, carried, bad, live = info
        node.iter = ast.Call(
            func=self.name("__vc_iter__"),
            args=[node.iter, ast.Constant(value=info)],
            keywords=[],
        )
        out = [node]
        if carried:
            def tup(ctx):
                return ast.Tuple(elts=[ast.Name(id=c, ctx=ctx) for c in carried], ctx=ctx)

            pre = ast.Assign(targets=[tup(ast.Store())], value=ast.Call(func=self.name("__vc_carry__"), args=[ast.Constant(value=lid), tup(ast.Load())], keywords=[]))
            post = ast.Expr(value=ast.Call(func=self.name("__vc_end__"), args=[ast.Constant(value=lid), tup(ast.Load())], keywords=[]))
            fin = ast.Assign(targets=[tup(ast.Store())], value=ast.Call(func=self.name("__vc_final__"), args=[ast.Constant(value=lid), tup(ast.Load())], keywords=[]))
            # a name that is only conditionally bound before the loop cannot be passed on; leave such loops alone
            if all(self._bound_before(c, node) for c in carried):
                node.body = [pre] + node.body + [post]
                out.append(fin)
            else:
                node.iter.args[1] = ast.Constant(value=(lid, carried, (bad + ", " if bad else "") + "conditionally bound loop variable", live))
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out

    def _bound_before(self, nm, node):
        if not self.func:
            return False
        f = self.func[-1]
        args = f.args
        for a in args.args + args.kwonlyargs + args.posonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            if a.arg == nm:
                return True

        def blk(body):
            for s in body:
                if s is node or (s.lineno <= node.lineno and s.end_lineno >= node.end_lineno):
                    if s is node:
                        return None
                    for fld in ("body", "orelse", "finalbody"):
                        sub = getattr(s, fld, None)
                        if isinstance(sub, list) and any(x.lineno <= node.lineno <= x.end_lineno for x in sub if hasattr(x, "lineno")):
                            if isinstance(s, ast.For):
                                for y in ast.walk(s.target):
                                    if isinstance(y, ast.Name) and y.id == nm:
                                        return True
                            return blk(sub)
                    return None
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for tg in ts:
                        for y in ast.walk(tg):
                            if isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Store):
                                return True
            return None

        return bool(blk(f.body))

    def visit_Expr(self, node):
        self.generic_visit(node)
        c = node.value
        if (self.loopdepth and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                and c.func.attr == "append" and len(c.args) == 1 and not c.keywords):
            new = ast.Assign(
                targets=[ast.Name(id=c.func.value.id, ctx=ast.Store())],
                value=ast.Call(func=self.name("__vc_append__"), args=[self.name(c.func.value.id), c.args[0]], keywords=[]),
            )
            if self._is_local(c.func.value.id):
                return ast.fix_missing_locations(ast.copy_location(new, node))
        return node

    def _is_local(self, nm):
        if not self.func:
            return False
        for x in ast.walk(self.func[-1]):
            if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store):
                return True
        return False

    def visit_While(self, node):
        lid = f"{self.fname}:{node.lineno}"
        self.loopdepth += 1
        self.generic_visit(node)
        self.loopdepth -= 1
        names = set()
        for b in [node.test, *node.body]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                    y = x
                    while isinstance(y, (ast.Subscript, ast.Attribute)):
                        y = y.value
                    if isinstance(y, ast.Name):
                        names.add(y.id)
        args = [node.test, ast.Constant(value=lid)]
        if self.func:
            args += [ast.Call(func=self.name("__vc_locals__"), args=[], keywords=[]), ast.Constant(value=tuple(sorted(names)))]
        node.test = ast.Call(func=self.name("__vc_while__"), args=args, keywords=[])
        enter = ast.Expr(value=ast.Call(func=self.name("__vc_enter__"), args=[ast.Constant(value=lid)], keywords=[]))
        ast.copy_location(enter, node)
        ast.fix_missing_locations(enter)
        return [enter, ast.fix_missing_locations(node)]

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        node.value = ast.Call(func=self.name("__vc_chunk__"), args=[node.value], keywords=[])
        return ast.fix_missing_locations(node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        for g in node.generators:
            g.iter = ast.Call(func=self.name("__vc_citer__"), args=[g.iter], keywords=[])
        new = ast.Call(
            func=self.name("__vc_comp_end__"),
            args=[ast.Call(func=self.name("__vc_comp_begin__"), args=[], keywords=[]), node],
            keywords=[],
        )
        return ast.fix_missing_locations(ast.copy_location(new, node))


def instrument(src, fname):
    tree = ast.parse(src, fname)
    tree = Instr(os.path.basename(fname)).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, "exec")


# ------------------------------------------------------------------ modules
class Loader:
    ROOTS = ("simple_einet", "main", "main_pl", "main_pwl", "models_pl", "exp_utils", "args")

    def __init__(self, repo):
        self.repo = repo
        self.fakes = ftorch.build()
        np = fnumpy.build()
        self.fakes.update(np)
        self.fakes["math"] = fnumpy.build_math()
        self.make_mocks()
        self.builtins = self.make_builtins()
        self.files = {}
        self.texts = {}

    def make_mocks(self):
        A = ftorch.Auto

        def mod(n):
            m = A(n)
            m.__path__ = []
            self.fakes[n] = m
            return m

        tq = mod("tqdm")
        tq.tqdm = lambda x=None, *a, **k: x
        mod("tqdm.auto").tqdm = tq.tqdm
        self.fakes["tqdm"].trange = lambda *a, **k: vc_range(*a)
        it = types.ModuleType("itertools")
        it.__dict__.update({k: v for k, v in itertools.__dict__.items() if not k.startswith("__")})
        it.islice = vc_islice
        self.fakes["itertools"] = it
        fk = mod("fast_pytorch_kmeans")

        class KMeans:
            """assumed contract: clustering returns some assignment; max_sim returns (score, cluster index)"""

            def __init__(self, n_clusters=None, mode=None, verbose=0, init_method=None, **k):
                self.n_clusters = n_clusters

        fk.KMeans = KMeans
        pl = mod("lightning.pytorch")
        pl.LightningModule = ftorch.Module
        mod("lightning").pytorch = pl
        mod("pytorch_lightning").LightningModule = ftorch.Module

    def make_builtins(self):
        d = dict(_b.__dict__)
        d.update(
            int=vc_int, float=vc_float, bool=vc_bool, type=vc_type, isinstance=vc_isinstance, range=vc_range, len=vc_len, sum=vc_sum,
            sorted=vc_sorted, list=vc_list, max=_minmax(True), min=_minmax(False), abs=vc_abs, round=vc_round, any=vc_any, all=vc_all, pow=vc_pow,
            __import__=self.import_, print=lambda *a, **k: None,
            __vc_iter__=vc_iter, __vc_carry__=vc_carry, __vc_end__=vc_end, __vc_final__=vc_final, __vc_append__=vc_append, __vc_raise__=vc_raise,
            __vc_comp_begin__=vc_comp_begin, __vc_citer__=vc_citer, __vc_comp_end__=vc_comp_end, __vc_while__=vc_while, __vc_enter__=vc_enter, __vc_chunk__=vc_chunk, __vc_locals__=locals,
        )
        return d

    MOCK_ROOTS = ("torch", "numpy", "omegaconf", "sklearn", "scipy", "torchvision", "lightning", "pytorch_lightning", "wandb", "imageio", "matplotlib",
                  "PIL", "skimage", "seaborn", "rtpt", "rich", "icecream", "hydra", "pandas", "requests", "tqdm", "torchmetrics", "_operator_none")

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        root = name.split(".")[0]
        if root in self.ROOTS:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.path(name + "." + f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load(root)
        if root in self.fakes or root in self.MOCK_ROOTS:
            parts = name.split(".")
            for k in range(1, len(parts) + 1):
                n = ".".join(parts[:k])
                if n not in self.fakes:
                    m = ftorch.Auto(n)
                    m.__path__ = []
                    self.fakes[n] = m
                    if k > 1:
                        setattr(self.fakes[".".join(parts[: k - 1])], parts[k - 1], m)
            if fromlist:
                m = self.fakes[name]
                for f in fromlist:
                    if name + "." + f in self.fakes and f not in m.__dict__:
                        setattr(m, f, self.fakes[name + "." + f])
                return m
            return self.fakes[root]
        return _b.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py" if os.path.exists(p + ".py") else None

    def load(self, name):
        if name in sys.modules and getattr(sys.modules[name], "__vc__", None) is self:
            return sys.modules[name]
        parent = name.rpartition(".")[0]
        if parent:
            pm = self.load(parent)
        fn = self.path(name)
        if fn is None:
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__vc__ = self
        m.__file__ = fn
        if fn.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(fn)]
            m.__package__ = name
        else:
            m.__package__ = parent
        m.__dict__["__builtins__"] = self.builtins
        sys.modules[name] = m
        src = open(fn).read() if os.path.exists(fn) else ""
        self.files[name] = fn
        self.texts[fn] = src
        try:
            exec(instrument(src, fn), m.__dict__)
        except BaseException:
            del sys.modules[name]
            raise
        if parent:
            setattr(pm, name.rpartition(".")[2], m)
        return m
