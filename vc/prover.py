"""Obligation prover: polynomial normal forms, case splitting, congruence under binders, z3 as final arbiter."""
import itertools
import time
from fractions import Fraction
import z3
from . import terms as t
from .terms import (T, ZERO, ONE, TRUE, FALSE, facts, sub, add, mul, neg, scale, const, atom, band, bor, bnot, ind,
                    is_const, cval, subst, open_binder, fresh_index, Unsupported)

stats = {"z3_calls": 0, "z3_time": 0.0, "nf": 0, "split": 0, "cong": 0}


class Z:
    """Translation of terms to z3 with their background facts."""

    def __init__(self):
        self.cache = {}
        self.side = []
        self.names = {}
        self.abstracted = False
        self.quants = []  # quantified nodes met so far
        self.ground = {}  # function name -> list of ground argument tuples

    def name(self, tm, sort):
        v = self.names.get(tm)
        if v is None:
            n = f"{tm.op}#{tm.id}" if tm.op != "var" else tm.args[0]
            v = z3.Int(n) if sort == "I" else (z3.Bool(n) if sort == "B" else z3.Real(n))
            self.names[tm] = v
        return v

    def num(self, p):
        """polynomial -> z3 arithmetic expression"""
        if p.op != "poly":
            return self.atom(p)
        k = ("n", p)
        r = self.cache.get(k)
        if r is not None:
            return r
        integral = t.is_int(p)
        terms = []
        den = 1
        from math import gcd as _g
        for m, c in p.args:
            e = None
            for a, ex in m:
                x = self.atom(a)
                if ex != int(ex):
                    x = self.name(t._poly_from_dict({((a, ex),): Fraction(1)}), "R")
                    self.abstracted = True
                    e = x if e is None else e * x
                    continue
                ex = int(ex)
                if ex > 0:
                    for _ in range(ex):
                        e = x if e is None else e * x
                else:
                    self.abstracted = True
                    iv = self.name(t._poly_from_dict({((a, -1),): Fraction(1)}), "R")
                    if ("inv", a) not in self.cache:
                        self.cache[("inv", a)] = True
                        xr = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                        self.side.append(z3.Implies(xr != 0, xr * iv == 1))
                        self.side.append(z3.Implies(xr > 0, iv > 0))
                    for _ in range(-ex):
                        e = iv if e is None else e * iv
            if e is None:
                e = z3.IntVal(int(c)) if (integral or c.denominator == 1) else z3.RealVal(str(c))
            elif c != 1:
                if c.denominator == 1:
                    e = int(c) * e if e.sort() == z3.IntSort() else z3.RealVal(str(c)) * e
                else:
                    if e.sort() == z3.IntSort():
                        e = z3.ToReal(e)
                    e = z3.RealVal(str(c)) * e
            terms.append(e)
        if not terms:
            r = z3.IntVal(0)
        else:
            r = terms[0]
            for x in terms[1:]:
                r = r + x
        self.cache[k] = r
        return r

    def atom(self, a):
        r = self.cache.get(a)
        if r is not None:
            return r
        r = self._atom(a)
        self.cache[a] = r
        self.bounds(a, r)
        return r

    def bounds(self, a, r):
        lo, hi = t.atom_bounds(a)
        if lo is not None and a.op not in ("I", "exp", "sum"):
            self.side.append(r >= self.num(lo))
        if hi is not None and a.op not in ("I",):
            self.side.append(r <= self.num(hi))
        if t.atom_pos(a):
            self.side.append(r > 0)
        elif t.atom_nonneg(a) and a.op != "I":
            self.side.append(r >= 0)

    def _atom(self, a):
        op = a.op
        if op in ("var", "bv"):
            return self.name(a, t.atom_sort(a))
        if op == "I":
            return z3.If(self.b(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "div":
            p, d = self.num(a.args[0]), self.num(a.args[1])
            q = self.name(a, "I")
            # floor division for positive divisors, defined by its characteristic inequality
            self.side.append(z3.Implies(d > 0, z3.And(q * d <= p, p < q * d + d)))
            return q
        if op == "floor":
            q = self.name(a, "I")
            p = self.num(a.args[0])
            self.side.append(z3.And(z3.ToReal(q) <= p, p < z3.ToReal(q) + 1))
            return q
        if op == "uf":
            name, sort, args = a.args
            if not args:
                return self.name(a, sort)
            zs = [self.num(x) for x in args]
            self.ground.setdefault((name, len(args)), []).append(args)
            kind = "".join("I" if z.sort() == z3.IntSort() else "R" for z in zs)
            f = z3.Function(f"{name}/{kind}", *[z.sort() for z in zs], z3.IntSort() if sort == "I" else z3.RealSort())
            r = f(*zs)
            inv = t.facts.perm.get(name)
            if inv is not None and kind == "I" * len(zs) and t.facts.hi.get(name) is not None:
                # a permutation: undone by its inverse
                g = z3.Function(f"{inv}/{kind}", *[z.sort() for z in zs], z3.IntSort())
                hi = t.facts.hi[name]
                hi = self.num(hi(*args) if callable(hi) else hi)
                self.side.append(z3.Implies(z3.And(zs[-1] >= 0, zs[-1] <= hi), g(*zs[:-1], r) == zs[-1]))
                back = list(args[:-1]) + [t.atom(a)]
                known = self.ground.setdefault((inv, len(args)), [])
                if back not in known:
                    known.append(back)
            return r
        if op in ("exp", "log"):
            self.abstracted = True
            x = self.num(a.args[0])
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            f = z3.Function(op, z3.RealSort(), z3.RealSort())
            return f(x)
        if op == "pp":
            x = self.num(a.args[0])
            return z3.ToReal(x) if x.sort() == z3.IntSort() else x
        self.abstracted = True
        if op in ("sum", "max", "argmax"):
            # the applications below the binder serve as matching candidates
            for nm, args in patterns(a, None):
                g = self.ground.setdefault((nm, len(args)), [])
                if args not in g:
                    g.append(args)
        return self.name(a, t.atom_sort(a))

    def b(self, b):
        r = self.cache.get(b)
        if r is not None:
            return r
        op = b.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "le":
            r = self.num(b.args[0]) <= 0
        elif op == "eq":
            r = self.num(b.args[0]) == 0
        elif op == "not":
            r = z3.Not(self.b(b.args[0]))
        elif op == "and":
            r = z3.And(*[self.b(x) for x in b.args])
        elif op == "or":
            r = z3.Or(*[self.b(x) for x in b.args])
        elif op == "ufb":
            name, args = b.args
            if not args:
                r = self.name(b, "B")
            else:
                zs = [self.num(x) for x in args]
                self.ground.setdefault((name, len(args)), []).append(args)
                f = z3.Function(f"{name}/b{''.join('I' if z.sort() == z3.IntSort() else 'R' for z in zs)}", *[z.sort() for z in zs], z3.BoolSort())
                r = f(*zs)
        elif op == "var":
            r = self.name(b, "B")
        else:
            self.abstracted = True
            r = self.name(b, "B")
            if op == "any":
                self.quants.append(b)
        self.cache[b] = r
        return r

    def instantiate(self, limit=120):
        """Skolem witness and matching instances of the existentials met (an incomplete but sound quantifier procedure)."""
        done, opened = {}, {}
        count = 0
        for _ in range(3):
            new = False
            for q in list(self.quants):
                if q not in opened:
                    vs, b = [], q
                    if q in _open_cache:
                        vs, b, pats = opened[q] = _open_cache[q]
                    while q not in opened and b.op == "any":
                        n = b.args[0]
                        v = t.fresh_index(n, "k")
                        _, b = t.open_binder(b, v)
                        vs.append((v, n))
                    if q not in opened:
                        opened[q] = _open_cache[q] = (vs, b, patterns(b, [v for v, _ in vs]))
                    done[q] = set()
                    zq = self.b(q)
                    inr = [z3.And(self.num(atom(v)) >= 0, self.num(atom(v)) < self.num(n)) for v, n in vs]
                    # the opened variables themselves serve as the witness
                    self.side.append(z3.Implies(zq, z3.And(*inr, self.b(b))))
                    new = True
                vs, b, pats = opened[q]
                if b is FALSE:
                    continue
                ms = self.matches(pats, [v for v, _ in vs])
                for m in ms + special(b, [v for v, _ in vs], ms):
                    key = tuple(m[v] for v, _ in vs)
                    if key in done[q] or key == tuple(atom(v) for v, _ in vs):
                        continue
                    done[q].add(key)
                    count += 1
                    if count > limit:
                        return
                    mp = {v: m[v] for v, _ in vs}
                    inr = [z3.And(self.num(m[v]) >= 0, self.num(m[v]) < self.num(t.subst(n, mp))) for v, n in vs]
                    self.side.append(z3.Implies(z3.And(*inr, self.b(t.subst(b, mp))), self.b(q)))
                    new = True
            if not new:
                break

    def matches(self, pats, vs):
        out = []

        def go(m, todo):
            if len(out) > 60:
                return
            if all(v in m for v in vs):
                out.append(m)
                return
            for k, (name, args) in enumerate(todo):
                if all(v in m for x in args for v in vs if v in x.fv):
                    continue
                for g in list(self.ground.get((name, len(args)), []))[:40]:
                    m2 = dict(m)
                    ok = True
                    for pa, ga in zip(args, g):
                        un = [v for v in vs if v in pa.fv and v not in m2]
                        if len(un) != 1:
                            continue
                        v = un[0]
                        p2 = t.subst(pa, {w: m2[w] for w in vs if w in m2 and w in pa.fv})
                        lin = t._linear_in(p2, v)
                        if lin is None:
                            ok = False
                            break
                        c, rest = lin
                        if any(w.op == "bv" for w in sub(ga, rest).fv):
                            ok = False
                            break
                        # c*v + rest == ga with c in {1,-1}
                        m2[v] = t.scale(sub(ga, rest), c)
                    if ok and len(m2) > len(m):
                        go(m2, todo[k + 1:])
                if any(v in x.fv and v not in m for x in args for v in vs):
                    pass

        go({}, pats)
        return out


def special(b, vs, ms, limit=12):
    """instances at the values an equation below singles out (v = c), the other variables at values that matched"""
    eqs = {v: [] for v in vs}
    seen = set()

    def walk(x):
        if x in seen or x.fv.isdisjoint(vs):
            return
        seen.add(x)
        if x.op == "eq":
            hit = [v for v in vs if v in x.args[0].fv]
            if len(hit) == 1:
                lin = t._linear_in(x.args[0], hit[0])
                if lin is not None and not any(w.op == "bv" for w in lin[1].fv):
                    c = t.scale(t.neg(lin[1]), lin[0])
                    if c not in eqs[hit[0]]:
                        eqs[hit[0]].append(c)
        for c in t.children(x):
            walk(c)

    if len(vs) > 2:
        return []
    walk(b)
    if not any(eqs.values()):
        return []
    vals = {v: list(eqs[v]) for v in vs}
    for m in ms:
        for v in vs:
            if v in m and m[v] not in vals[v]:
                vals[v].append(m[v])
    out = []
    for combo in itertools.product(*[vals[v] for v in vs]):
        if any(c in eqs[v] for v, c in zip(vs, combo)):
            out.append(dict(zip(vs, combo)))
    return out[:limit]


def patterns(b, vs):
    """function applications in b mentioning the variables vs; those below a further quantifier when no others mention some variable"""
    out = _patterns(b, vs, False)
    if vs is not None and any(all(v not in x.fv for _, args in out for x in args) for v in vs):
        out = _patterns(b, vs, True)
    return out


def _patterns(b, vs, deep):
    out, seen = [], set()

    def walk(x):
        if x in seen or vs is not None and x.fv.isdisjoint(vs):
            return
        seen.add(x)
        if x.op == "uf" and x.args[2]:
            out.append((x.args[0], x.args[2]))
        elif x.op == "ufb" and x.args[1]:
            out.append((x.args[0], x.args[1]))
        elif x.op == "any" and not deep:
            return
        for c in t.children(x):
            walk(c)

    walk(b)
    return out


STEPS = 3000


def z3_check(bs, timeout=2000, model=False):
    """Satisfiability of the conjunction of Bool terms (with background facts)."""
    z = Z()
    s = z3.Solver()
    # the limit is on solver steps, so that the answer does not depend on the load of the machine; the wall clock is a backstop
    s.set("rlimit", timeout * STEPS)
    s.set("timeout", 12 * timeout)
    t0 = time.time()
    stats["z3_calls"] += 1
    try:
        es = [z.b(b) for b in bs]
        if z.quants:
            z.instantiate()
        for e in es:
            s.add(e)
        for e in z.side:
            s.add(e)
        r = s.check()
    except z3.Z3Exception as ex:
        raise Unsupported(f"z3 translation: {ex}")
    finally:
        stats["z3_time"] += time.time() - t0
    if model:
        m = s.model() if r == z3.sat else None
        return r, m, z
    return r


def feasible(bs, timeout=700):
    return z3_check(bs, timeout) != z3.unsat


def prove_bool(b, hyps=(), timeout=1500):
    if b is TRUE:
        return True
    hyps = list(hyps) + facts.path
    if b is FALSE and not hyps:
        return False
    for h in hyps:
        if h is b:
            return True
    return z3_check(hyps + [bnot(b)], timeout) == z3.unsat


_hook_cache = {}
_open_cache = {}


def _hook(b):
    k = (b.id, len(facts.path))
    r = _hook_cache.get(k)
    if r is None:
        try:
            r = prove_bool(b, timeout=300)
        except Unsupported:
            r = False
        _hook_cache[k] = r
    return r


def install():
    _hook_cache.clear()
    _open_cache.clear()
    facts.prove_hook = _hook


# ----------------------------------------------------------------------------- equality prover
class Budget(Exception):
    pass


class Prover:
    def __init__(self, deadline=20.0):
        self.t_end = time.time() + deadline
        self.model = None
        self.why = ""
        self.residual = None

    def tick(self):
        if time.time() > self.t_end:
            raise Budget()

    def equal(self, a, b, hyps=()):
        """'proved' | 'failed' | 'unknown'"""
        try:
            ok = self.zero(t.merge_adjacent(sub(a, b)), list(hyps), 0)
            return "proved" if ok else "failed"
        except Budget:
            self.why = "time budget"
            return "unknown"

    def eq_num(self, a, b, hyps, depth):
        if a is b:
            return True
        return self.zero(sub(a, b), hyps, depth)

    def zero(self, d, hyps, depth):
        self.tick()
        if not d.args:
            stats["nf"] += 1
            return True
        if depth > 14:
            return False
        # use path/hyp equalities
        d = self.apply_eqs(d, hyps + facts.path)
        if not d.args:
            return True
        if is_const(d):
            return self.contradiction(hyps)
        # clear denominators
        d2 = clear(d)
        if not d2.args:
            stats["nf"] += 1
            return True
        d = d2
        # case split on indicators
        i = pick_ind(d)
        if i is not None:
            stats["split"] += 1
            return self.split(d, i, hyps, depth)
        # re-normalise with congruence between binder / function atoms
        d3 = self.congruence(d, hyps, depth)
        if d3 is not None:
            return self.zero(d3, hyps, depth + 1)
        if self.contradiction(hyps):
            return True
        # final arbiter
        r, m, z = z3_check(hyps + facts.path + [bnot(t.eq0(d))], 3000, model=True)
        if r == z3.unsat:
            return True
        self.residual = d
        self.hyps = list(hyps)
        if r == z3.sat:
            self.model = (m, z)
            self.why = "counterexample to abstraction"
        else:
            self.why = "solver returned unknown"
        return False

    def contradiction(self, hyps):
        if not hyps and not facts.path:
            return False
        return z3_check(list(hyps) + facts.path, 1500) == z3.unsat

    def apply_eqs(self, d, hyps):
        for h in hyps:
            if h.op == "eq" and not d.fv.isdisjoint(h.fv):
                s = solve_eq(h.args[0], d.fv)
                if s is not None:
                    v, val = s
                    d = subst(d, {v: val})
        return d

    def split(self, d, i, hyps, depth):
        c = i.args[0]
        for val, cond in ((1, c), (0, bnot(c))):
            h2 = hyps + [cond]
            d2 = set_all(d, i, val)
            d2 = simplify_under(d2, cond)
            if not d2.args:
                continue
            if cond.op in ("le", "eq", "not", "and", "or", "ufb"):
                if not feasible(h2 + facts.path, 600):
                    continue
            if not self.zero(d2, h2, depth + 1):
                return False
        return True

    def congruence(self, d, hyps, depth):
        """Try to merge two atoms of the same kind in d; returns the rewritten polynomial or None."""
        ats = {}
        for m, _ in d.args:
            for a, _ in m:
                if a.op not in ("var", "bv", "I"):
                    ats.setdefault((a.op, a.args[0] if a.op == "uf" else None), []).append(a)
        for (op, _), lst in ats.items():
            lst = list(dict.fromkeys(lst))
            if len(lst) < 2:
                continue
            if len(lst) > 14:
                lst = lst[:14]
            for x in range(len(lst)):
                for y in range(x + 1, len(lst)):
                    a, b = lst[x], lst[y]
                    if (min(a.id, b.id), max(a.id, b.id), len(hyps)) in self._failed:
                        continue
                    self.tick()
                    if self.atoms_equal(a, b, hyps, depth):
                        stats["cong"] += 1
                        return replace_top(d, b, a)
                    self._failed.add((min(a.id, b.id), max(a.id, b.id), len(hyps)))
        # sum vs rest: rewrite sums of different shape is not attempted
        return None

    _failed = None

    def atoms_equal(self, a, b, hyps, depth):
        if depth > 10:
            return False
        op = a.op
        if op == "uf":
            return len(a.args[2]) == len(b.args[2]) and all(
                self.quick_int_eq(p, q, hyps, depth) for p, q in zip(a.args[2], b.args[2])
            )
        if op in ("exp", "log", "pp", "floor"):
            return self.sub_zero(a.args[0], b.args[0], hyps, depth)
        if op == "div":
            return self.sub_zero(a.args[0], b.args[0], hyps, depth) and self.sub_zero(a.args[1], b.args[1], hyps, depth)
        if op in ("sum", "max", "argmax"):
            if a.args[0] is not b.args[0] and not self.sub_zero(a.args[0], b.args[0], hyps, depth):
                return False
            n = a.args[0]
            v = fresh_index(n, "c")
            _, b1 = open_binder(a, v)
            _, b2 = open_binder(b, v)
            if self.sub_zero(b1, b2, hyps, depth):
                return True
            if op == "argmax":
                # equal up to an additive term independent of the index
                w = fresh_index(n, "c")
                _, c1 = open_binder(a, w)
                _, c2 = open_binder(b, w)
                return self.sub_zero(sub(b1, b2), sub(c1, c2), hyps, depth)
            if op == "sum":
                return self.sum_reorder(a, b, hyps, depth)
            return False
        return False

    def sum_reorder(self, a, b, hyps, depth):
        """Sum_i Sum_j f  vs  Sum_j Sum_i g (exchange of summation order)."""
        n1, _, _ = b.args
        v, body = open_binder(b)
        inner = single_sum(body)
        if inner is None:
            return False
        s, rest = inner
        if v in s.args[0].fv:
            return False
        w, ib = open_binder(s)
        ib = mul(rest, ib)
        # swap: outer over w, inner over v
        new = t.sum_close(s.args[0], w, t.sum_close(n1, v, ib))
        if new is atom(b):
            return False
        if is_single_atom(new, "sum"):
            nb = new.args[0][0][0][0]
            if nb is b:
                return False
            if nb is a:
                return True
            if nb.args[0] is a.args[0]:
                v2 = fresh_index(a.args[0], "c")
                _, b1 = open_binder(a, v2)
                _, b2 = open_binder(nb, v2)
                return self.sub_zero(b1, b2, hyps, depth)
            return False
        return self.sub_zero(new, atom(a), hyps, depth)

    def sub_zero(self, p, q, hyps, depth):
        if p is q:
            return True
        m, w, r, h = self.model, self.why, self.residual, getattr(self, "hyps", None)
        ok = self.zero(sub(p, q), hyps, depth + 2)
        self.model, self.why, self.residual, self.hyps = m, w, r, h
        return ok

    def quick_int_eq(self, p, q, hyps, depth):
        if p is q:
            return True
        return self.sub_zero(p, q, hyps, depth + 1)


def is_single_atom(p, op):
    return len(p.args) == 1 and p.args[0][1] == 1 and len(p.args[0][0]) == 1 and p.args[0][0][0][1] == 1 and p.args[0][0][0][0].op == op


def single_sum(body):
    """body = rest * Sum  (one monomial)"""
    if len(body.args) != 1:
        return None
    m, c = body.args[0]
    sums = [(a, e) for a, e in m if a.op == "sum" and e == 1]
    if len(sums) != 1:
        return None
    s = sums[0][0]
    rest = t._poly_from_dict({tuple(x for x in m if x[0] is not s): c})
    return s, rest


def replace_top(d, old, new):
    out = ZERO
    for m, c in d.args:
        term = const(c)
        for a, e in m:
            term = mul(term, t.atom_pow(new if a is old else a, e))
        out = add(out, term)
    return out


def pick_ind(d):
    return t.first_ind(d)


def set_all(d, i, v):
    return t.set_ind(d, i, v)


def solve_eq(p, fv):
    """p == 0 -> (var, value) for a variable with unit coefficient not occurring elsewhere."""
    cand = []
    for m, c in p.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and abs(c) == 1:
            v = m[0][0]
            if v in fv and not any(v in a.fv for mm, _ in p.args for a, _ in mm if a is not v):
                if sum(1 for mm, _ in p.args for a, _ in mm if a is v) == 1:
                    cand.append((v, c))
    if not cand:
        return None
    # prefer generated index variables over user-visible dims
    cand.sort(key=lambda vc: (0 if "!" in vc[0].args[0] else 1, -vc[0].id))
    v, c = cand[0]
    rest = t._poly_from_dict({m: k for m, k in p.args if not (len(m) == 1 and m[0][0] is v)})
    return v, scale(rest, -Fraction(1) / c)


def simplify_under(d, cond):
    if cond.op == "eq":
        s = solve_eq(cond.args[0], d.fv)
        if s is not None:
            return subst(d, {s[0]: s[1]})
    return d


def clear(d):
    """Multiply away negative exponents of polynomial atoms and expand."""
    for _ in range(6):
        neg_ = None
        for m, _c in d.args:
            for a, e in m:
                if e < 0:
                    if neg_ is None or True:
                        neg_ = (a, min(e, (neg_[1] if neg_ and neg_[0] is a else 0)))
                        break
            if neg_:
                break
        if neg_ is None:
            return d
        a = neg_[0]
        e = min(ex for m, _c in d.args for x, ex in m if x is a)
        k = -e
        if a.op == "pp":
            out = ZERO
            for m, c in d.args:
                mm = dict(m)
                r = mm.get(a, 0) + k
                mm.pop(a, None)
                term = t._poly_from_dict({tuple(sorted(mm.items(), key=lambda x: x[0].id)): c})
                if r:
                    if r == int(r):
                        term = mul(term, t.power(a.args[0], int(r)))
                    else:
                        term = mul(term, t.atom_pow(a, r))
                out = add(out, term)
            d = out
        else:
            out = {}
            for m, c in d.args:
                mm = dict(m)
                r = mm.get(a, 0) + k
                if r:
                    mm[a] = int(r) if r == int(r) else r
                else:
                    mm.pop(a, None)
                key = tuple(sorted(mm.items(), key=lambda x: x[0].id))
                out[key] = out.get(key, 0) + c
            d = t._poly_from_dict(out)
        if not d.args:
            return d
    return d


def prove_equal(a, b, hyps=(), deadline=20.0):
    p = Prover(deadline)
    p._failed = set()
    r = p.equal(a, b, hyps)
    return r, p


def prove_goal(b, hyps=(), deadline=20.0):
    """Boolean goal."""
    if b is TRUE:
        return "proved", None
    p = Prover(deadline)
    p._failed = set()
    try:
        r = prove_bool(b, hyps, 4000)
        if r:
            return "proved", p
        if b.op == "eq":
            return p.equal(b.args[0], ZERO, hyps), p
        if b.op == "and":
            for x in b.args:
                r, q = prove_goal(x, hyps, deadline)
                if r != "proved":
                    return r, q
            return "proved", p
        # indicator form
        r = p.equal(ind(b), ONE, hyps)
        return r, p
    except Budget:
        return "unknown", p
