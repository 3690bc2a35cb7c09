"""Path exploration, obligations and ghost state of a symbolic execution of the real code."""
import sys
import time
import traceback
from . import terms as t
from . import prover
from .terms import facts, TRUE, FALSE, bnot, band, Unsupported

import builtins as _b


class PathPruned(BaseException):
    pass


class ObligationFailed(Exception):
    pass


class Engine:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.prefix = []
        self.obligations = []  # dicts
        self.rng_ids = {}
        self.notes = set()
        self.deadline = None
        self.paths = 0
        self.pruned = 0
        self.unroll = 2
        self.assumed = set()
        self.seen_ob = set()

    def start_path(self):
        t.facts.reset()
        t._nn_cache.clear()
        t._exp_cache.clear()
        t._log_cache.clear()
        t._mul_cache.clear()
        t._ind_cache.clear()
        prover.install()
        self.pos = 0
        self.rng = ("init",)
        self.nprng = ("npinit",)
        self.site_count = {}
        self.whiles = {}
        self.while_path = {}
        self.uniforms = []
        self.loops = []
        self.loop_states = {}
        self.loop_done = None
        self.comp_stack = []
        self.draws = {}
        self.grad_enabled = True

    # -------------------------------------------------------------- decisions
    def decide(self, b, note=None):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        self.check_time()
        hyps = self.hyps()
        try:
            if prover.prove_bool(b, hyps, 1000):
                return True
            if prover.prove_bool(bnot(b), hyps, 1000):
                return False
        except Unsupported:
            pass
        for v in self.bound_vars():
            if v in b.fv:
                raise Unsupported("branch on a loop index of a parallel loop")
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos][0]
        else:
            site = _site()
            val = True
            self.site_count[site] = self.site_count.get(site, 0) + 1
            if self.site_count[site] > 60:
                raise Unsupported("too many undecided branches at one site")
            # loops: do not follow the same undecided while-condition more than `unroll` times
            self.prefix.append([True, False, site])
        site = self.prefix[self.pos][2]
        if site != _site():
            raise Unsupported("a path could not be followed again")
        self.pos += 1
        self.site_count.setdefault(site, 0)
        facts.path.append(b if val else bnot(b))
        t._nn_cache.clear()
        return val

    def hyps(self):
        return []

    # -------------------------------------------------------------- loops over symbolic ranges
    def bound_vars(self):
        for l in self.loops:
            yield l.var
        for c in self.comp_stack:
            for v in c.vars:
                yield v

    def loop_atoms(self):
        """Loop indices a random draw depends on (each iteration draws afresh)."""
        return [t.atom(v) for v in self.bound_vars()]

    def loop_write(self, st, views, cond, vdims):
        """Called before an in-place write while symbolic loops are active."""
        for l in self.loops:
            l.note_write(st, views, cond)

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic run exhausted")

    def next_path(self):
        """Advance the DFS; False when exhausted."""
        del self.prefix[self.pos:]
        while self.prefix and self.prefix[-1][1]:
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1][0] = False
        self.prefix[-1][1] = True
        return True

    # -------------------------------------------------------------- obligations
    def obligation(self, name, goal=None, eqn=None, hyps=(), implicit=False, budget=20.0, note=""):
        """Discharge a verification condition now; records the outcome."""
        self.check_time()
        key = None
        if implicit:
            g = goal if goal is not None else t.eq(*eqn)
            key = (name, g.id, tuple(h.id for h in hyps), tuple(p.id for p in facts.path))
            if key in self.seen_ob:
                return True
            self.seen_ob.add(key)
            if g is TRUE:
                return True
        t0 = time.time()
        rec = {"name": name, "implicit": implicit, "path": [repr(p)[:200] for p in facts.path], "note": note}
        try:
            if eqn is not None:
                if eqn[0] is eqn[1]:
                    st, pr = "proved", None
                    prover.stats["nf"] += 1
                else:
                    st, pr = prover.prove_equal(eqn[0], eqn[1], hyps, budget)
            else:
                st, pr = prover.prove_goal(goal, hyps, budget)
        except Unsupported as ex:
            st, pr = "unknown", None
            rec["why"] = f"unsupported: {ex}"
        except RecursionError:
            st, pr = "unknown", None
            rec["why"] = "recursion limit"
        rec["status"] = st
        rec["time"] = round(time.time() - t0, 4)
        if st != "proved":
            if eqn is not None:
                rec["lhs"] = repr(eqn[0])[:1500]
                rec["rhs"] = repr(eqn[1])[:1500]
            elif goal is not None:
                rec["goal"] = repr(goal)[:1500]
            if pr is not None:
                rec["why"] = pr.why
                if pr.residual is not None:
                    rec["residual"] = repr(pr.residual)[:1500]
                if pr.model is not None:
                    rec["model"] = model_dict(pr.model)
            rec["site"] = _site()
        self.obligations.append(rec)
        return st == "proved"

    def assume(self, b):
        facts.path.append(b)
        t._nn_cache.clear()

    # -------------------------------------------------------------- randomness (ghost state)
    def rng_id(self, state=None):
        s = self.rng if state is None else state
        i = self.rng_ids.get(s)
        if i is None:
            i = len(self.rng_ids)
            self.rng_ids[s] = i
        return i

    def advance(self):
        i = self.rng_id()
        self.rng = ("adv", i)
        return i

    def np_advance(self):
        i = self.rng_ids.setdefault(self.nprng, len(self.rng_ids))
        self.nprng = ("npadv", i)
        return i


class Loop:
    """Parallel-loop rule for `for v in range(n)`: the body is executed once for an arbitrary iteration v.  Each storage
    location may be written by at most one iteration, and an iteration may read only locations that no other iteration
    writes (checked when the read is evaluated)."""

    def __init__(self, var, lo, n, step):
        self.var, self.lo, self.n, self.step = var, lo, n, step
        self.writes = {}  # id(storage) -> [storage, pre fn, [conds]]
        self.exempt = set()
        self.final = None
        self.carried = {}

    def note_write(self, st, views, cond):
        if id(st) in self.exempt:
            return
        rec = self.writes.get(id(st))
        if rec is None:
            pre = st.fn
            rec = self.writes[id(st)] = [st, pre, []]
            loop = self

            def tracked(b):
                loop.check_read(rec, b)
                return pre(b)

            st.fn = tracked
        views = list(views)

        def c(b):
            r = TRUE
            idx = b
            for v in views:
                ci, idx = v.inv(idx)
                r = band(r, ci)
                if r is FALSE:
                    return r
            return band(r, cond(idx))

        rec[2].append(c)

    def cond_at(self, rec, b):
        return t.bor(*[c(b) for c in rec[2]])

    def solve(self, c):
        """c(v): condition that iteration v writes a location -> (guard, v0): the only v that can"""
        if c is FALSE:
            return FALSE, None
        if self.var not in c.fv:
            raise Unsupported("loop iterations write the same location")
        if c.op == "or":
            sols = [self.solve(x) for x in c.args]
            sols = [s for s in sols if s[0] is not FALSE]
            v0 = sols[0][1]
            for g, v in sols[1:]:
                if v is not v0:
                    raise Unsupported("several loop iterations may write one location")
            return t.bor(*[g for g, _ in sols]), v0
        parts = list(c.args) if c.op == "and" else [c]
        for p in parts:
            if p.op == "eq":
                lin = t._linear_in(p.args[0], self.var)
                if lin is not None:
                    v0 = t.scale(lin[1], -lin[0])
                    rest = t.band(*[x for x in parts if x is not p])
                    g = t.band(t.le(t.ZERO, v0), t.lt(v0, self.n), t.subst(rest, {self.var: v0}))
                    return g, v0
        raise Unsupported("cannot tell which loop iteration writes a location")

    def check_read(self, rec, b):
        if rec[2] == []:
            return
        if self.final is not None and self.final[0] is rec[0] and all(x is y for x, y in zip(self.final[1], b)):
            return  # read of a location by the only iteration that writes it
        c = self.cond_at(rec, b)
        if c is FALSE:
            return
        j = t.fresh_index(self.n, "j")
        cj = t.subst(c, {self.var: t.atom(j)})
        # b itself may contain v (the reading iteration); the writer index in the condition is j
        # rebuild: conditions are functions of v both through b and through the view; evaluate views at j
        old = self.var
        cj = self._cond_other(rec, b, j)
        if cj is FALSE:
            return
        if t.prove(t.bor(bnot(cj), t.eq(t.atom(j), t.atom(old)))):
            return
        raise Unsupported("an iteration reads a location another iteration writes")

    def _cond_other(self, rec, b, j):
        w = t.fresh_index(self.n, "w")
        b2 = tuple(t.subst(x, {self.var: t.atom(w)}) for x in b)
        c = self.cond_at(rec, b2)
        c = t.subst(c, {self.var: t.atom(j)})
        return t.subst(c, {w: t.atom(self.var)})

    def resolve(self, names):
        """After the accumulations are known: storages written with values depending on a carried scalar get the closed
        form of the carried value at their own iteration."""
        names = [n for n in names if n]
        if not names:
            return
        for st, pre, conds in self.writes.values():
            cur = st.fn

            def fn(b, cur=cur):
                val, nan = cur(b)
                for n in names:
                    for x in (val, nan):
                        if _mentions(x, n):
                            raise Unsupported("value written in a loop depends on a loop-carried value")
                return (val, nan)

            st.fn = fn

    def finish(self):
        for st, pre, conds in self.writes.values():
            rec = [st, pre, conds]
            cur = st.fn

            def fn(b, rec=rec, cur=cur, pre=pre):
                c = self.cond_at(rec, b)
                g, v0 = self.solve(c)
                if g is FALSE:
                    return pre(b)
                old, self.final = self.final, (rec[0], b)
                try:
                    val, nan = cur(b)
                finally:
                    self.final = old
                val, nan = t.subst(val, {self.var: v0}), t.subst(nan, {self.var: v0})
                if g is TRUE:
                    return (val, nan)
                ov, on = pre(b)
                if val.op in BOOLOPS:
                    return (t.bite(g, val, ov), t.bite(g, nan, on))
                return (t.ite(g, val, ov), t.bite(g, nan, on))

            cache = {}

            def mfn(b, fn=fn, cache=cache):
                r = cache.get(b)
                if r is None:
                    r = cache[b] = fn(b)
                return r

            st.fn = mfn
        # for the loops around this one a location is written when some iteration of this one writes it
        for outer in E.loops:
            for rec in outer.writes.values():
                rec[2][:] = [self._closed(c) for c in rec[2]]

    def _closed(self, c):
        def closed(b):
            w = None
            if any(self.var in x.fv for x in b):
                w = t.fresh_index(self.n, "w")
                b = tuple(t.subst(x, {self.var: t.atom(w)}) for x in b)
            r = c(b)
            if self.var in r.fv:
                r = t.any_close(self.n, self.var, r)
            return r if w is None else t.subst(r, {w: t.atom(self.var)})

        return closed


def _mentions(x, name):
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op in ("uf", "var", "ufb") and y.args[0] == name:
            return True
        stack.extend(t.children(y))
    return False


BOOLOPS = ("true", "false", "and", "or", "not", "le", "eq", "any", "ufb")


def model_dict(mz):
    m, z = mz
    out = {}
    try:
        for tm, zv in z.names.items():
            if tm.op == "var":
                v = m.eval(zv)
                if v is not None:
                    out[tm.args[0]] = str(v)
    except Exception as ex:  # pragma: no cover
        out["error"] = str(ex)
    return out


def _site():
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if "/vc/" not in fn and not fn.startswith("<frozen") and "/lib/python" not in fn:
            return f"{fn}:{f.f_lineno}"
        f = f.f_back
    return "?"


E = Engine()
