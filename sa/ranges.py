"""Interval / linear reasoning over symbolic sizes, and simplification of
gated terms under index ranges."""
from fractions import Fraction
from . import terms as T
from .terms import (Poly, Cond, Lam, Base, ZERO, ONE, add, sub, mul, neg, num, subst, subst_cond,
                    c_and, c_not, c_or, TRUE, FALSE, ite, of_atom, atom, lift)

PARAM_MIN = {}        # atom id -> minimal integer value


def declare_param(p, minimum):
    PARAM_MIN[p.single().id] = minimum
    if minimum > 0:
        T.declare_positive(p)


class Ctx:
    __slots__ = ('ranges', 'facts', '_memo', 'smemo')

    def __init__(self, ranges=None, facts=()):
        self.ranges = dict(ranges or {})
        self.facts = tuple(facts)
        self._memo = {}
        self.smemo = {}

    def with_range(self, var, lo, hi):
        a = var.single() if isinstance(var, Poly) else var
        r = dict(self.ranges)
        r[a] = (lift(lo), lift(hi))
        return Ctx(r, self.facts)

    def with_cond(self, c):
        """assume c"""
        if c is TRUE:
            return self
        if c.kind == 'and':
            x = self
            for y in c.args:
                x = x.with_cond(y)
            return x
        if c.kind == 'ge' and c.args[0].isint:
            p = c.args[0]
            r = self._tighten(p)
            if r is not None:
                return r
            return Ctx(self.ranges, self.facts + (p,))
        if c.kind == 'eq' and c.args[0].isint:
            p = c.args[0]
            x = self.with_cond(T.c_ge(p))
            return x.with_cond(T.c_ge(neg(p)))
        return Ctx(self.ranges, self.facts + (c,))

    def _tighten(self, p):
        # p >= 0 with a unit-coefficient ranged variable -> refine its range
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                a = atom(m[0][0])
                if a in self.ranges:
                    rest = sub(p, T._mk({m: c}))
                    if a in rest.fv:
                        continue
                    # avoid circular ranges
                    if any(v in self.ranges and a in (self.ranges[v][0].fv | self.ranges[v][1].fv)
                           for v in rest.fv):
                        continue
                    lo, hi = self.ranges[a]
                    if c == 1:
                        nlo = neg(rest)
                        if self.prove(sub(nlo, lo)):
                            return self.with_range(a, nlo, hi)
                        if self.prove(sub(lo, nlo)):
                            return self
                    else:
                        if self.prove(sub(hi, rest)):
                            return self.with_range(a, lo, rest)
                        if self.prove(sub(rest, hi)):
                            return self
        return None

    # ------------------------------------------------------------ proving
    def prove(self, p, depth=0):
        """p >= 0 for all values in range?"""
        c = p.const
        if c is not None:
            return c >= 0
        r = self._memo.get(p.id)
        if r is None:
            self._memo[p.id] = False
            r = self._prove(p, 0)
            self._memo[p.id] = r
        return r

    def _prove(self, p, depth):
        c = p.const
        if c is not None:
            return c >= 0
        if depth > 24:
            return False
        # piecewise atoms
        for m, co in p.t:
            for a, e in m:
                at = atom(a)
                if e != 1:
                    continue
                if at.kind == 'fn' and at.args[0] in ('max', 'min') and len(m) == 1:
                    rest = sub(p, T._mk({m: co}))
                    alts = [add(rest, T.scale(x, co)) for x in at.args[1:]]
                    good = (at.args[0] == 'max') == (co > 0)
                    if good:
                        return any(self._prove(x, depth + 1) for x in alts)
                    return all(self._prove(x, depth + 1) for x in alts)
                if at.kind == 'ite' and len(m) == 1:
                    rest = sub(p, T._mk({m: co}))
                    c1 = self.with_cond(at.args[0])
                    c2 = self.with_cond(c_not(at.args[0]))
                    return (c1._prove(add(rest, T.scale(at.args[1], co)), depth + 1) and
                            c2._prove(add(rest, T.scale(at.args[2], co)), depth + 1))
                if at.kind == 'fn' and at.args[0] in ('mod', 'floordiv', 'idiv') and len(m) == 1:
                    k = at.args[2].const
                    if k and k > 0:
                        rest = sub(p, T._mk({m: co}))
                        if at.args[0] == 'mod':
                            b = ZERO if co > 0 else num(k - 1)
                        else:
                            x = at.args[1]
                            if at.args[0] == 'idiv' and not self._prove(x, depth + 1):
                                continue
                            b = T.scale(sub(x, num(k - 1)), Fraction(1, k)) if co > 0 \
                                else T.scale(x, Fraction(1, k))
                        if self._prove(add(rest, T.scale(b, co)), depth + 1):
                            return True
        # eliminate ranged variables, those no other range depends on first
        vs = [a for a in p.fv if a in self.ranges and self._linear_coef(p, a) is not None]
        deps = set()
        for v in vs:
            lo, hi = self.ranges[v]
            deps |= (lo.fv | hi.fv)
        order = [v for v in vs if v not in deps] or vs
        for v in order:
            co = self._linear_coef(p, v)
            if co is None:
                continue
            lo, hi = self.ranges[v]
            k = co.const
            if k is None:
                s = self._prove(co, depth + 1)
                if s:
                    k = 1
                elif self._prove(neg(co), depth + 1):
                    k = -1
                else:
                    continue
            q = subst(p, {v: lo if k > 0 else hi})
            if self._prove(q, depth + 1):
                return True
            break
        # parameters at their minima
        if self._params(p):
            return True
        # facts
        if depth < 6:
            for f in self.facts:
                if isinstance(f, Cond):
                    continue
                for m, c in f.t:
                    if m == ():
                        continue
                    for m2, c2 in p.t:
                        if m2 == m and (c2 > 0) == (c > 0):
                            lam = Fraction(c2) / c
                            q = sub(p, T.scale(f, lam))
                            if len(q.t) <= max(len(p.t), 2) and q is not p:
                                c0 = Ctx(self.ranges, tuple(g for g in self.facts if g is not f))
                                if c0._prove(q, depth + 1):
                                    return True
        return False

    def _linear_coef(self, p, a):
        co = {}
        for m, c in p.t:
            hit = [(x, e) for x, e in m if a in atom(x).fv]
            if not hit:
                continue
            if len(hit) != 1 or atom(hit[0][0]) is not a or hit[0][1] != 1:
                return None
            co[tuple(y for y in m if y[0] != hit[0][0])] = c
        return T._mk(co)

    def _params(self, p):
        mp = []
        for m, c in p.t:
            for a, e in m:
                if e < 0:
                    return False
                if a not in PARAM_MIN:
                    return False
                mp.append(a)
        # substitute sym = min + s, check all coefficients >= 0
        out = {}
        for m, c in p.t:
            acc = {(): c}
            for a, e in m:
                mn = PARAM_MIN[a]
                for _ in range(e):
                    nx = {}
                    for mm, cc in acc.items():
                        d = dict(mm)
                        d[a] = d.get(a, 0) + 1
                        k = tuple(sorted(d.items()))
                        nx[k] = nx.get(k, 0) + cc
                        if mn:
                            nx[mm] = nx.get(mm, 0) + cc * mn
                    acc = nx
            for k, v in acc.items():
                out[k] = out.get(k, 0) + v
        return all(v >= 0 for v in out.values())

    def decide(self, c):
        """True / False / None for a condition"""
        k = c.kind
        if k == 'true':
            return True
        if k == 'false':
            return False
        if c in self.facts:
            return True
        n = c_not(c)
        if n in self.facts:
            return False
        if k == 'ge':
            p = c.args[0]
            if p.isint:
                if self.prove(p):
                    return True
                if self.prove(sub(neg(p), ONE)):
                    return False
            else:
                r = self.real_sign(p)
                if r == '+' or r == '0':
                    return True
                if r == '-':
                    return False
            return None
        if k == 'eq':
            p = c.args[0]
            if p.isint:
                if self.prove(sub(p, ONE)) or self.prove(sub(neg(p), ONE)):
                    return False
                if self.prove(p) and self.prove(neg(p)):
                    return True
            else:
                q = T._clear_positive(p)
                if q is not p and q.isint:
                    return self.decide(T.c_eq(q))
                r = self.real_sign(p)
                if r in ('+', '-'):
                    return False
                if r == '0':
                    return True
            return None
        if k == 'not':
            r = self.decide(c.args[0])
            return None if r is None else (not r)
        if k == 'and':
            rs = [self.decide(x) for x in c.args]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
            for f in self.facts:
                if isinstance(f, Cond) and f.kind == 'or':
                    nf = c_not(f)
                    if nf.kind == 'and' and all(x in c.args or self.decide(x) is True for x in nf.args):
                        return False
            return None
        if k == 'or':
            rs = [self.decide(x) for x in c.args]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            return None
        return None

    def real_sign(self, p):
        """'+', '-', '0' (definite) or None, for index-polynomials over positive scalings"""
        if not p.t:
            return '0'
        q = T._clear_positive(p)
        if q.isint:
            if self.prove(sub(q, ONE)):
                return '+'
            if self.prove(sub(neg(q), ONE)):
                return '-'
        return None

    def infeasible(self):
        for a, (lo, hi) in self.ranges.items():
            if self.prove(sub(sub(lo, hi), ONE)):
                return True
        for f in self.facts:
            if isinstance(f, Poly) and Ctx(self.ranges, tuple(g for g in self.facts if g is not f)).prove(
                    sub(neg(f), ONE)):
                return True
        return False


_stack = []


def _cur_prove(p):
    if not _stack:
        return Ctx().prove(p)
    return _stack[-1].prove(p)


T.RANGE_PROVER[0] = _cur_prove


class using:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        _stack.append(self.ctx)

    def __exit__(self, *a):
        _stack.pop()


# ---------------------------------------------------------------- simplification

def simplify(p, ctx):
    with using(ctx):
        return _simp(p, ctx)


def _has_gate(p):
    r = _gate_memo.get(p.id)
    if r is None:
        r = False
        for m, c in p.t:
            for a, e in m:
                at = atom(a)
                if at.kind in ('ite', 'sum', 'bmax', 'bmin', 'last'):
                    r = True
                elif at.kind == 'ref':
                    r = any(_has_gate(x) for x in at.args[1:]) or at.args[0].fv != frozenset()
                elif at.kind in ('fn', 'den'):
                    r = any(_has_gate(x) if isinstance(x, Poly) else isinstance(x, (Cond, Lam))
                            for x in at.args)
                if r:
                    break
            if r:
                break
        _gate_memo[p.id] = r
    return r


_gate_memo = {}


def _simp(p, ctx):
    if not _has_gate(p):
        return p
    r = ctx.smemo.get(p.id)
    if r is not None:
        return r
    parts = []
    for m, c in p.t:
        t = T._mk({(): c})
        for a, e in m:
            at = atom(a)
            s = _simp_atom(at, ctx)
            if s.single() is at:
                t = mul(t, T._mk({((a, e),): 1}))
            else:
                t = mul(t, T.power(s, e))
        parts.append(t)
    r = T.addn(parts)
    ctx.smemo[p.id] = r
    return r


def _simp_arg(x, ctx):
    if isinstance(x, Poly):
        return _simp(x, ctx)
    if isinstance(x, Cond):
        return simp_cond(x, ctx)
    return x


def simp_cond(c, ctx):
    d = ctx.decide(c)
    if d is not None:
        return T.c_const(d)
    k = c.kind
    if k == 'ge':
        q = _simp(c.args[0], ctx)
        return c if q is c.args[0] else T.c_ge(q)
    if k == 'eq':
        q = _simp(c.args[0], ctx)
        return c if q is c.args[0] else T.c_eq(q)
    if k == 'not':
        return c_not(simp_cond(c.args[0], ctx))
    if k == 'and':
        return c_and(*[simp_cond(x, ctx) for x in c.args])
    if k == 'or':
        return c_or(*[simp_cond(x, ctx) for x in c.args])
    return c


def _simp_atom(at, ctx):
    k = at.kind
    if k == 'ite':
        c = simp_cond(at.args[0], ctx)
        if c is TRUE:
            return _simp(at.args[1], ctx)
        if c is FALSE:
            return _simp(at.args[2], ctx)
        ca = ctx.with_cond(c)
        cb = ctx.with_cond(c_not(c))
        with using(ca):
            a = _simp(at.args[1], ca)
        with using(cb):
            b = _simp(at.args[2], cb)
        # a pointwise special case that agrees with the general formula
        if c.kind == 'eq' and c.args[0].isint:
            v, val = _solve_var(c.args[0], ctx)
            if v is not None:
                try:
                    if subst(a, {v: val}) is subst(b, {v: val}):
                        return b
                except T.DivZero:
                    pass
        return ite(c, a, b)
    if k == 'ref':
        idx = [_simp(x, ctx) for x in at.args[1:]]
        return T.ref(at.args[0], *idx)
    if k == 'fn':
        if at.args[0] == 'special':
            return of_atom(at)
        args = [_simp_arg(x, ctx) for x in at.args[1:]]
        if at.args[0] in ('max', 'min') and len(args) >= 2:
            # drop dominated arguments
            keep = list(args)
            for x in list(keep):
                for y in keep:
                    if y is not x:
                        d = sub(x, y) if at.args[0] == 'min' else sub(y, x)
                        if d.isint and ctx.prove(d):
                            keep.remove(x)
                            break
            args = keep
        return T.fn(at.args[0], *args)
    if k == 'den':
        q = _simp(at.args[0], ctx)
        return q
    if k == 'sum':
        cnt = _simp(at.args[0], ctx)
        bvar = T.binder_var(at)
        f = T.fresh_lv('s')
        c2 = ctx.with_range(f, ZERO, sub(cnt, ONE))
        with using(c2):
            body = _simp(subst(at.args[1], {bvar.single(): f}), c2)
        with using(ctx):
            return _sum_split(f, ZERO, sub(cnt, ONE), body, ctx, 0)
    if k in ('bmax', 'bmin'):
        cnt = _simp(at.args[0], ctx)
        bvar = T.binder_var(at)
        f = T.fresh_lv('s')
        c2 = ctx.with_range(f, ZERO, sub(cnt, ONE))
        with using(c2):
            body = _simp(subst(at.args[1], {bvar.single(): f}), c2)
        return T.bred(k, f, ZERO, sub(cnt, ONE), body)
    if k == 'last':
        cnt = _simp(at.args[0], ctx)
        bvar = T.binder_var(at)
        f = T.fresh_lv('s')
        c2 = ctx.with_range(f, ZERO, sub(cnt, ONE))
        with using(c2):
            cond = simp_cond(subst_cond(at.args[1], {bvar.single(): f}), c2)
            val = _simp(subst(at.args[2], {bvar.single(): f}), c2)
        return T.blast(f, ZERO, sub(cnt, ONE), cond, val, _simp(at.args[3], ctx))
    return of_atom(at)


def _solve_var(p, ctx):
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            a = atom(m[0][0])
            if a.kind in ('lv', 'ix', 'bv'):
                rest = sub(p, T._mk({m: c}))
                if a not in rest.fv:
                    return a, (neg(rest) if c == 1 else rest)
    return None, None


def _sum_split(v, lo, hi, body, ctx, depth):
    """sum with the range split at conditions on the summation variable"""
    va = v.single()
    if depth < 6:
        for m, c in body.t:
            for a, e in m:
                at = atom(a)
                if at.kind == 'ite' and va in at.args[0].fv and at.args[0].kind in ('ge', 'eq'):
                    q = at.args[0].args[0]
                    if not q.isint:
                        continue
                    co = ctx._linear_coef(q, va)
                    if co is None or co.const not in (1, -1):
                        continue
                    rest = sub(q, mul(co, v))
                    if at.args[0].kind == 'eq':
                        cut = neg(rest) if co.const == 1 else rest
                        if ctx.prove(sub(cut, lo)) and ctx.prove(sub(hi, cut)):
                            return T.addn([
                                subst_simp(body, va, cut, ctx),
                                _sum_ranged(v, lo, sub(cut, ONE), body, ctx, depth + 1),
                                _sum_ranged(v, add(cut, ONE), hi, body, ctx, depth + 1)])
                        continue
                    # v >= -rest   or   v <= rest
                    if co.const == 1:
                        cut = neg(rest)
                    else:
                        cut = add(rest, ONE)
                    # split into [lo, cut-1] and [cut, hi]
                    if ctx.prove(sub(cut, lo)) and ctx.prove(sub(add(hi, ONE), cut)):
                        return add(_sum_ranged(v, lo, sub(cut, ONE), body, ctx, depth + 1),
                                   _sum_ranged(v, cut, hi, body, ctx, depth + 1))
    return T.bsum(v, lo, hi, body)


def subst_simp(body, va, val, ctx):
    return _simp(subst(body, {va: val}), ctx)


def _sum_ranged(v, lo, hi, body, ctx, depth):
    n = sub(hi, lo).const
    if n is not None and n < 0:
        return ZERO
    c2 = ctx.with_range(v, lo, hi)
    with using(c2):
        b = _simp(body, c2)
    with using(ctx):
        return _sum_split(v, lo, hi, b, ctx, depth)


# ---------------------------------------------------------------- equality

def index_conds(p, ctx):
    """undecided integer conditions over in-context variables only"""
    out = []

    def f(n):
        if isinstance(n, T.Atom) and n.kind == 'ite':
            for c in _conj(n.args[0]):
                if c.kind in ('ge', 'eq') and c.args[0].isint and c not in out:
                    fv = c.fv
                    if fv and all(v in ctx.ranges for v in fv):
                        out.append(c)
                    elif not fv and not T.bases_in(c):
                        out.append(c)
    T.walk(p, f)
    return out


def _conj(c):
    if c.kind in ('and', 'or', 'not'):
        for x in c.args:
            yield from _conj(x)
    else:
        yield c


def point_vars(ctx):
    """variables whose range is a single point -> substitution"""
    mp = {}
    for a, (lo, hi) in ctx.ranges.items():
        if lo is hi:
            mp[a] = lo
    return mp


def prove_equal(a, b, ctx, depth=0, budget=None):
    """True if a == b is proved for all values of the context, else False"""
    if budget is None:
        budget = [400]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if a is b:
        return True
    if ctx.infeasible():
        return True
    mp = point_vars(ctx)
    try:
        if mp:
            a = subst(a, mp)
            b = subst(b, mp)
        a = simplify(a, ctx)
        b = simplify(b, ctx)
        if a is b:
            return True
        d = simplify(sub(a, b), ctx)
    except (T.DivZero, T.TooBig):
        return False
    if not d.t:
        return True
    if clear_den(d) is ZERO:
        return True
    if depth > 14:
        return False
    cs = index_conds(d, ctx)
    if not cs:
        return False
    c = cs[0]
    return (prove_equal(a, b, ctx.with_cond(c), depth + 1, budget) and
            prove_equal(a, b, ctx.with_cond(c_not(c)), depth + 1, budget))


def clear_den(d):
    """multiply through by the denominators and re-expand"""
    try:
        for _ in range(6):
            den = None
            for m, c in d.t:
                for a, e in m:
                    if e < 0 and atom(a).kind == 'den':
                        den = (a, max(-e, den[1]) if den and den[0] == a else -e)
                        break
                if den:
                    break
            if not den:
                return d
            a, _e = den
            k = max(-e for m, c in d.t for x, e in m if x == a)
            q = atom(a).args[0]
            out = []
            for m, c in d.t:
                e0 = 0
                rest = []
                for x, e in m:
                    if x == a:
                        e0 = e
                    else:
                        rest.append((x, e))
                out.append(mul(T._mk({tuple(rest): c}), T.power(q, k + e0)))
            d = T.addn(out)
        return d
    except T.TooBig:
        return d
