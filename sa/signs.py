"""Sign analysis of closed-form terms: proves that a term is never negative.

The rules: constants; products of factors of known sign; gated values branch by branch, with the gate as a fact; sums
element by element, sums over the same range together; a term that is a nonnegative multiple of a fact."""
from . import terms as T, fort
from .terms import ZERO, ONE, atom, add, sub, neg, mul, lift, subst, c_not
from .ranges import Ctx

MAXDEPTH = 26


class Prover:
    def __init__(self, positive=(), kernels=None, routines=None, fields=(), ascending=()):
        self.pos = set(positive)            # ids of symbols assumed positive
        self.kernels, self.routines = kernels, routines
        self.fields = set(fields)           # names of input arrays that are never negative
        self.ascending = set(ascending)     # names of input arrays of latitudes (in degrees, ascending)
        self.lemmas = {}
        self.obligations = 0

    # ------------------------------------------------------------------ entry
    def nonneg(self, p, ctx, facts=(), depth=0):
        self.obligations += 1
        p = lift(p)
        c = p.const
        if c is not None:
            return c >= 0
        if depth > MAXDEPTH:
            return False
        if p.isint and ctx.prove(p):
            return True
        if all(self._mono(m, c, ctx, facts, depth) for m, c in p.t):
            return True
        for f in tuple(facts) + self._order(p, ctx):
            if self._multiple(p, f, ctx, facts, depth):
                return True
        # gates
        for m, c in p.t:
            for a, e in m:
                at = atom(a)
                if at.kind == 'ite':
                    return self._split(p, at.args[0], ctx, facts, depth)
        if self._sums(p, ctx, facts, depth):
            return True
        return False

    # ------------------------------------------------------------------ products
    def _mono(self, m, c, ctx, facts, depth):
        """the sign of a monomial by the signs of its factors"""
        s = 1 if c > 0 else -1
        for a, e in m:
            if e % 2 == 0:
                continue
            t = self.sign(atom(a), ctx, facts, depth)
            if t is None:
                return False
            if t == 0:
                return True
            s *= t
        return s > 0

    def sign(self, at, ctx, facts, depth):
        """1: >= 0, -1: <= 0, None: unknown"""
        if at.id in self.pos or T._nonneg_atom(at) and not (at.kind == 'fn' and at.args[0] == 'cos'):
            return 1
        if at.kind == 'sym' and at.args[0] == 'pi':
            return 1
        if at.kind in ('ix', 'lv') or at.isint:
            p = T.of_atom(at)
            return 1 if ctx.prove(p) else -1 if ctx.prove(neg(p)) else None
        if at.kind == 'fn':
            n = at.args[0]
            if n in ('exp', 'abs', 'sqrt'):
                return 1
            if n in ('cos', 'sin'):
                return self._trig(n, at.args[1], ctx)
            if n in ('max', 'min'):
                q = any if n == 'max' else all
                if q(self.nonneg(x, ctx, facts, depth + 1) for x in at.args[1:]):
                    return 1
                return None
        if at.kind == 'ref':
            b = at.args[0]
            if b.kind == 'in' and b.args[0] in self.fields:
                return 1
            if b.kind == 'K' and self.kernel(b):
                return 1
            return None
        if at.kind == 'den':
            q = at.args[0]
            return 1 if self.nonneg(q, ctx, facts, depth + 1) else -1 if self.nonneg(neg(q), ctx, facts, depth + 1) \
                else None
        if at.kind in ('ite', 'sum', 'bmax', 'bmin', 'last'):
            p = T.of_atom(at)
            if at.kind == 'ite':
                if self._split(p, at.args[0], ctx, facts, depth):
                    return 1
                if self._split(neg(p), at.args[0], ctx, facts, depth):
                    return -1
                return None
            cnt, body = at.args[0], at.args[1]
            v = T.binder_var(at).single()
            f = T.fresh_lv('s')
            c2 = ctx.with_range(f, ZERO, sub(cnt, ONE))
            if at.kind == 'last':
                cond = T.subst_cond(at.args[1], {v: f})
                val = subst(at.args[2], {v: f})
                c3, f3 = self.assume(c2, facts, cond)
                if self.nonneg(val, c3, f3, depth + 1) and self.nonneg(at.args[3], ctx, facts, depth + 1):
                    return 1
                return None
            b = subst(body, {v: f})
            if self.nonneg(b, c2, facts, depth + 1):
                return 1
            if self.nonneg(neg(b), c2, facts, depth + 1):
                return -1
        return None

    def _trig(self, n, arg, ctx):
        # in units of a quarter turn
        x = T.div(T.scale(arg, 2), T.sym('pi'))

        deg = T.scale(x, 90).single()
        if n == 'cos' and deg is not None and deg.kind == 'ref' and deg.args[0].kind == 'in' and \
                deg.args[0].args[0] in self.ascending:
            return 1                        # latitudes lie between the poles

        def ge(y):
            q = T._clear_positive(y)
            return q.isint and ctx.prove(q)
        if n == 'cos':
            return 1 if ge(sub(ONE, x)) and ge(add(ONE, x)) else None
        if ge(x) and ge(sub(lift(2), x)):
            return 1
        if ge(neg(x)) and ge(add(lift(2), x)):
            return -1
        return None

    # ------------------------------------------------------------------ gates
    def assume(self, ctx, facts, c):
        if c.kind == 'and':
            for x in c.args:
                ctx, facts = self.assume(ctx, facts, x)
            return ctx, facts
        if c.kind in ('ge', 'eq') and not c.args[0].isint:
            f = facts + (c.args[0],)
            return ctx, f + (neg(c.args[0]),) if c.kind == 'eq' else f
        if c.kind == 'not' and c.args[0].kind == 'ge' and not c.args[0].args[0].isint:
            return ctx, facts + (neg(c.args[0].args[0]),)
        return ctx.with_cond(c), facts

    def _split(self, p, c, ctx, facts, depth):
        if c.kind in ('and', 'or'):
            # decide one part at a time
            x = c.args[0]
            rest = c.args[1:]
            if c.kind == 'and':
                r = T.c_and(*rest)
                return self._branch(p, c, r, x, ctx, facts, depth) and \
                    self._branch(p, c, T.FALSE, c_not(x), ctx, facts, depth)
            r = T.c_or(*rest)
            return self._branch(p, c, T.TRUE, x, ctx, facts, depth) and \
                self._branch(p, c, r, c_not(x), ctx, facts, depth)
        d = ctx.decide(c)
        if d is not None:
            return self.nonneg(self.replace(p, c, T.c_const(d)), ctx, facts, depth + 1)
        return self._branch(p, c, T.TRUE, c, ctx, facts, depth) and \
            self._branch(p, c, T.FALSE, c_not(c), ctx, facts, depth)

    def _branch(self, p, c, to, cond, ctx, facts, depth):
        d = ctx.decide(cond)
        if d is False:
            return True
        ctx, facts = self.assume(ctx, facts, cond)
        if ctx.infeasible():
            return True
        return self.nonneg(self.replace(p, c, to), ctx, facts, depth + 1)

    def replace(self, p, c, to):
        """the gates of the outermost level of p with condition c (or its negation), with the condition replaced"""
        out = ZERO
        for m, co in p.t:
            q = lift(1)
            for a, e in m:
                at = atom(a)
                x = T.of_atom(at)
                if at.kind == 'ite':
                    k = at.args[0]
                    if k is c:
                        x = T.ite(to, at.args[1], at.args[2])
                    elif k is c_not(c):
                        x = T.ite(c_not(to), at.args[1], at.args[2])
                q = mul(q, T.power(x, e))
            out = add(out, T.scale(q, co))
        return out

    # ------------------------------------------------------------------ sums over the same range
    def _sums(self, p, ctx, facts, depth):
        groups, rest = {}, ZERO
        for m, c in p.t:
            s = [atom(a) for a, e in m if atom(a).kind == 'sum' and e == 1]
            if not s:
                rest = add(rest, T._mk({m: c}))
                continue
            groups.setdefault(s[-1].args[0], []).append((m, c, s[-1]))
        if not groups or not self.nonneg(rest, ctx, facts, depth + 1):
            return False
        for cnt, ms in groups.items():
            f = T.fresh_lv('s')
            c2 = ctx.with_range(f, ZERO, sub(cnt, ONE))
            body = ZERO
            for m, c, s in ms:
                v = T.binder_var(s).single()
                b = subst(s.args[1], {v: f})
                others = T._mk({tuple((a, e) for a, e in m if a != s.id): c})
                body = add(body, mul(others, b))
            if not self.nonneg(body, c2, facts, depth + 1):
                return False
        return True

    def _order(self, p, ctx):
        """facts about pairs of elements of ascending arrays"""
        if not self.ascending:
            return ()
        r = [x for x in p.atoms() if x.kind == 'ref' and x.args[0].kind == 'in' and
             x.args[0].args[0] in self.ascending]
        return tuple(sub(T.of_atom(x), T.of_atom(y)) for x in r for y in r
                     if x is not y and ctx.prove(sub(x.args[1], y.args[1])))

    # ------------------------------------------------------------------ multiples of facts
    def _multiple(self, p, f, ctx, facts, depth):
        """p = g f with g >= 0 (f >= 0 is a fact)"""
        for m, c in f.t:
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            g = ZERO
            for mm, cc in p.t:
                d = dict(mm)
                if d.get(a) == 1:
                    del d[a]
                    g = add(g, T._mk({tuple(sorted(d.items())): cc}))
            if not g.t:
                continue
            g = T.div(g, lift(c))
            r = sub(p, mul(g, f))
            if r is p:
                continue
            others = tuple(x for x in facts if x is not f)
            return self.nonneg(g, ctx, others, depth + 1) and self.nonneg(r, ctx, others, depth + 1)
        return False

    # ------------------------------------------------------------------ kernels
    def kernel(self, b):
        """is this result of the kernel never negative, whatever its array arguments contain?"""
        if self.kernels is None:
            return False
        name, out, argv = b.args
        k = self.kernels.get(name)
        if k is None:
            return False
        ints, pos = {}, []
        for i, (n, a) in enumerate(zip(k.r.args, argv)):
            if isinstance(a, str) or k.is_array(n):
                continue
            if isinstance(a, T.Cond) or k.r.typ(n) in ('i', 'l'):
                if a.fv:
                    return False
                ints[n] = a
            elif self.nonneg(a, Ctx()):
                pos.append('D:%s:%d' % (name, i))
        key = (name, out, tuple(sorted((n, type(v).__name__, v.id) for n, v in ints.items())), tuple(pos))
        if key not in self.lemmas:
            self.lemmas[key] = False
            try:
                r = k.analyse(self.routines, ints, Ctx())
            except (fort.Unsupported, T.TooBig, T.DivZero):
                return False
            o = r.outs[out]
            p = Prover(list(self.pos) + [T.sym(s).single().id for s in pos], self.kernels, self.routines)
            ctx, e = Ctx(), o
            if isinstance(o, fort.ArrVal):
                e = o.elem
                for i, s in enumerate(o.shape):
                    ctx = ctx.with_range(T.ix(i), ZERO, sub(s, ONE))
            self.lemmas[key] = p.nonneg(e, ctx)
            self.obligations += p.obligations
        return self.lemmas[key]
