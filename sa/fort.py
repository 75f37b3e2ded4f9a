"""Abstract interpretation of the Fortran kernels over closed-form terms."""
import glob
import os
from fractions import Fraction
from . import terms as T
from . import fparse
from .terms import (Poly, Cond, Lam, Base, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, div, num, lift, ite, ix,
                    subst, subst_cond, subst_any, c_and, c_or, c_not, c_ge, c_eq, c_gt, lam, ref, fn)
from .ranges import Ctx, simplify, using, simp_cond
from .loops import Loc, solve


LET_LIMIT = 70      # node count above which a summarised array is named


def named(v, shape):
    if T.bigger(v, LET_LIMIT):
        w = T.let(v, shape)
        if w is not None:
            return w
    return v


class Unsupported(Exception):
    pass


class ArrVal:
    __slots__ = ('shape', 'elem', 'lb', 'typ')

    def __init__(self, shape, elem, lb=None, typ='r'):
        self.shape = tuple(shape)
        self.elem = elem
        self.lb = lb
        self.typ = typ

    def at(self, idx):
        return subst_any(self.elem, {T._IXS[i]: idx[i] for i in range(len(self.shape))})

    def lam(self):
        return lam(self.shape, self.elem)


def watched(key):
    return '$oob|' + '|'.join(str(x) for x in key)


class KernelResult:
    def __init__(self):
        self.outs = {}        # name -> ArrVal | Poly
        self.order = []
        self.bounds = []
        self.nloops = 0
        self.nstmts = 0
        self.name = None


class Obl:
    __slots__ = ('kernel', 'array', 'axis', 'line', 'idx', 'dim', 'ok', 'ctx', 'nest', 'live', 'inputs', 'kind',
                 'key')

    def __repr__(self):
        return '%s:%d %s axis %d: index %s of %s %s' % (self.kernel, self.line, self.array, self.axis + 1,
                                                        self.idx + ONE, self.dim, 'ok' if self.ok else 'UNPROVED')


INTRIN = {'exp', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'log', 'alog', 'sqrt', 'abs', 'float', 'real', 'dble',
          'int', 'ifix', 'nint', 'mod', 'modulo', 'max', 'min', 'amax1', 'amin1', 'maxval', 'minval', 'sum', 'size',
          'matmul', 'dot_product', 'merge', 'sign', 'floor', 'ceiling', 'count', 'any', 'all', 'transpose', 'sngl',
          'huge', 'tiny', 'spread', 'cshift', 'atan2', 'dim', 'epsilon', 'product', 'aint', 'anint', 'iabs', 'max0',
          'min0', 'maxloc', 'minloc', 'reshape', 'lbound', 'ubound', 'logical', 'present', 'isnan'}


def load_routines(src_dir):
    out = {}
    files = sorted(glob.glob(os.path.join(src_dir, '*.f90')) + glob.glob(os.path.join(src_dir, '*.f')) +
                   glob.glob(os.path.join(src_dir, '*.F90')))
    for f in files:
        with open(f) as fh:
            rs = fparse.parse_file(f, fh.read())
        for n, r in rs.items():
            out[n] = r
    return out


def assigned_names(stmts, routines, out=None):
    """names syntactically modified by a statement list"""
    if out is None:
        out = set()
    for s in stmts:
        k = s[0]
        if k == 'assign':
            out.add(s[1][1])
            _expr_calls(s[2], routines, out)
        elif k == 'do':
            out.add(s[1])
            assigned_names(s[5], routines, out)
        elif k == 'while':
            assigned_names(s[2], routines, out)
        elif k == 'if':
            for c, b in s[1]:
                assigned_names(b, routines, out)
            assigned_names(s[2], routines, out)
        elif k == 'where':
            assigned_names(s[2], routines, out)
            assigned_names(s[3], routines, out)
        elif k == 'callsub':
            q = routines.get(s[1])
            written = None if q is None else modified(q, routines)
            for i, a in enumerate(s[2]):
                dummy = q.args[i] if q is not None and i < len(q.args) else None
                if a[0] == 'kw':
                    dummy, a = a[1], a[2]
                if a[0] in ('name', 'call') and (written is None or dummy is None or dummy in written):
                    out.add(a[1])
        elif k == 'allocate':
            out.add(s[1])
            r = routines.get(s[1])
            if r is not None and r.host is not None:
                out |= hosted(r, routines)
    return out


def modified(r, routines):
    """dummy arguments that a routine may modify"""
    if getattr(r, '_modified', None) is None:
        r._modified = set(r.args)       # while in progress (recursion)
        names = assigned_names(r.body, r.scope(routines))
        r._modified = {n for n in r.args if n in names and r.decls.get(n, {}).get('intent') != 'in'}
    return r._modified


def hosted(r, routines, seen=()):
    """names of the host that a contained routine may modify"""
    if r in seen:
        return set()
    return {n for n in assigned_names(r.body, r.scope(routines)) if not r.local(n)}


def _expr_calls(e, routines, out):
    return


class Analyzer:
    """analyse one routine for symbolic sizes.  args: list (positional) of Poly (ints), Cond (logicals),
    Poly (real scalars) or ArrVal; None for pure outputs."""

    def __init__(self, routines, ctx, kernel):
        self.routines = routines
        self.ctx0 = ctx
        self.kernel = kernel
        self.bounds = []
        self.bseen = {}
        self.nloops = 0
        self.nstmts = 0
        self.depth = 0
        self.nest = []
        self.watch = ()         # obligations to follow through the states: (routine, kind, array, axis, line)

    # ---- entry
    def run(self, routine, args, ctx=None, host=None):
        ctx = ctx or self.ctx0
        fr = Frame(self, routine)
        st = {}
        for n, v in (host or {}).items():       # host association
            if not routine.local(n) and not n.startswith('$'):
                st[n] = v
        ai = dict(zip(routine.args, args))
        # integers first (they size the arrays)
        for n in routine.args:
            v = ai.get(n)
            if isinstance(v, (Poly, Cond)):
                st[n] = v
        for n, d in routine.decls.items():
            if d.get('param') is not None:
                st[n] = fr.ev(d['param'], st, ctx, TRUE)[0]
        for n in routine.args:
            v = ai.get(n)
            d = routine.decls.get(n, {})
            if isinstance(v, ArrVal):
                shp, lb = fr.dims(d.get('dims'), st, ctx) if d.get('dims') else (v.shape, None)
                if any(s is None for s in shp):
                    shp = v.shape
                fr.shapes_declared[n] = shp
                st[n] = ArrVal(shp, v.elem, lb, routine.typ(n))
            elif v is None:
                if d.get('dims'):
                    shp, lb = fr.dims(d['dims'], st, ctx)
                    b = T.base('unset', (self.kernel, n), shp)
                    st[n] = ArrVal(shp, ref(b, *[ix(i) for i in range(len(shp))]), lb, routine.typ(n))
                else:
                    st[n] = ref(T.base('unset', (self.kernel, n), ()))
        for n, d in routine.decls.items():
            if n in st:
                continue
            st.pop(n, None)
            if d.get('dims') and all(hi is not None for lo, hi in d['dims']):
                shp, lb = fr.dims(d['dims'], st, ctx)
                b = T.base('undef', (self.kernel, routine.name + '%' + n), shp)
                st[n] = ArrVal(shp, ref(b, *[ix(i) for i in range(len(shp))]), lb, routine.typ(n))
            if d.get('init') is not None:
                st[n] = fr.ev(d['init'], st, ctx, TRUE)[0]
        for w in self.watch:
            st[watched(w)] = FALSE
        st = fr.block(routine.body, st, ctx)
        # returns
        for kind, lab, cond, s2 in fr.take('return'):
            st = fr.merge_into(st, s2, cond)
        if fr.jumps:
            raise Unsupported('%s: jump to unknown label %r' % (routine.name, fr.jumps[0][1]))
        return st, fr


class Frame:
    def __init__(self, an, routine):
        self.an = an
        self.r = routine
        self.jumps = []
        self.live = TRUE
        self.shapes_declared = {}
        self.scope = routine.scope(an.routines)

    # ---- dims
    def dims(self, dims, st, ctx):
        shp, lb = [], []
        for lo, hi in dims:
            if hi is None:
                shp.append(None)
                lb.append(ONE)
                continue
            l = self.ev(lo, st, ctx, TRUE)[0]
            h = self.ev(hi, st, ctx, TRUE)[0]
            shp.append(add(sub(h, l), ONE))
            lb.append(l)
        return tuple(shp), (None if all(l is ONE for l in lb) else lb)

    # ---- jumps
    def take(self, kind, label=None):
        got = [j for j in self.jumps if j[0] == kind and (label is None or j[1] == label)]
        self.jumps = [j for j in self.jumps if j not in got]
        return got

    def merge_into(self, st, other, cond):
        """state = cond ? other : st ; updates self.live"""
        if st is None:
            self.live = cond
            return other
        out = self.join(cond, other, st)
        self.live = c_or(self.live, cond)
        return out

    def join(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        out = {}
        for n in set(a) | set(b):
            x = a.get(n)
            y = b.get(n)
            if x is None:
                x = self.undef(n, y)
            if y is None:
                y = self.undef(n, x)
            out[n] = self.select(c, x, y)
        return out

    def select(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, ArrVal) or isinstance(y, ArrVal):
            if x.elem is y.elem:
                return x
            return ArrVal(x.shape, named(ite(c, x.elem, y.elem), x.shape), x.lb, x.typ)
        if isinstance(x, Cond) or isinstance(y, Cond):
            return c_or(c_and(c, x), c_and(c_not(c), y))
        return ite(c, x, y)

    def undef(self, n, like):
        if isinstance(like, ArrVal):
            b = T.base('undef', (self.an.kernel, self.r.name + '%' + n), like.shape)
            return ArrVal(like.shape, ref(b, *[ix(i) for i in range(len(like.shape))]), like.lb, like.typ)
        if isinstance(like, Cond):
            return T.c_opaque('undef', self.an.kernel + '%' + n)
        return ref(T.base('undef', (self.an.kernel, self.r.name + '%' + n), (), self.r.typ(n) == 'i'))

    # ---- statements
    def block(self, stmts, st, ctx):
        for s in stmts:
            if s[0] == 'label':
                for j in self.take('goto', s[1]):
                    st = self.merge_into(st, j[3], j[2])
                continue
            if st is None:
                continue
            st = self.stmt(s, st, ctx)
        return st

    def stmt(self, s, st, ctx):
        self.an.nstmts += 1
        k = s[0]
        if k == 'assign':
            return self.assign(s[1], s[2], st, ctx, s[3])
        if k == 'if':
            return self.do_if(s, st, ctx)
        if k == 'do':
            return self.loop(s, st, ctx)
        if k == 'while':
            return self.while_(s, st, ctx)
        if k == 'where':
            return self.where(s, st, ctx)
        if k in ('goto', 'exit', 'cycle', 'return', 'stop'):
            if k == 'stop':
                return None
            lab = s[1] if k in ('goto', 'exit', 'cycle') else None
            self.jumps.append((k, lab, self.live, st))
            self.live = FALSE
            return None
        if k == 'callsub':
            return self.call(s[1], s[2], st, ctx, s[3])
        if k == 'allocate':
            shp, lb = self.dims(s[2], st, ctx)
            b = T.base('undef', (self.an.kernel, self.r.name + '%' + s[1]), shp)
            return dict(st, **{s[1]: ArrVal(shp, ref(b, *[ix(i) for i in range(len(shp))]), lb, self.r.typ(s[1]))})
        if k == 'bad':
            raise Unsupported('%s:%d %s' % (self.r.path, s[2], s[1]))
        raise Unsupported(k)

    def do_if(self, s, st, ctx):
        live0 = self.live
        results = []
        rest = TRUE
        base_ctx = ctx
        for c, body in s[1] + ([(None, s[2])]):
            if c is None:
                cond = TRUE
            else:
                cond = self.ev(c, st, ctx, rest)[0]
                cond = self.tocond(cond)
                cond = simp_cond(cond, ctx)
            here = c_and(rest, cond)
            if here is FALSE:
                continue
            cx = ctx.with_cond(cond)
            self.live = c_and(live0, here)
            st2 = self.block(body, dict(st), cx)
            results.append((cond, st2, self.live))
            rest = c_and(rest, c_not(cond))
            ctx = ctx.with_cond(c_not(cond))
            if rest is FALSE:
                break
        # combine from the last
        out = None
        live = FALSE
        for cond, st2, lv_ in reversed(results):
            if out is None:
                out = st2
            elif st2 is None:
                pass
            else:
                out = self.join(cond, st2, out)
            live = c_or(live, lv_) if st2 is not None else live
        # conditions recombine: (live0 & c) | (live0 & !c) == live0
        if all(x[1] is not None and x[2] is c_and(live0, cc) for x, cc in zip(results, self._heres(results))):
            live = live0
        self.live = live
        return out

    def _heres(self, results):
        rest = TRUE
        out = []
        for cond, _, _ in results:
            out.append(c_and(rest, cond))
            rest = c_and(rest, c_not(cond))
        return out

    def tocond(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Poly):
            # logical kept as 0/1
            return c_not(c_eq(v))
        raise Unsupported('condition')

    def loop(self, s, st, ctx):
        _, var, lo, hi, step, body, line, name = s
        an = self.an
        an.nloops += 1
        lo = self.ev(lo, st, ctx, TRUE)[0]
        hi = self.ev(hi, st, ctx, TRUE)[0]
        stp = 1
        if step is not None:
            sv = self.ev(step, st, ctx, TRUE)[0]
            stp = sv.const
            if stp is None:
                raise Unsupported('%s:%d symbolic loop step' % (self.r.path, line))
        if stp == 0:
            raise Unsupported('zero step')
        if stp == 1:
            cnt = add(sub(hi, lo), ONE)
        elif stp == -1:
            cnt = add(sub(lo, hi), ONE)
        else:
            cnt = fn('floordiv', add(sub(hi, lo), num(stp)), num(stp))
        cnt = simplify(cnt, ctx)
        if not ctx.prove(cnt):
            cnt = fn('max', cnt, ZERO)
        if cnt.const == 0:
            st = dict(st)
            st[var] = lo
            return st
        t = T.fresh_lv('t')
        val = add(lo, T.scale(t, stp))
        mod = assigned_names(body, self.scope) - {var}
        mod |= {watched(w) for w in an.watch}
        mod = {m for m in mod if m in st or True}
        inner = dict(st)
        inner[var] = val
        locs = {}
        for n in sorted(mod):
            cur = st.get(n)
            if cur is None:
                d = self.r.decls.get(n, {})
                if n in self.scope or (d.get('param') is not None):
                    continue
                cur = self.undef(n, FALSE if self.r.typ(n) == 'l' else ZERO)
            L, v = self.mkloc(n, cur)
            locs[n] = (L, cur)
            inner[n] = v
        tc = ctx.with_range(t, ZERO, sub(cnt, ONE))
        saved = (self.jumps, self.live)
        self.jumps = []
        self.live = TRUE
        an.nest.append((t, cnt, var))
        end = self.block(body, inner, tc)
        an.nest.pop()
        for j in self.take('cycle'):
            if j[1] is not None and j[1] != name:
                self.jumps.append(j)
                continue
            end = self.merge_into(end, j[3], j[2])
        exits = self.jumps
        self.jumps, self.live = saved
        return self.finish_loop(st, end, exits, locs, t, cnt, ctx, var, val, lo, stp, name)

    def mkloc(self, n, cur):
        if isinstance(cur, ArrVal):
            ph = T.phi(n)
            L = Loc(n, cur.shape, cur.elem, ph)
            P = T.phiarr(ph, cur.shape)
            return L, ArrVal(cur.shape, ref(P, *[ix(i) for i in range(len(cur.shape))]), cur.lb, cur.typ)
        if isinstance(cur, Cond):
            ph = T.phi(n, True)
            return Loc(n, None, T.ind(cur), ph), c_not(c_eq(ph))
        ph = T.phi(n, self.r.typ(n) == 'i')
        return Loc(n, None, cur, ph), ph

    def back(self, n, cur, v):
        """final value of a location as a state value"""
        if isinstance(cur, ArrVal):
            v = named(v, cur.shape)
            return ArrVal(cur.shape, v, cur.lb, cur.typ)
        if isinstance(cur, Cond):
            return c_not(c_eq(v)) if v.const is None else T.c_const(v.const != 0)
        return v

    def raw(self, v):
        if isinstance(v, ArrVal):
            return v.elem
        if isinstance(v, Cond):
            return T.ind(v)
        return v

    def finish_loop(self, st, end, exits, locs, t, cnt, ctx, var, val, lo, stp, name):
        out = dict(st)
        L = []
        for n, (l, cur) in locs.items():
            if end is not None:
                l.E = self.raw(end.get(n, cur))
            else:
                l.E = l.phi if l.shape is None else ref(T.phiarr(l.phi, l.shape),
                                                        *[ix(i) for i in range(len(l.shape))])
            if l.E is (l.phi if l.shape is None else None):
                # unmodified scalar
                if not any(self.raw(j[3].get(n)) is not l.phi for j in exits if n in j[3]):
                    l.E = None
            L.append(l)
        changed = [l for l in L if l.E is not None]
        for l in L:
            if l.E is None:
                for o in changed:
                    o.E = subst(o.E, {l.patom: l.init})
        if not exits:
            solve(t, cnt, changed, ctx)
            for n, (l, cur) in locs.items():
                if l.E is None and l.final is None:
                    if n in st:
                        out[n] = cur
                    continue
                out[n] = self.back(n, cur, l.final)
            out[var] = add(lo, T.scale(cnt, stp))
            return out
        # loop with exits
        kinds = []
        for j in exits:
            kk = (j[0], j[1])
            if kk not in kinds:
                kinds.append(kk)
        ec = c_or(*[j[2] for j in exits])
        vals = {}
        for l in changed:
            v = None
            for j in reversed(exits):
                x = self.raw(j[3].get(l.name, locs[l.name][1]))
                v = x if v is None else ite(j[2], x, v)
            for o in L:
                if o.E is None:
                    v = subst(v, {o.patom: o.init})
            vals[l.name] = v
        kl = None
        if len(kinds) > 1:
            ph = T.phi('$kind', True)
            kl = Loc('$kind', None, ZERO, ph)
            kl.E = ph
            v = None
            for j in reversed(exits):
                x = num(kinds.index((j[0], j[1])))
                v = x if v is None else ite(j[2], x, v)
            vals['$kind'] = v
            changed.append(kl)
        for l in changed:
            if l.E is None:
                l.E = l.phi
        exited, xv, it = solve(t, cnt, changed, ctx, (ec, vals))
        ex = dict(st)
        for n, (l, cur) in locs.items():
            if l in changed:
                out[n] = self.back(n, cur, l.final)
                ex[n] = self.back(n, cur, xv[n])
        out[var] = add(lo, T.scale(cnt, stp))
        ex[var] = add(lo, T.scale(it, stp))
        res = out
        live0 = self.live
        after_live = c_and(live0, c_not(exited))
        for i, kk in enumerate(kinds):
            kc = exited if len(kinds) == 1 else c_and(exited, c_eq(sub(xv['$kind'], num(i))))
            if kk[0] == 'exit' and (kk[1] is None or kk[1] == name):
                res = self.join(kc, ex, res)
                after_live = c_or(after_live, c_and(live0, kc))
            else:
                self.jumps.append((kk[0], kk[1], c_and(live0, kc), ex))
        # exit-only loops always reach the next statement
        if all(k[0] == 'exit' and (k[1] is None or k[1] == name) for k in kinds):
            after_live = live0
        self.live = after_live
        return res

    def while_(self, s, st, ctx):
        _, c, body, line, name = s
        an = self.an
        an.nloops += 1
        t = T.fresh_lv('w')
        cnt = T.sym('WHILEMAX', True)
        mod = assigned_names(body, self.scope) | {watched(w) for w in an.watch}
        inner = dict(st)
        locs = {}
        for n in sorted(mod):
            cur = st.get(n)
            if cur is None:
                cur = self.undef(n, FALSE if self.r.typ(n) == 'l' else ZERO)
            L, v = self.mkloc(n, cur)
            locs[n] = (L, cur)
            inner[n] = v
        tc = ctx.with_range(t, ZERO, sub(cnt, ONE))
        saved = (self.jumps, self.live)
        self.jumps = []
        self.live = TRUE
        an.nest.append((t, cnt, '$while'))
        cond = self.tocond(self.ev(c, inner, tc, TRUE)[0])
        if cond is not TRUE:
            self.jumps.append(('exit', None, c_not(cond), dict(inner)))
        self.live = cond
        end = self.block(body, dict(inner), tc.with_cond(cond))
        an.nest.pop()
        for j in self.take('cycle'):
            end = self.merge_into(end, j[3], j[2])
        exits = self.jumps
        self.jumps, self.live = saved
        return self.finish_loop(st, end, exits, locs, t, cnt, ctx, '$while', t, ZERO, 1, name)

    def where(self, s, st, ctx):
        _, c, body, els, line = s
        m, mt = self.ev(c, st, ctx, TRUE)
        if not isinstance(m, ArrVal):
            raise Unsupported('where')
        for stmts, pos in ((body, True), (els, False)):
            for b in stmts:
                if b[0] != 'assign':
                    raise Unsupported('where body')
                lhs = b[1]
                old = self.ev(lhs, st, ctx, TRUE)[0]
                new, nt = self.ev(b[2], st, ctx, TRUE)
                ne = new.elem if isinstance(new, ArrVal) else new
                cc = m.elem if pos else c_not(m.elem)
                st = self.store(lhs, ArrVal(old.shape, ite(cc, ne, old.elem)), nt, st, ctx, line)
        return st

    def call(self, name, args, st, ctx, line):
        r = self.scope.get(name)
        if r is None:
            raise Unsupported('%s:%d call to unknown routine %s' % (self.r.path, line, name))
        self.an.depth += 1
        if self.an.depth > 8:
            raise Unsupported('recursion')
        vals = []
        targets = []
        pos = {n: None for n in r.args}
        for i, a in enumerate(args):
            if a[0] == 'kw':
                pos[a[1]] = a[2]
            else:
                pos[r.args[i]] = a
        for n in r.args:
            a = pos[n]
            it = r.decls.get(n, {}).get('intent')
            tgt = a if a is not None and self.is_lvalue(a, st) else None
            v = None
            if a is not None:
                try:
                    v = self.ev(a, st, ctx, TRUE, quiet=(it == 'out'))[0]
                except KeyError:
                    v = None
            vals.append(v)
            targets.append(tgt if it != 'in' else None)
        end, fr = self.an.run(r, vals, ctx, self.hoststate(r, st))
        self.an.depth -= 1
        if r.host is not None and end is not None:
            st = dict(st)
            for n in hosted(r, self.an.routines):
                if n in end:
                    st[n] = end[n]
        for w in self.an.watch:
            if end is not None and end.get(watched(w), FALSE) is not FALSE:
                st = dict(st)
                st[watched(w)] = c_or(st.get(watched(w), FALSE), end[watched(w)])
        mod = assigned_names(r.body, r.scope(self.an.routines))
        for n, tgt, v in zip(r.args, targets, vals):
            if tgt is not None and n in mod and end is not None and n in end:
                nv = end[n]
                if isinstance(nv, ArrVal) and isinstance(v, ArrVal):
                    nv = ArrVal(v.shape, nv.elem, None, nv.typ)
                st = self.store(tgt, nv, r.typ(n), st, ctx, line)
        return st

    def hoststate(self, r, st):
        if r.host is None:
            return None
        if r.host is self.r:
            return st
        # a sibling: what this routine holds by host association
        return {n: v for n, v in st.items() if not self.r.local(n)}

    def used(self):
        """names occurring in the host of this routine"""
        h = self.r.host or self.r
        if not hasattr(h, '_used'):
            out = set()

            def walk(x):
                if isinstance(x, (tuple, list)):
                    for y in x:
                        walk(y)
                elif isinstance(x, str):
                    out.add(x)
            walk(h.body)
            h._used = out
        return h._used

    def is_lvalue(self, a, st):
        if a[0] == 'name':
            return True
        return a[0] == 'call' and isinstance(st.get(a[1]), ArrVal)

    # ---- assignment
    def assign(self, lhs, rhs, st, ctx, line):
        v, t = self.ev(rhs, st, ctx, TRUE, line=line)
        return self.store(lhs, v, t, st, ctx, line)

    def store(self, lhs, v, t, st, ctx, line):
        n = lhs[1]
        st = dict(st)
        cur = st.get(n)
        if lhs[0] == 'name':
            if cur is None and isinstance(v, ArrVal) and v.shape and (self.r.decls.get(n) or {}).get('dims'):
                # an allocatable takes the shape of its first value
                e = T.ind(v.elem) if isinstance(v.elem, Cond) else v.elem
                st[n] = ArrVal(v.shape, self.conv(e, t, self.r.typ(n)), None, self.r.typ(n))
            elif isinstance(cur, ArrVal):
                if isinstance(v, ArrVal):
                    self.conform(v.shape, cur.shape, n, line, st, ctx)
                    e = v.elem
                else:
                    e = v
                if isinstance(e, Cond):
                    e = T.ind(e)
                v = self.conv(e, t, cur.typ)
                if not self.an.nest:
                    v = named(v, cur.shape)
                st[n] = ArrVal(cur.shape, v, cur.lb, cur.typ)
            else:
                if isinstance(v, ArrVal):
                    if not v.shape:
                        v = v.elem
                    else:
                        raise Unsupported('%s:%d array assigned to scalar %s' % (self.r.path, line, n))
                ty = self.r.typ(n)
                if ty == 'l':
                    v = self.tocond(v)
                else:
                    v = self.conv(v, t, ty)
                st[n] = v
            return st
        if not isinstance(cur, ArrVal):
            raise Unsupported('%s:%d subscript of non-array %s' % (self.r.path, line, n))
        subs = lhs[2]
        sec = self.section(cur, n, subs, st, ctx, line)
        conds = []
        mp = {}
        k = 0
        for ax, x in enumerate(sec):
            if x[0] == 'i':
                conds.append(c_eq(sub(ix(ax), x[1])))
            elif x[0] == 'v':
                raise Unsupported('vector subscript store')
            else:
                _, start, stp, cnt = x
                full = start is ZERO and stp == 1 and cnt is cur.shape[ax]
                if stp == 1:
                    mp[k] = sub(ix(ax), start)
                elif stp == -1:
                    mp[k] = sub(start, ix(ax))
                else:
                    mp[k] = fn('floordiv', sub(ix(ax), start), num(stp))
                    conds.append(c_eq(fn('mod', sub(ix(ax), start), num(stp))))
                if not full:
                    conds.append(c_ge(mp[k]))
                    conds.append(c_ge(sub(sub(cnt, ONE), mp[k])))
                k += 1
        if isinstance(v, ArrVal):
            if len(v.shape) != k:
                raise Unsupported('%s:%d rank mismatch storing to %s' % (self.r.path, line, n))
            self.conform(v.shape, tuple(x[3] for x in sec if x[0] == 's'), n, line, st, ctx)
            # rename simultaneously
            e = subst_any(v.elem, {T._IXS[i]: mp[i] for i in range(k)})
        else:
            e = v
        if isinstance(e, Cond):
            e = T.ind(e)
        e = self.conv(e, t, cur.typ)
        c = c_and(*conds)
        ic = ctx
        for i, s_ in enumerate(cur.shape):
            ic = ic.with_range(ix(i), ZERO, sub(s_, ONE))
        c = simp_cond(c, ic)
        v = ite(c, e, cur.elem)
        if not self.an.nest:
            v = named(v, cur.shape)
        st[n] = ArrVal(cur.shape, v, cur.lb, cur.typ)
        return st

    def conv(self, v, t, ty):
        if ty == 'i' and t == 'r' and isinstance(v, Poly):
            return fn('int', v)
        return v

    # ---- sections
    def section(self, arr, n, subs, st, ctx, line):
        if len(subs) != len(arr.shape):
            raise Unsupported('%s:%d rank of %s' % (self.r.path, line, n))
        out = []
        for ax, s in enumerate(subs):
            lb = arr.lb[ax] if arr.lb else ONE
            if s[0] == 'slice':
                _, lo, hi, stp = s
                sp = 1
                if stp is not None:
                    sp = self.ev(stp, st, ctx, TRUE)[0].const
                    if sp is None:
                        raise Unsupported('symbolic stride')
                l = sub(self.ev(lo, st, ctx, TRUE)[0], lb) if lo is not None else (
                    ZERO if sp > 0 else sub(arr.shape[ax], ONE))
                h = sub(self.ev(hi, st, ctx, TRUE)[0], lb) if hi is not None else (
                    sub(arr.shape[ax], ONE) if sp > 0 else ZERO)
                if sp == 1:
                    cnt = add(sub(h, l), ONE)
                elif sp == -1:
                    cnt = add(sub(l, h), ONE)
                else:
                    cnt = fn('floordiv', add(sub(h, l), num(sp)), num(sp))
                if lo is not None or hi is not None:
                    some = c_ge(sub(cnt, ONE))
                    self.oblige(arr, n, ax, l, ctx, line, st, some)
                    self.oblige(arr, n, ax, h, ctx, line, st, some)
                out.append(('s', l, sp, cnt))
            else:
                v = self.ev(s, st, ctx, TRUE, line=line)[0]
                if isinstance(v, ArrVal):
                    self.oblige(arr, n, ax, sub(v.elem, lb), ctx.with_range(ix(0), ZERO, sub(v.shape[0], ONE)), line)
                    out.append(('v', v, lb))
                    continue
                i = sub(v, lb)
                self.oblige(arr, n, ax, i, ctx, line, st)
                out.append(('i', i))
        return out

    def oblige(self, arr, n, ax, i, ctx, line, st=None, some=TRUE):
        """0 <= i < extent of axis ax (only where the condition some holds)"""
        self._oblige('subscript', n, ax, i, arr.shape[ax], ctx, line, st, some)

    def conform(self, a, b, n, line, st=None, ctx=None):
        if len(a) != len(b):
            raise Unsupported('%s:%d shape mismatch %s' % (self.r.path, line, n))
        if ctx is not None:
            for ax, (x, y) in enumerate(zip(a, b)):
                # extent x as the last subscript of an axis of extent y, and the other way round
                if x is not y:
                    self._oblige('extent', n, ax, sub(x, ONE), y, ctx, line, st, TRUE, exact=True)

    def _oblige(self, kind, n, ax, i, dim, ctx, line, st, some, exact=False):
        an = self.an
        line = line or 0
        key = (self.r.name, kind, n, ax, line)
        if key in an.watch and st is not None:
            out = c_not(c_eq(sub(sub(dim, ONE), i))) if exact else \
                c_and(some, c_or(c_not(c_ge(i)), c_not(c_ge(sub(sub(dim, ONE), i)))))
            st[watched(key)] = c_or(st.get(watched(key), FALSE), out)
        seen = key + (i.id, ctx and id(ctx))
        if seen in an.bseen:
            return
        an.bseen[seen] = True
        o = Obl()
        o.kernel = self.r.name
        o.array = n
        o.axis = ax
        o.line = line
        o.kind = kind
        o.idx = i
        o.dim = dim
        o.ctx = ctx
        o.nest = list(an.nest)
        o.live = self.live
        cx = ctx if some is TRUE else ctx.with_cond(some)
        top = sub(sub(dim, ONE), i)
        o.ok = cx.prove(top) and (cx.prove(neg(top)) if exact else cx.prove(i))
        o.key = key
        an.bounds.append(o)

    # ---- expressions: returns (value, type)
    def ev(self, e, st, ctx, guard, line=None, quiet=False):
        self._line = line if line is not None else getattr(self, '_line', 0)
        return self._ev(e, st, ctx)

    def _ev(self, e, st, ctx):
        k = e[0]
        if k == 'num':
            if e[2]:
                return num(int(e[1])), 'i'
            return num(Fraction(e[1])), 'r'
        if k == 'log':
            return T.c_const(e[1]), 'l'
        if k == 'str':
            return ZERO, 'c'
        if k == 'name':
            n = e[1]
            v = st.get(n)
            if v is None:
                d = self.r.decls.get(n)
                v = self.undef(n, FALSE if self.r.typ(n) == 'l' else ZERO)
            if isinstance(v, Cond):
                return v, 'l'
            if isinstance(v, ArrVal):
                return v, v.typ
            return v, self.r.typ(n)
        if k == 'un':
            v, t = self._ev(e[2], st, ctx)
            if e[1] == '-':
                return self.map1(neg, v), t
            return self.map1(lambda c: c_not(self.tocond(c)), v), 'l'
        if k == 'bin':
            return self.binop(e[1], e[2], e[3], st, ctx)
        if k == 'arr':
            parts, at, ty = [], ZERO, None
            for x in e[1]:
                if x[0] == 'ido':
                    n, el, ty = self.implied_do(x, st, ctx)
                else:
                    v, ty = self._ev(x, st, ctx)
                    if isinstance(v, ArrVal):
                        if len(v.shape) != 1:
                            raise Unsupported('rank in constructor')
                        n, el = v.shape[0], v.elem
                    else:
                        n, el = ONE, v
                parts.append((at, el))
                at = add(at, n)
            el = None
            for a, x in reversed(parts):
                if isinstance(x, Poly):
                    x = subst(x, {T._IXS[0]: sub(ix(0), a)})
                el = x if el is None else ite(c_ge(sub(sub(nxt, ONE), ix(0))), x, el)
                nxt = a
            return ArrVal((at,), el, None, ty), ty
        if k == 'call':
            return self.callexpr(e, st, ctx)
        raise Unsupported('expression %r' % (k,))

    def implied_do(self, x, st, ctx):
        _, xs, var, lo, hi, step = x
        if len(xs) != 1:
            raise Unsupported('implied do of several items')
        lo, hi = self._ev(lo, st, ctx)[0], self._ev(hi, st, ctx)[0]
        sp = 1 if step is None else self._ev(step, st, ctx)[0].const
        if not sp:
            raise Unsupported('implied do stride')
        cnt = add(sub(hi, lo), ONE) if sp == 1 else fn('floordiv', add(sub(hi, lo), num(sp)), num(sp))
        t = T.fresh_lv('c')
        s2 = dict(st)
        s2[var] = add(lo, T.scale(t, sp))
        v, ty = self._ev(xs[0], s2, ctx.with_range(t, ZERO, sub(cnt, ONE)))
        if not isinstance(v, Poly):
            raise Unsupported('implied do item')
        return cnt, subst(v, {t.single(): ix(0)}), ty

    def map1(self, f, v):
        if isinstance(v, ArrVal):
            return ArrVal(v.shape, f(v.elem), None, v.typ)
        return f(v)

    def map2(self, f, a, b):
        if isinstance(a, ArrVal) or isinstance(b, ArrVal):
            shp = a.shape if isinstance(a, ArrVal) else b.shape
            if isinstance(a, ArrVal) and isinstance(b, ArrVal) and len(a.shape) != len(b.shape):
                raise Unsupported('rank mismatch in expression')
            x = a.elem if isinstance(a, ArrVal) else a
            y = b.elem if isinstance(b, ArrVal) else b
            return ArrVal(shp, f(x, y))
        return f(a, b)

    def binop(self, op, ea, eb, st, ctx):
        a, ta = self._ev(ea, st, ctx)
        b, tb = self._ev(eb, st, ctx)
        if isinstance(a, ArrVal) and isinstance(b, ArrVal) and len(a.shape) == len(b.shape):
            self.conform(a.shape, b.shape, '(operands)', self._line, st, ctx)
        if op in ('and', 'or', '.eqv.', '.neqv.'):
            def f(x, y):
                x, y = self.tocond(x), self.tocond(y)
                if op == 'and':
                    return c_and(x, y)
                if op == 'or':
                    return c_or(x, y)
                eq = c_or(c_and(x, y), c_and(c_not(x), c_not(y)))
                return eq if op == '.eqv.' else c_not(eq)
            return self.map2(f, a, b), 'l'
        if op in ('==', '/=', '<', '<=', '>', '>='):
            def g(x, y):
                if isinstance(x, Cond) or isinstance(y, Cond):
                    x, y = T.ind(self.tocond(x)), T.ind(self.tocond(y))
                d = sub(x, y)
                if op == '==':
                    return c_eq(d)
                if op == '/=':
                    return c_not(c_eq(d))
                if op == '<=':
                    return c_ge(neg(d))
                if op == '>=':
                    return c_ge(d)
                if op == '<':
                    return c_gt(neg(d)) if (ta, tb) == ('i', 'i') else c_not(c_ge(d))
                return c_gt(d) if (ta, tb) == ('i', 'i') else c_not(c_ge(neg(d)))
            return self.map2(g, a, b), 'l'
        t = 'i' if (ta == 'i' and tb == 'i') else 'r'
        if op == '+':
            return self.map2(add, a, b), t
        if op == '-':
            return self.map2(sub, a, b), t
        if op == '*':
            return self.map2(mul, a, b), t
        if op == '/':
            if t == 'i':
                return self.map2(lambda x, y: fn('idiv', x, y), a, b), t
            def dv(x, y):
                try:
                    return div(x, y)
                except T.DivZero:
                    return T.divzero()
            return self.map2(dv, a, b), t
        if op == '**':
            if tb == 'i':
                t = ta
            return self.map2(lambda x, y: T.power(x, y), a, b), t
        raise Unsupported(op)

    def callexpr(self, e, st, ctx):
        n, args = e[1], e[2]
        v = st.get(n)
        if isinstance(v, ArrVal):
            sec = self.section(v, n, args, st, ctx, self._line)
            if all(x[0] == 'i' for x in sec):
                return v.at([x[1] for x in sec]), v.typ
            idx = []
            shp = []
            k = 0
            for x in sec:
                if x[0] == 'i':
                    idx.append(x[1])
                elif x[0] == 'v':
                    idx.append(sub(subst(x[1].elem, {T._IXS[0]: ix(k)}), x[2]))
                    shp.append(x[1].shape[0])
                    k += 1
                else:
                    idx.append(add(x[1], T.scale(ix(k), x[2])))
                    shp.append(x[3])
                    k += 1
            return ArrVal(tuple(shp), v.at(idx), None, v.typ), v.typ
        if n in self.scope and (n not in INTRIN or n in self.r.inner or self.r.host and n in self.r.host.inner):
            return self.usercall(n, args, st, ctx)
        if n not in INTRIN:
            raise Unsupported('%s:%s unknown function %s' % (self.r.path, self._line, n))
        kw = {a[1]: a[2] for a in args if a[0] == 'kw'}
        pa = [a for a in args if a[0] != 'kw']
        vals = [self._ev(a, st, ctx) for a in pa]
        kwv = {k: self._ev(a, st, ctx) for k, a in kw.items()}
        return self.intrinsic(n, vals, kwv, ctx)

    def usercall(self, n, args, st, ctx):
        r = self.scope[n]
        self.an.depth += 1
        if self.an.depth > 8:
            raise Unsupported('recursion')
        pos = {}
        for i, a in enumerate(args):
            pos[a[1] if a[0] == 'kw' else r.args[i]] = a[2] if a[0] == 'kw' else a
        vals = [self._ev(pos[q], st, ctx)[0] for q in r.args]
        if any(isinstance(x, ArrVal) and not r.decls.get(q, {}).get('dims') for x, q in zip(vals, r.args)):
            raise Unsupported('%s:%s elemental call of %s' % (self.r.path, self._line, n))
        mod = assigned_names(r.body, r.scope(self.an.routines))
        if r.host is not None and hosted(r, self.an.routines) & self.used():
            raise Unsupported('%s:%s function %s with side effects' % (self.r.path, self._line, n))
        if any(q in mod for q in r.args):
            raise Unsupported('%s:%s function %s modifies its arguments' % (self.r.path, self._line, n))
        line = self._line
        end, fr = self.an.run(r, vals, ctx, self.hoststate(r, st))
        self._line = line
        self.an.depth -= 1
        v = end[r.result]
        return v, r.typ(r.result)

    def intrinsic(self, n, vals, kw, ctx):
        v = vals[0][0] if vals else None
        t = vals[0][1] if vals else 'r'
        one = {'exp': 'exp', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'acos': 'arccos', 'asin': 'arcsin',
               'atan': 'arctan', 'log': 'log', 'alog': 'log', 'sqrt': 'sqrt'}
        if n in one:
            return self.map1(lambda x: fn(one[n], x), v), 'r'
        if n in ('abs', 'iabs'):
            return self.map1(lambda x: fn('abs', x), v), t
        if n in ('float', 'real', 'dble', 'sngl'):
            return v, 'r'
        if n in ('int', 'ifix'):
            return self.map1(lambda x: fn('int', x) if t == 'r' else x, v), 'i'
        if n == 'aint':
            return self.map1(lambda x: fn('int', x), v), 'r'
        if n == 'nint':
            return self.map1(lambda x: fn('floor', add(x, num(Fraction(1, 2)))), v), 'i'
        if n == 'floor':
            return self.map1(lambda x: fn('floor', x), v), 'i'
        if n == 'ceiling':
            return self.map1(lambda x: neg(fn('floor', neg(x))), v), 'i'
        if n in ('mod', 'modulo'):
            if t != 'i':
                raise Unsupported('real mod')
            return self.map2(lambda x, y: fn('mod', x, y), v, vals[1][0]), 'i'
        if n in ('max', 'min', 'amax1', 'amin1', 'max0', 'min0'):
            f = 'max' if 'max' in n else 'min'
            r = v
            for x, _ in vals[1:]:
                r = self.map2(lambda a, b: fn(f, a, b), r, x)
            return r, ('i' if all(x[1] == 'i' for x in vals) else 'r')
        if n in ('maxval', 'minval', 'sum', 'count', 'any', 'all'):
            a = v
            dim = kw.get('dim')
            if dim is None and len(vals) > 1 and isinstance(vals[1][0], Poly):
                dim = vals[1]
            mask = kw.get('mask')
            if mask is None and len(vals) > 1 and isinstance(vals[1][0], ArrVal):
                mask = vals[1]
            el = a.elem
            if n in ('count', 'any', 'all'):
                if n == 'all':
                    el = c_not(el)
                el = T.ind(el)
            if mask is not None:
                if n != 'sum':
                    raise Unsupported('mask')
                el = ite(mask[0].elem, el, ZERO)
            axes = list(range(len(a.shape)))
            if dim is not None:
                axes = [dim[0].const - 1]
            for ax in reversed(axes):
                vv = T.fresh_lv('r')
                body = subst(el, {T._IXS[ax]: vv})
                hi = sub(a.shape[ax], ONE)
                if n in ('sum', 'count', 'any', 'all'):
                    with using(ctx.with_range(vv, ZERO, hi)):
                        el = T.bsum(vv, ZERO, hi, body)
                else:
                    el = T.bred('bmax' if n == 'maxval' else 'bmin', vv, ZERO, hi, body)
            if dim is not None:
                keep = [i for i in range(len(a.shape)) if i not in axes]
                el = subst(el, {T._IXS[o]: ix(k) for k, o in enumerate(keep)})
                return ArrVal(tuple(a.shape[i] for i in keep), el), t
            if n in ('any', 'all'):
                c = c_not(c_eq(el))
                return (c if n == 'any' else c_not(c)), 'l'
            return el, ('i' if n == 'count' else t)
        if n == 'size':
            if len(vals) > 1:
                return v.shape[vals[1][0].const - 1], 'i'
            if 'dim' in kw:
                return v.shape[kw['dim'][0].const - 1], 'i'
            r = ONE
            for s in v.shape:
                r = mul(r, s)
            return r, 'i'
        if n == 'matmul':
            a, b = v, vals[1][0]
            vv = T.fresh_lv('m')
            if len(a.shape) == 2 and len(b.shape) == 2:
                x = subst(a.elem, {T._IXS[1]: vv})
                y = subst(b.elem, {T._IXS[0]: vv})
                shp = (a.shape[0], b.shape[1])
            elif len(a.shape) == 2:
                x = subst(a.elem, {T._IXS[1]: vv})
                y = subst(b.elem, {T._IXS[0]: vv})
                shp = (a.shape[0],)
            else:
                x = subst(a.elem, {T._IXS[0]: vv})
                y = subst(b.elem, {T._IXS[0]: vv, T._IXS[1]: ix(0)})
                shp = (b.shape[1],)
            hi = sub(a.shape[-1], ONE)
            with using(ctx.with_range(vv, ZERO, hi)):
                return ArrVal(shp, T.bsum(vv, ZERO, hi, mul(x, y))), 'r'
        if n == 'dot_product':
            vv = T.fresh_lv('m')
            hi = sub(v.shape[0], ONE)
            with using(ctx.with_range(vv, ZERO, hi)):
                return T.bsum(vv, ZERO, hi, mul(subst(v.elem, {T._IXS[0]: vv}),
                                                subst(vals[1][0].elem, {T._IXS[0]: vv}))), 'r'
        if n == 'transpose':
            return ArrVal((v.shape[1], v.shape[0]), subst_any(v.elem, {T._IXS[0]: ix(1), T._IXS[1]: ix(0)})), t
        if n == 'merge':
            m = vals[2][0]
            arrs = [x for x in (v, vals[1][0], m) if isinstance(x, ArrVal)]
            el = lambda q: q.elem if isinstance(q, ArrVal) else q
            r = ite(self.tocond(el(m)), el(v), el(vals[1][0]))
            if arrs:
                return ArrVal(arrs[0].shape, r), t
            return r, t
        if n == 'sign':
            return self.map2(lambda x, y: ite(c_ge(y), fn('abs', x), neg(fn('abs', x))), v, vals[1][0]), t
        if n == 'cshift':
            sh = vals[1][0] if len(vals) > 1 else kw['shift'][0]
            dm = vals[2][0] if len(vals) > 2 else kw.get('dim', (ONE,))[0]
            ax = dm.const - 1
            s_ = v.shape[ax]
            p = add(ix(ax), sh)
            at = s_.single()
            if at is not None and at.id in T.PERIODIC:
                el = subst(v.elem, {T._IXS[ax]: p})
            else:
                el = subst(v.elem, {T._IXS[ax]: fn('mod', p, s_)})
            return ArrVal(v.shape, el, None, v.typ), t
        if n == 'spread':
            dm = (vals[1][0] if len(vals) > 1 else kw['dim'][0]).const - 1
            nc = vals[2][0] if len(vals) > 2 else kw['ncopies'][0]
            if not isinstance(v, ArrVal):
                return ArrVal((nc,), v), t
            mp = {}
            shp = []
            j = 0
            for i in range(len(v.shape) + 1):
                if i == dm:
                    shp.append(nc)
                else:
                    mp[T._IXS[j]] = ix(i)
                    shp.append(v.shape[j])
                    j += 1
            return ArrVal(tuple(shp), subst(v.elem, mp)), t
        if n == 'dim':
            return self.map2(lambda x, y: fn('max', sub(x, y), ZERO), v, vals[1][0]), t
        if n in ('lbound', 'ubound') and len(vals) > 1:
            ax = vals[1][0].const - 1
            lb = v.lb[ax] if v.lb else ONE
            return (lb if n == 'lbound' else add(lb, sub(v.shape[ax], ONE))), 'i'
        if n in ('tiny', 'epsilon', 'huge'):
            return num({'tiny': Fraction(1, 10 ** 37), 'epsilon': Fraction(1, 2 ** 23), 'huge': 10 ** 38}[n]), 'r'
        raise Unsupported('intrinsic %s' % n)


# ---------------------------------------------------------------- kernels

class Kernel:
    """f2py-level view of a routine"""

    def __init__(self, routine):
        self.r = routine
        self.name = routine.name
        self.cache = {}
        self.intent = {}
        for n in routine.args:
            d = routine.decls.get(n, {})
            self.intent[n] = d.get('intent') or 'in'
        self.dimdefs = {}       # int arg -> (array arg, axis, offset)   n = shape + offset
        for n in routine.args:
            if routine.typ(n) != 'i' or routine.decls.get(n, {}).get('dims') or self.intent[n] != 'in':
                continue
            for a in routine.args:
                d = routine.decls.get(a, {})
                if not d.get('dims') or self.intent[a] == 'out':
                    continue
                for ax, (lo, hi) in enumerate(d['dims']):
                    off = _solve_dim(hi, n)
                    if off is not None and lo == ('num', '1', True):
                        self.dimdefs[n] = (a, ax, off)
                        break
                if n in self.dimdefs:
                    break
        # dimension arguments are made optional unless they only size outputs
        self.required = [n for n in routine.args if self.intent[n] != 'out' and n not in self.dimdefs]
        self.optional = [n for n in routine.args if n in self.dimdefs]
        self.outputs = [n for n in routine.args if self.intent[n] == 'out']
        self.inouts = [n for n in routine.args if self.intent[n] == 'inout']

    def is_array(self, n):
        return bool(self.r.decls.get(n, {}).get('dims'))

    def analyse(self, routines, ints, ctx, watch=()):
        """ints: {int/logical arg name: Poly/Cond}.  Arrays and real scalars are dummies."""
        key = tuple(sorted((k, v.id, type(v).__name__) for k, v in ints.items())) + (tuple(watch),)
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        an = Analyzer(routines, ctx, self.name)
        an.watch = tuple(watch)
        fr = Frame(an, self.r)
        st = dict(ints)
        args = []
        for p, n in enumerate(self.r.args):
            if n in ints:
                args.append(ints[n])
            elif self.intent[n] == 'out':
                args.append(None)
            elif self.is_array(n):
                shp, lb = fr.dims(self.r.decls[n]['dims'], st, ctx)
                b = T.base('dummy', (self.name, str(p)), shp)
                args.append(ArrVal(shp, ref(b, *[ix(i) for i in range(len(shp))]), lb, self.r.typ(n)))
            else:
                args.append(T.sym('D:%s:%d' % (self.name, p), self.r.typ(n) == 'i'))
        try:
            end, fr2 = an.run(self.r, args)
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            raise Unsupported('%s: %s %s' % (self.r.path, type(e).__name__, e))
        res = KernelResult()
        res.name = self.name
        for n in self.outputs + self.inouts:
            v = end[n]
            if isinstance(v, ArrVal):
                v = ArrVal(v.shape, v.elem, None, v.typ)
            res.outs[n] = v
        res.watch = {w: end.get(watched(w), FALSE) for w in watch}
        res.order = list(self.outputs)
        res.bounds = an.bounds
        res.nloops = an.nloops
        res.nstmts = an.nstmts
        self.cache[key] = res
        return res


def _solve_dim(e, n):
    """e == n + c  ->  -c  (so that n = shape + off), else None"""
    def lin(x):
        if x[0] == 'num' and x[2]:
            return {None: int(x[1])}
        if x[0] == 'name':
            return {x[1]: 1}
        if x[0] == 'un' and x[1] == '-':
            y = lin(x[2])
            return None if y is None else {k: -v for k, v in y.items()}
        if x[0] == 'bin' and x[1] in '+-':
            a, b = lin(x[2]), lin(x[3])
            if a is None or b is None:
                return None
            o = dict(a)
            for k, v in b.items():
                o[k] = o.get(k, 0) + (v if x[1] == '+' else -v)
            return o
        return None
    if e is None:
        return None
    l = lin(e)
    if l is None:
        return None
    c = l.pop(None, 0)
    l = {k: v for k, v in l.items() if v}
    if l == {n: 1}:
        return -c
    return None


def load_kernels(src_dir):
    rs = load_routines(src_dir)
    return rs, {n: Kernel(r) for n, r in rs.items()}
