"""Models of the builtins and of the library functions the package uses
(numpy, scipy.interpolate, LAPACK inverse, math, collections, abc, itertools),
and of the f2py boundary to the Fortran kernels.  Everything not modelled
raises GiveUp / yields Unk and makes the dependent obligations undecided."""
import ast
import itertools as _it
from fractions import Fraction
from . import terms as T
from .terms import (Poly, Cond, Lam, Base, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, num, lift, ite, ix, subst,
                    subst_any, c_and, c_or, c_not, c_ge, c_eq, c_gt, lam, ref, fn)
from .ranges import using
from .pyval import *          # noqa
from .pyval import PyRaise, Unk, UNDEF, Choice, AC, Arr, WhereIdx, ListV, DictV, SetV, Obj, ClassV, NTuple, FuncV, \
    BoundV, PropV, StaticV, ClassMV, Builtin, ModuleV, RangeV, IterV, ExcV, SuperV, KernelV, Opaque


def _gu():
    from .pyabs import GiveUp
    return GiveUp


def giveup(s):
    raise _gu()(s)


class NoDefault:
    pass


REQ = NoDefault()


def bind(name, spec, args, kw, I=None):
    """spec: list of (name, default)"""
    out = {}
    names = [s[0] for s in spec]
    if len(args) > len(spec):
        raise PyRaise('TypeError', '%s: too many arguments' % name)
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw.items():
        if k in out:
            raise PyRaise('TypeError', '%s: multiple values for %s' % (name, k))
        if k not in names:
            giveup('%s: argument %s not modelled' % (name, k))
        out[k] = v
    for n, d in spec:
        if n not in out:
            if d is REQ:
                raise PyRaise('TypeError', '%s: missing argument %s' % (name, n))
            out[n] = d
    if I is not None:
        for k, v in out.items():
            v = I.force(v) if isinstance(v, Choice) else v
            out[k] = v
    return [out[n] for n in names]


def _const(I, v, what='constant'):
    if isinstance(v, bool):
        return v
    if isinstance(v, Poly) and v.const is not None:
        return v.const
    if isinstance(v, (str, type(None))):
        return v
    p = I.aslin(v) if isinstance(v, Arr) else None
    if p is not None and p.const is not None:
        return p.const
    giveup('%s expected' % what)


def axes(I, axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, ListV)):
        l = [int(_const(I, x)) for x in I.items(axis)]
    else:
        l = [int(_const(I, axis))]
    out = []
    for a in l:
        if a < -n or a >= n:
            raise PyRaise('AxisError', 'axis %d is out of bounds for array of dimension %d' % (a, n))
        out.append(a % n)
    return out


# ------------------------------------------------------------------ arrays
def asarray(I, v):
    v = I.force(v) if isinstance(v, Choice) else v
    if isinstance(v, (Arr, Poly, Unk)):
        return v
    if isinstance(v, (bool, Cond)):
        return v
    if isinstance(v, RangeV):
        n = I.range_count(v)
        return I.newarr((n,), add(v.lo, mul(v.step, ix(0))))
    if isinstance(v, IterV):
        c = I.iter_concrete(v)
        if c is None:
            t = T.fresh_lv('q')
            e = I.plain(v.f(t))
            if not isinstance(e, Poly):
                giveup('array of a symbolic iterable')
            return I.newarr((v.cnt,), subst(e, {t.single(): ix(0)}))
        return stack(I, c)
    if isinstance(v, (tuple, ListV)) and not isinstance(v, (DictV, SetV)):
        return stack(I, I.items(v))
    if isinstance(v, Obj):
        p = I.xr_plain(v)
        if p is not None:
            return p
    giveup('array of %r' % (v,))


def stack(I, items, axis=0):
    if not items:
        return I.newarr((ZERO,), ZERO)
    xs = []
    for x in items:
        x = I.plain(x)
        if isinstance(x, Unk):
            return x
        if isinstance(x, bool):
            x = T.c_const(x)
        if isinstance(x, Arr):
            x = I.unflat(x)
            if x.sel:
                giveup('stack of selections')
        if not isinstance(x, (Arr, Poly, Cond)):
            giveup('array element %r' % (x,))
        xs.append(x)
    n = len(xs)
    if all(isinstance(x, Arr) for x in xs):
        r = len(xs[0].shape)
        for x in xs[1:]:
            if len(x.shape) != r:
                raise PyRaise('ValueError', 'inhomogeneous shape')
            for a, b in zip(x.shape, xs[0].shape):
                if I.same(a, b) is False:
                    raise PyRaise('ValueError', 'inhomogeneous shape')
        es = [I.read(x) for x in xs]
        shp = xs[0].shape
    elif any(isinstance(x, Arr) for x in xs):
        raise PyRaise('ValueError', 'inhomogeneous shape')
    else:
        es = xs
        r = 0
        shp = ()
    if axis < 0:
        axis += r + 1
    mp = {T._IXS[k]: ix(k + 1) for k in range(axis, r)}
    es = [subst_any(e, mp) if mp else e for e in es]
    e = choose(es, ix(axis))
    return I.newarr(shp[:axis] + (num(n),) + shp[axis:], e)


def choose(es, i):
    if all(isinstance(e, Cond) for e in es):
        out = es[-1]
        for k in range(len(es) - 2, -1, -1):
            c = c_eq(sub(i, num(k)))
            out = out if out is es[k] else c_or(c_and(c, es[k]), c_and(c_not(c), out))
        return out
    es = [T.ind(e) if isinstance(e, Cond) else e for e in es]
    out = es[-1]
    for k in range(len(es) - 2, -1, -1):
        if es[k] is not out:
            out = ite(c_eq(sub(i, num(k))), es[k], out)
    return out


def concat(I, items, axis=0):
    xs = [I.plain(x) for x in items]
    xs = [I.unflat(x) if isinstance(x, Arr) else x for x in xs]
    for x in xs:
        if isinstance(x, Unk):
            return x
        if not isinstance(x, Arr):
            raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
        if x.sel:
            giveup('concatenate selections')
    r = len(xs[0].shape)
    if any(len(x.shape) != r for x in xs):
        raise PyRaise('ValueError', 'all the input array dimensions must match')
    axis = axis % r
    for x in xs[1:]:
        for k in range(r):
            if k != axis and I.same(x.shape[k], xs[0].shape[k]) is False:
                raise PyRaise('ValueError', 'all the input array dimensions except for the concatenation axis must '
                                            'match exactly')
    off = ZERO
    offs = []
    for x in xs:
        offs.append(off)
        off = add(off, x.shape[axis])
    out = None
    for x, o in reversed(list(zip(xs, offs))):
        e = I.relem(x)
        if o.t:
            e = subst(e, {T._IXS[axis]: sub(ix(axis), o)})
        out = e if out is None else ite(c_ge(sub(sub(add(o, x.shape[axis]), ONE), ix(axis))), e, out)
    shp = list(xs[0].shape)
    shp[axis] = off
    return I.newarr(shp, I.simp(out, shp))


def repeat_list(I, x, k):
    items = I.items(x)
    if len(items) != 1:
        giveup('symbolic repetition of a list')
    v = I.plain(items[0])
    if not isinstance(v, Poly):
        giveup('symbolic repetition of a list')
    return I.symlist(I.newarr((k,), v))


def _rvars(a):
    return [T.fresh_lv('r%d' % k) for k in range(len(a.shape))]


def reduce(I, a, axis, op, keepdims=False, count_only=False):
    """sum / max / min over axes (None = all)"""
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    if isinstance(a, (bool, Cond)):
        return I.nume(a)
    if isinstance(a, Poly):
        return a if not count_only else ONE
    if not isinstance(a, Arr):
        giveup('reduction of %r' % (a,))
    n = len(a.shape)
    full = axis is None or a.flat or 'all' in a.sel
    if 'all' in a.sel or a.flat:
        if axis is not None and int(_const(I, axis)) not in (0, -1):
            raise PyRaise('AxisError', 'axis')
        ax = list(range(n))
    else:
        ax = axes(I, axis, n)
    if op in ('bmax', 'bmin'):
        for k in ax:
            if a.shape[k].const == 0:
                raise PyRaise('ValueError', 'zero-size array to reduction operation')
    e = ONE if count_only else I.relem(a)
    cond = TRUE
    for k, l in a.sel.items():
        if k == 'all':
            cond = c_and(cond, T.apply_lam(l, [ix(j) for j in range(n)]))
        elif n + k in ax:
            cond = c_and(cond, T.apply_lam(l, [ix(n + k)]))
    if cond is not TRUE:
        if op == 'sum':
            e = mul(e, T.ind(cond))
        else:
            e = ite(cond, e, fn('special', '-inf' if op == 'bmax' else 'inf'))
    vs = {k: T.fresh_lv('r%d' % k) for k in ax}
    e = subst(e, {T._IXS[k]: v for k, v in vs.items()})
    c = I.ctx
    for k in range(n):
        v = vs.get(k, ix(k))
        if a.shape[k].const != 1:
            c = c.with_range(v, ZERO, sub(a.shape[k], ONE))
    with using(c):
        for k in sorted(ax, reverse=True):
            hi = sub(a.shape[k], ONE)
            if op == 'sum':
                e = T.bsum(vs[k], ZERO, hi, e)
            else:
                e = T.bred(op, vs[k], ZERO, hi, e)
    keep = [k for k in range(n) if k not in ax]
    if keepdims:
        return I.newarr([ONE if k in ax else a.shape[k] for k in range(n)], e, None, False,
                        {k - n: l for k, l in ((kk + n, ll) for kk, ll in a.sel.items() if kk != 'all')
                         if k not in ax})
    if not keep:
        return I._scalar(e)
    e = subst(e, {T._IXS[k]: ix(i) for i, k in enumerate(keep) if k != i})
    m = len(keep)
    sel = {}
    for kk, l in a.sel.items():
        if kk != 'all' and n + kk in keep:
            sel[keep.index(n + kk) - m] = l
    shp = [a.shape[k] for k in keep]
    return I.newarr(shp, I.simp(e, shp), None, False, sel)


def f_sum(I, args, kw):
    a, axis, dtype, out, keepdims = bind('sum', [('a', REQ), ('axis', None), ('dtype', None), ('out', None),
                                                 ('keepdims', False)], args, kw, I)
    if out is not None:
        giveup('out=')
    return reduce(I, a, axis, 'sum', keepdims is True)


def f_mean(I, args, kw):
    a, axis, dtype, out, keepdims = bind('mean', [('a', REQ), ('axis', None), ('dtype', None), ('out', None),
                                                  ('keepdims', False)], args, kw, I)
    s = reduce(I, a, axis, 'sum', keepdims is True)
    a = I.plain(a)
    if not isinstance(a, Arr):
        return s
    if a.sel:
        c = reduce(I, a, axis, 'sum', keepdims is True, True)
    else:
        c = ONE
        for k in (range(len(a.shape)) if a.flat else axes(I, axis, len(a.shape))):
            c = mul(c, a.shape[k])
    return I.binop(ast.Div(), s, c)


def f_average(I, args, kw):
    a, axis, weights = bind('average', [('a', REQ), ('axis', None), ('weights', None)], args, kw, I)
    if weights is None:
        return f_mean(I, [a, axis], {})
    a, weights = I.plain(a), I.plain(weights)
    if isinstance(weights, Arr) and isinstance(a, Arr) and len(weights.shape) == 1 and len(a.shape) > 1:
        if axis is None:
            raise PyRaise('TypeError', 'Axis must be specified when shapes of a and weights differ.')
        k = axes(I, axis, len(a.shape))[0]
        weights = expand(I, weights, [j for j in range(len(a.shape)) if j != k])
        ws = reduce(I, weights, None, 'sum')
        return I.binop(ast.Div(), reduce(I, I.binop(ast.Mult(), a, weights), axis, 'sum'), ws)
    return I.binop(ast.Div(), reduce(I, I.binop(ast.Mult(), a, weights), axis, 'sum'),
                   reduce(I, weights, axis, 'sum'))


def _minmax(op):
    def f(I, args, kw):
        a, axis, out, keepdims = bind('amax', [('a', REQ), ('axis', None), ('out', None), ('keepdims', False)],
                                      args, kw, I)
        a = I.plain(a)
        if isinstance(a, Arr) and not a.sel and len(a.shape) == 1 and a.shape[0].const is not None and \
                a.shape[0].const <= 6:
            xs = [subst(I.relem(a), {T._IXS[0]: num(i)}) for i in range(a.shape[0].const)]
            return fn('max' if op == 'bmax' else 'min', *dedupe(xs)) if len(dedupe(xs)) > 1 else xs[0]
        return reduce(I, a, axis, op, keepdims is True)
    return f


def dedupe(xs):
    out = []
    for x in xs:
        if not any(x is y for y in out):
            out.append(x)
    return out


def f_prod(I, args, kw):
    a, axis, dtype = bind('prod', [('a', REQ), ('axis', None), ('dtype', None)], args, kw, I)
    xs = I.items(I.plain(a)) if not isinstance(a, (tuple, ListV)) else I.items(a)
    r = ONE
    for x in xs:
        if isinstance(x, Arr):
            giveup('prod')
        r = mul(r, I.nume(x))
    return r


def f_any(I, args, kw):
    a, axis, out, keepdims = bind('any', [('a', REQ), ('axis', None), ('out', None), ('keepdims', False)], args, kw, I)
    if out is not None:
        giveup('out=')
    return quant(I, a, axis, False, keepdims is True)


def f_all(I, args, kw):
    a, axis, out, keepdims = bind('all', [('a', REQ), ('axis', None), ('out', None), ('keepdims', False)], args, kw, I)
    if out is not None:
        giveup('out=')
    return quant(I, a, axis, True, keepdims is True)


def quant_axis(I, a, axis, isall, keepdims=False):
    """any / all over some of the axes: a boolean array"""
    e = I.read(a)
    c = e if isinstance(e, Cond) else c_not(c_eq(e))
    b = Arr(I.alloc(AC(a.shape, c_not(c) if isall else c, None)), a.shape, None, False, dict(a.sel), True)
    cnt = reduce(I, b, axis, 'sum', keepdims)
    if not isinstance(cnt, Arr):
        r = c_ge(sub(cnt, ONE))
        return I.tobool(c_not(r) if isall else r)
    r = I.map(lambda x: c_ge(sub(x, ONE)), cnt)
    return I.map(lambda x: c_not(x), r) if isall else r


def quant(I, a, axis, isall, keepdims=False):
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    if isinstance(a, bool):
        return a
    if isinstance(a, (Poly, Cond)):
        return I.truth(a)
    if keepdims or (axis is not None and len(a.shape) > 1):
        return quant_axis(I, a, axis, isall, keepdims)
    e = I.read(a)
    c = e if isinstance(e, Cond) else c_not(c_eq(e))
    c = c_not(c) if isall else c       # exists c
    cx = I.actx(a.shape)
    with using(cx):
        from .ranges import simp_cond
        c = simp_cond(c, cx)
    d = cx.decide(c)
    if d is not None:
        nonempty = all(I.ctx.prove(sub(s, ONE)) for s in a.shape)
        if d is False:
            return isall
        if nonempty and not a.sel:
            return not isall
    if a.sel:
        giveup('any/all of a selection')
    # count > 0
    cnt = reduce(I, I.newarr(a.shape, c), None, 'sum')
    r = c_ge(sub(cnt, ONE))
    r = c_not(r) if isall else r
    d = I.ctx.decide(r)
    if d is None:
        d = enumerate_quant(I, a, c)
        if d is not None and isall:
            d = not d
    if d is not None:
        return d
    return I.tobool(r)


def enumerate_quant(I, a, c):
    """whether c holds for some element of a small array, one element at a time"""
    sizes = [s.const for s in a.shape]
    if any(s is None for s in sizes) or a.flat:
        return None
    total = 1
    for s in sizes:
        total *= int(s)
    if total > 64:
        return None
    from .ranges import simp_cond
    out = False
    for pos in _it.product(*[range(int(s)) for s in sizes]):
        x = subst_any(c, {T._IXS[k]: lift(p) for k, p in enumerate(pos)})
        d = x if isinstance(x, bool) else I.ctx.decide(simp_cond(x, I.ctx))
        if d is True:
            return True
        if d is None:
            out = None
    return out


def expand(I, a, ax):
    """insert axes of length one at the (final) positions ax"""
    n = len(a.shape) + len(ax)
    key = []
    for k in range(n):
        key.append(None if k in ax else slice(None))
    return I.view(a, tuple(key))


def permute(I, a, perm):
    """axis k of the result is axis perm[k] of a (a view)"""
    if not isinstance(a, Arr):
        giveup('transpose of %r' % (a,))
    if a.flat:
        return a
    n = len(a.shape)
    base = a.idx if a.idx is not None else tuple(ix(j) for j in range(n))
    mp = {T._IXS[p]: ix(k) for k, p in enumerate(perm)}
    sel = {}
    for kk, l in a.sel.items():
        if kk == 'all':
            giveup('transpose of a selection')
        sel[list(perm).index(n + kk) - n] = l
    idx = tuple(subst(p, mp) for p in base)
    shape = tuple(a.shape[p] for p in perm)
    ident = len(idx) == n and all(p is ix(j) for j, p in enumerate(idx)) and \
        all(x is y for x, y in zip(shape, I.h[a.cid].shape))
    return Arr(a.cid, shape, None if ident else idx, False, sel, a.bool)


def f_swapaxes(I, args, kw):
    a, x, y = bind('swapaxes', [('a', REQ), ('axis1', REQ), ('axis2', REQ)], args, kw, I)
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    n = len(a.shape)
    p = list(range(n))
    i, j = axes(I, x, n)[0], axes(I, y, n)[0]
    p[i], p[j] = p[j], p[i]
    return permute(I, a, p)


def f_moveaxis(I, args, kw):
    a, s, d = bind('moveaxis', [('a', REQ), ('source', REQ), ('destination', REQ)], args, kw, I)
    n = len(a.shape)
    s, d = axes(I, s, n), axes(I, d, n)
    order = [k for k in range(n) if k not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return permute(I, a, order)


def f_transpose(I, args, kw):
    if len(args) > 2:
        args = [args[0], tuple(args[1:])]
    a, ax = bind('transpose', [('a', REQ), ('axes', None)], args, kw, I)
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    n = len(a.shape)
    return permute(I, a, list(range(n))[::-1] if ax is None else axes(I, ax, n))


def f_flip(I, args, kw):
    a, ax = bind('flip', [('m', REQ), ('axis', None)], args, kw, I)
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    if not isinstance(a, Arr):
        raise PyRaise('AxisError', 'flip')
    a = I.unflat(a)
    if isinstance(ax, ListV):
        # numpy requires a hashable axis tuple or int; lists are accepted through normalize_axis_tuple
        pass
    k = axes(I, ax, len(a.shape))
    return I.view(a, tuple(slice(None, None, num(-1)) if j in k else slice(None) for j in range(len(a.shape))))


def f_roll(I, args, kw):
    a, s, ax = bind('roll', [('a', REQ), ('shift', REQ), ('axis', None)], args, kw, I)
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    if ax is None and len(a.shape) > 1:
        giveup('roll of a flattened array')
    k = axes(I, ax, len(a.shape))
    if len(k) != 1:
        k = [0] if ax is None else giveup('roll')
    k = k[0]
    sh = I.aslin(s)
    n = a.shape[k]
    lo = I.view(a, tuple(slice(None) for _ in a.shape))
    c = sh.const
    if c is not None and abs(c) <= 3 and I.ctx.prove(sub(n, num(abs(c) + 1))):
        if c == 0:
            return I.copyarr(a)
        pre = tuple(slice(None) for _ in range(k))
        if c > 0:
            return concat(I, [I.view(a, pre + (slice(num(-c), None, None),)),
                              I.view(a, pre + (slice(None, num(-c), None),))], k)
        return concat(I, [I.view(a, pre + (slice(num(-c), None, None),)),
                          I.view(a, pre + (slice(None, num(-c), None),))], k)
    e = subst_any(I.read(lo), {T._IXS[k]: fn('mod', sub(ix(k), sh), n)})
    return I.newarr(a.shape, e)


def f_diff(I, args, kw):
    a, n, ax = bind('diff', [('a', REQ), ('n', ONE), ('axis', num(-1))], args, kw, I)
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    if not isinstance(a, Arr):
        raise PyRaise('ValueError', 'diff requires input that is at least one dimensional')
    a = I.unflat(a)
    for _ in range(int(_const(I, n))):
        k = axes(I, ax, len(a.shape))[0]
        pre = tuple(slice(None) for _ in range(k))
        a = I.binop(ast.Sub(), I.view(a, pre + (slice(ONE, None, None),)),
                    I.view(a, pre + (slice(None, num(-1), None),)))
    return a


def f_cumsum(I, args, kw):
    a, ax, dt = bind('cumsum', [('a', REQ), ('axis', None), ('dtype', None)], args, kw, I)
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    a = I.unflat(a)
    if a.sel:
        giveup('cumsum of a selection')
    if ax is None and len(a.shape) > 1:
        giveup('cumsum of flattened array')
    k = 0 if ax is None else axes(I, ax, len(a.shape))[0]
    v = T.fresh_lv('c')
    e = subst(I.relem(a), {T._IXS[k]: v})
    c = I.actx(a.shape).with_range(v, ZERO, ix(k))
    with using(c):
        e = T.bsum(v, ZERO, ix(k), e)
    return I.newarr(a.shape, I.simp(e, a.shape))


def f_digitize(I, args, kw):
    x, bins, right = bind('digitize', [('x', REQ), ('bins', REQ), ('right', False)], args, kw, I)
    x, bins = I.plain(x), I.plain(bins)
    if isinstance(x, Unk) or isinstance(bins, Unk):
        return x if isinstance(x, Unk) else bins
    be = I.relem(bins)

    def f(v):
        k = T.fresh_lv('d')
        b = subst(be, {T._IXS[0]: k})
        c = c_gt(sub(v, b)) if right is True else c_ge(sub(v, b))
        return T.bsum(k, ZERO, sub(bins.shape[0], ONE), T.ind(c))
    return I.map(f, x)


def _lam1(I, a, k, free_shift=None):
    """Lam along axis k of a; other axes stay free"""
    v = T.fresh_lv('y')
    return lam((a.shape[k],), subst(I.relem(a), {T._IXS[k]: v}), [v])


def f_interp(I, args, kw):
    x, xp, fp, left, right, period = bind('interp', [('x', REQ), ('xp', REQ), ('fp', REQ), ('left', None),
                                                     ('right', None), ('period', None)], args, kw, I)
    if period is not None:
        giveup('interp period')
    x, xp, fp = I.plain(x), I.plain(xp), I.plain(fp)
    for q in (x, xp, fp):
        if isinstance(q, Unk):
            return q
    if I.same(xp.shape[0], fp.shape[0]) is False:
        raise PyRaise('ValueError', 'fp and xp are not of the same length.')
    lx, lf = _lam1(I, xp, 0), _lam1(I, fp, 0)
    extra = []
    for q in (left, right):
        extra.append('none' if q is None else I.nume(q))
    return I.map(lambda v: fn('interp', v, lx, lf, *extra), x)


def f_linspace(I, args, kw):
    a, b, n, endpoint, retstep, dtype, axis = bind('linspace', [
        ('start', REQ), ('stop', REQ), ('num', num(50)), ('endpoint', True), ('retstep', False), ('dtype', None),
        ('axis', ZERO)], args, kw, I)
    n = I.aslin(n)
    a, b = I.plain(a), I.plain(b)
    for q in (a, b):
        if isinstance(q, Unk):
            return q
        if isinstance(q, Arr):
            giveup('linspace of arrays')
    if n is None or (n.const is not None and not isinstance(n.const, int)):
        raise PyRaise('TypeError', 'linspace num')
    d = sub(n, ONE) if endpoint is not False else n
    if not d.t:
        return I.newarr((n,), a)
    e = add(a, mul(ix(0), T.div(sub(b, a), d)))
    return I.newarr((n,), e)


def f_arange(I, args, kw):
    if len(args) == 1 and 'stop' not in kw:
        args = [ZERO, args[0]]
    a, b, s, dt = bind('arange', [('start', REQ), ('stop', REQ), ('step', ONE), ('dtype', None)], args, kw, I)
    a, b, s = (I.aslin(q) for q in (a, b, s))
    if a is None or b is None or s is None:
        giveup('arange')
    d = sub(b, a)
    c = s.const
    if isinstance(c, int) and c and d.isint:
        n = d if c == 1 else (neg(d) if c == -1 else fn('floordiv', add(d if c > 0 else neg(d), num(abs(c) - 1)),
                                                        num(abs(c))))
    else:
        q = T.div(d, s)
        n = q if q.isint and q.const is None or isinstance(q.const, int) else fn('ceil', q)
    if not I.ctx.prove(n):
        if I.ctx.prove(neg(n)):
            n = ZERO
        else:
            n = fn('max', n, ZERO)
    return I.newarr((n,), add(a, mul(s, ix(0))))


def _shapearg(I, s):
    s = I.force(s)
    if isinstance(s, (tuple, ListV)):
        l = I.items(s)
    else:
        l = [s]
    out = []
    for x in l:
        p = I.aslin(x)
        if isinstance(x, Unk):
            giveup(x.why)
        if p is None or isinstance(p.const, Fraction):
            raise PyRaise('TypeError', 'shape')
        out.append(p)
    return tuple(out)


def _filled(val):
    def f(I, args, kw):
        kw = dict(kw)
        kw.pop('order', None)
        kw.pop('dtype', None)
        s, = bind('zeros', [('shape', REQ)], args[:1], kw, I)
        s = _shapearg(I, s)
        e = val
        if val is None:
            b = T.base('undef', ('np.empty', str(I.loc)), s)
            e = ref(b, *[ix(i) for i in range(len(s))])
        return I.newarr(s, e)
    return f


def _filled_like(val):
    def f(I, args, kw):
        kw = dict(kw)
        for k in ('order', 'dtype', 'subok'):
            kw.pop(k, None)
        a, shp = bind('zeros_like', [('a', REQ), ('shape', None)], args[:1], kw, I)
        a = I.plain(a)
        if isinstance(a, Unk):
            return a
        if not isinstance(a, Arr):
            return val if val is not None else giveup('empty_like scalar')
        s = I.shape_of(a) if shp is None else _shapearg(I, shp)
        e = val
        if val is None:
            b = T.base('undef', ('np.empty', str(I.loc)), s)
            e = ref(b, *[ix(i) for i in range(len(s))])
        return I.newarr(s, e, None, False, dict(a.sel) if shp is None and not a.flat and 'all' not in a.sel else {})
    return f


def f_full(I, args, kw):
    kw.pop('order', None)
    s, v, dt = bind('full', [('shape', REQ), ('fill_value', REQ), ('dtype', None)], args, kw, I)
    v = I.plain(v)
    if not isinstance(v, (Poly, Cond, bool)):
        giveup('full')
    return I.newarr(_shapearg(I, s), T.c_const(v) if isinstance(v, bool) else v)


def f_full_like(I, args, kw):
    for k in ('order', 'dtype'):
        kw.pop(k, None)
    a, v = bind('full_like', [('a', REQ), ('fill_value', REQ)], args, kw, I)
    a = I.plain(a)
    if not isinstance(a, Arr):
        return v
    v = I.plain(v)
    if not isinstance(v, (Poly, Cond, bool)):
        giveup('full_like')
    return I.newarr(I.shape_of(a), T.c_const(v) if isinstance(v, bool) else v)


def f_array(I, args, kw):
    copy = kw.pop('copy', True)
    for k in ('dtype', 'order', 'subok'):
        kw.pop(k, None)
    nd = kw.pop('ndmin', None)
    a, = bind('array', [('a', REQ)], args[:1], kw, I)
    r = asarray(I, a)
    if isinstance(r, Arr) and isinstance(a, (Arr, Obj)) and copy is not False:
        r = I.copyarr(r)
    return r


def f_asarray(I, args, kw):
    for k in ('dtype', 'order', 'copy'):
        kw.pop(k, None)
    a, = bind('asarray', [('a', REQ)], args[:1], kw, I)
    return asarray(I, a)


def f_copy(I, args, kw):
    kw.pop('order', None)
    a = asarray(I, args[0])
    return I.copyarr(a) if isinstance(a, Arr) else a


def f_where(I, args, kw):
    args = [I.plain(a) for a in args]
    for a in args:
        if isinstance(a, Unk):
            return a
    if len(args) == 1:
        c = args[0]
        if not isinstance(c, Arr):
            giveup('where of scalar')
        if not c.bool:
            c = I.map(lambda x: x if isinstance(x, Cond) else c_not(c_eq(x)), c)
        return WhereIdx(c)
    if len(args) != 3:
        raise PyRaise('ValueError', 'where')

    def f(c, x, y):
        c = c if isinstance(c, Cond) else c_not(c_eq(c))
        if isinstance(x, Cond) and isinstance(y, Cond):
            return c_or(c_and(c, x), c_and(c_not(c), y))
        return ite(c, I.nume(x), I.nume(y))
    return I.map(f, *args)


def where_tuple(I, w):
    if len(w.arr.shape) == 1:
        return (argw(I, w.arr, 1),)
    giveup('where index tuple')


def argw(I, a, rank):
    """indices of the true entries of a 1-d condition (exact when the solution is unique)"""
    e = I.read(a)
    c = e if isinstance(e, Cond) else c_not(c_eq(e))
    n = a.shape[0]
    v = T.fresh_lv('w')
    cv = T.subst_cond(c, {T._IXS[0]: v})
    cx = I.ctx.with_range(v, ZERO, sub(n, ONE))
    cnt = reduce(I, I.newarr(a.shape, c), None, 'sum')
    # first true entry
    rv = T.fresh_lv('w')
    back = sub(sub(n, ONE), rv)
    first = sub(sub(n, ONE), T.blast(rv, ZERO, sub(n, ONE), T.subst_cond(cv, {v.single(): back}), rv, num(-1)))
    if cnt.const == 0:
        return I.newarr((ZERO,) + (ONE,) * (rank - 1), ZERO)
    if cnt.const == 1:
        sol = T.bsum(v, ZERO, sub(n, ONE), mul(v, T.ind(cv))) if True else first
        with using(I.ctx):
            from .ranges import simplify
            sol = simplify(sol, I.ctx)
        return I.newarr((ONE,) + (ONE,) * (rank - 1), sol)
    # general case: k-th true entry is only known for k = 0
    t = T.base('op', ('nonzero', lam((n,), c)), (cnt,) + (ONE,) * (rank - 1), True)
    return I.newarr((cnt,) + (ONE,) * (rank - 1),
                    ite(c_eq(ix(0)), first, ref(t, *[ix(i) for i in range(rank)])))


def f_argwhere(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    if not isinstance(a, Arr) or len(a.shape) != 1:
        giveup('argwhere')
    return argw(I, a, 2)


def f_count_nonzero(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    c = I.map(lambda x: x if isinstance(x, Cond) else c_not(c_eq(x)), a)
    if isinstance(c, (bool, Cond)):
        return I.nume(c)
    return reduce(I, c, args[1] if len(args) > 1 else kw.get('axis'), 'sum')


def f_isnan(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    # NaN never arises in the model (invalid values are 'special' terms)
    return I.map(lambda x: FALSE, a)


def f_isfinite(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    return I.map(lambda x: TRUE, a)


def f_clip(I, args, kw):
    a, lo, hi = bind('clip', [('a', REQ), ('a_min', None), ('a_max', None)], args, kw, I)
    if lo is not None:
        a = I.map(lambda x, y: fn('max', I.nume(x), I.nume(y)), a, lo)
    if hi is not None:
        a = I.map(lambda x, y: fn('min', I.nume(x), I.nume(y)), a, hi)
    return a


def f_concatenate(I, args, kw):
    l, ax = bind('concatenate', [('arrays', REQ), ('axis', ZERO)], args, kw, I)
    items = I.items(l) if not (isinstance(l, Arr)) else I.items(l)
    if ax is None:
        giveup('concatenate axis None')
    xs = [I.plain(x) for x in items]
    r = len(xs[0].shape) if isinstance(xs[0], Arr) else 1
    return concat(I, items, axes(I, ax, r)[0])


def f_stack(I, args, kw):
    l, ax = bind('stack', [('arrays', REQ), ('axis', ZERO)], args, kw, I)
    return stack(I, I.items(l), int(_const(I, ax)))


def f_stackn(kind):
    def f(I, args, kw):
        items = [I.plain(x) for x in I.items(args[0])]
        if kind == 'v':
            items = [expand(I, x, [0]) if len(x.shape) == 1 else x for x in items]
            return concat(I, items, 0)
        return concat(I, items, 0 if len(items[0].shape) == 1 else 1)
    return f


def f_expand_dims(I, args, kw):
    a, ax = bind('expand_dims', [('a', REQ), ('axis', REQ)], args, kw, I)
    n = len(a.shape)
    l = [ax] if not isinstance(ax, (tuple, ListV)) else I.items(ax)
    return expand(I, a, [int(_const(I, x)) % (n + len(l)) for x in l])


def f_squeeze(I, args, kw):
    a, ax = bind('squeeze', [('a', REQ), ('axis', None)], args, kw, I)
    if not isinstance(a, Arr):
        return a
    n = len(a.shape)
    k = [j for j in range(n) if a.shape[j].const == 1] if ax is None else axes(I, ax, n)
    return I.view(a, tuple(ZERO if j in k else slice(None) for j in range(n)))


def f_broadcast_to(I, args, kw):
    a, s = bind('broadcast_to', [('array', REQ), ('shape', REQ)], args, kw, I)
    s = _shapearg(I, s)
    a = I.plain(a)
    if not isinstance(a, Arr):
        return I.newarr(s, I.nume(a))
    z = I.newarr(s, ZERO)
    sh, es, fl, sel = I.broadcast([a, z])
    return I.newarr(sh, es[0], None, fl, sel)


def f_tile(I, args, kw):
    a, r = bind('tile', [('A', REQ), ('reps', REQ)], args, kw, I)
    reps = I.items(r) if isinstance(r, (tuple, ListV)) else [r]
    reps = [I.aslin(x) for x in reps]
    a = I.plain(a)
    if not isinstance(a, Arr):
        return I.newarr(reps, I.nume(a))
    if len(reps) < len(a.shape):
        reps = [ONE] * (len(a.shape) - len(reps)) + reps
    if len(a.shape) < len(reps):
        a = expand(I, a, list(range(len(reps) - len(a.shape))))
    mp = {}
    shp = []
    for k, (s, q) in enumerate(zip(a.shape, reps)):
        if q.const == 1:
            shp.append(s)
        elif s.const == 1:
            shp.append(q)
            mp[T._IXS[k]] = ZERO
        else:
            shp.append(mul(s, q))
            mp[T._IXS[k]] = fn('mod', ix(k), s)
    return I.newarr(shp, subst_any(I.read(a), mp))


def f_meshgrid(I, args, kw):
    idx = kw.pop('indexing', 'xy')
    xs = [I.plain(a) for a in args]
    if len(xs) != 2:
        giveup('meshgrid')
    x, y = xs
    if idx == 'ij':
        return I.newlist([I.newarr((x.shape[0], y.shape[0]), I.relem(x)),
                          I.newarr((x.shape[0], y.shape[0]), subst(I.relem(y), {T._IXS[0]: ix(1)}))])
    return I.newlist([I.newarr((y.shape[0], x.shape[0]), subst(I.relem(x), {T._IXS[0]: ix(1)})),
                      I.newarr((y.shape[0], x.shape[0]), I.relem(y))])


def f_reshape(I, args, kw):
    kw = dict(kw)
    order = kw.pop('order', 'C')
    if order not in ('C', None):
        giveup('reshape order')
    if len(args) > 2:
        args = [args[0], tuple(args[1:])]
    a, s = bind('reshape', [('a', REQ), ('shape', REQ)], args, kw, I)
    a = I.plain(a)
    if isinstance(a, Unk):
        return a
    new = list(_shapearg(I, s))
    if not isinstance(a, Arr):
        a = I.newarr((ONE,), I.nume(a))
    if a.sel:
        giveup('reshape of a selection')
    old = list(a.shape)
    if new == [num(-1)]:
        if len(old) == 1:
            return a
        return Arr(a.cid, a.shape, a.idx, True, {}, a.bool) if not a.flat else a
    if a.flat:
        # flatten().reshape(...) restores
        a = Arr(a.cid, a.shape, a.idx, False, {}, a.bool)
    # resolve -1
    neg1 = [k for k, x in enumerate(new) if x.const == -1]
    if neg1:
        k = neg1[0]
        rem = list(old)
        for j, x in enumerate(new):
            if j == k or x.const == 1:
                continue
            for q, y in enumerate(rem):
                if y is x or I.same(x, y):
                    del rem[q]
                    break
            else:
                giveup('reshape -1')
        p = ONE
        for y in rem:
            p = mul(p, y)
        new[k] = p
    # views: only unit axes added / removed
    o1 = [k for k, x in enumerate(old) if x.const != 1]
    n1 = [k for k, x in enumerate(new) if x.const != 1]
    if len(o1) == len(n1) and all(I.same(old[x], new[y]) for x, y in zip(o1, n1)):
        base = a.idx if a.idx is not None else tuple(ix(j) for j in range(len(old)))
        mp = {T._IXS[x]: ix(y) for x, y in zip(o1, n1)}
        for k, x in enumerate(old):
            if x.const == 1:
                mp[T._IXS[k]] = ZERO
        return Arr(a.cid, tuple(new), tuple(subst(p, mp) for p in base), False, {}, a.bool)
    # common trailing axes
    t = 0
    while t < len(old) and t < len(new) and I.same(old[-1 - t], new[-1 - t]):
        t += 1
    ol, nl = old[:len(old) - t], new[:len(new) - t]
    po, pn = ONE, ONE
    for x in ol:
        po = mul(po, x)
    for x in nl:
        pn = mul(pn, x)
    r = I.same(po, pn)
    if r is False:
        raise PyRaise('ValueError', 'cannot reshape array')
    if r is None:
        giveup('reshape sizes')
    lin = ZERO
    st = ONE
    for k in range(len(nl) - 1, -1, -1):
        lin = add(lin, mul(ix(k), st))
        st = mul(st, nl[k])
    mp = {}
    rem = lin
    for k in range(len(ol) - 1, -1, -1):
        if k == 0:
            mp[T._IXS[k]] = rem
        else:
            mp[T._IXS[k]] = fn('mod', rem, ol[k])
            rem = fn('floordiv', rem, ol[k])
    for q in range(t):
        mp[T._IXS[len(ol) + q]] = ix(len(nl) + q)
    e = subst_any(I.read(a), mp)
    return I.newarr(new, I.simp(e, new))


def f_ravel(I, args, kw):
    kw.pop('order', None)
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    if not isinstance(a, Arr):
        return I.newarr((ONE,), I.nume(a))
    if len(a.shape) == 1 or a.flat:
        return I.copyarr(a)
    if a.sel:
        giveup('flatten of a selection')
    c = I.copyarr(a)
    return Arr(c.cid, c.shape, None, True, {}, c.bool)


def matmul(I, a, b):
    a, b = I.plain(a), I.plain(b)
    for q in (a, b):
        if isinstance(q, Unk):
            return q
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.sel or b.sel:
        giveup('matmul')
    if len(a.shape) == 2 and len(b.shape) == 1:
        v = T.fresh_lv('k')
        e = T.bsum(v, ZERO, sub(b.shape[0], ONE), mul(subst(I.relem(a), {T._IXS[1]: v}),
                                                     subst(I.relem(b), {T._IXS[0]: v})))
        return I.newarr((a.shape[0],), e)
    if len(a.shape) == 2 and len(b.shape) == 2:
        v = T.fresh_lv('k')
        e = T.bsum(v, ZERO, sub(b.shape[0], ONE), mul(subst(I.relem(a), {T._IXS[1]: v}),
                                                     subst(I.relem(b), {T._IXS[0]: v})))
        return I.newarr((a.shape[0], b.shape[1]), e)
    if len(a.shape) == 1 and len(b.shape) == 1:
        return reduce(I, I.binop(ast.Mult(), a, b), None, 'sum')
    if len(a.shape) == 1 and len(b.shape) == 2:
        v = T.fresh_lv('k')
        e = T.bsum(v, ZERO, sub(b.shape[0], ONE), mul(subst(I.relem(a), {T._IXS[0]: v}),
                                                     subst(subst(I.relem(b), {T._IXS[1]: ix(0)}),
                                                           {T._IXS[0]: v}) if False else
                                                     subst(I.relem(b), {T._IXS[0]: v, T._IXS[1]: ix(0)})))
        return I.newarr((b.shape[1],), e)
    giveup('matmul')


def ufunc(g0):
    """the out= and where= arguments of a universal function"""
    def g(I, args, kw):
        if 'out' not in kw and 'where' not in kw:
            return g0(I, args, kw)
        kw = dict(kw)
        out, where = kw.pop('out', None), kw.pop('where', None)
        if isinstance(out, tuple):
            out = out[0]
        r = g0(I, args, kw)
        if where is not None and where is not True:
            if out is None:
                out = _filled_like(None)(I, [r], {})
            r = f_where(I, [where, r, out], {})
        if out is None:
            return r
        I.setitem(out, Ellipsis, r)
        return out
    return g


def elementwise(f):
    def g(I, args, kw):
        if 'out' in kw or 'where' in kw:
            return ufunc(g)(I, args, kw)
        kw.pop('dtype', None)
        for a in args:
            if isinstance(a, Obj) and I.xr_plain(a) is not None:
                return xr_map(I, f, args)
        return I.map(lambda *x: f(*[I.nume(y) for y in x]), *args)
    return g


def elementwise_c(f):
    def g(I, args, kw):
        return I.map(lambda *x: f(*[y if isinstance(y, Cond) else c_not(c_eq(y)) for y in x]), *args)
    return g


def binfn(op):
    def g(I, args, kw):
        if 'out' in kw or 'where' in kw:
            return ufunc(g)(I, args, kw)
        a, b = bind('ufunc', [('x1', REQ), ('x2', REQ)], args, kw, I)
        return I.binop(op(), a, b)
    return g


def cmpfn(op):
    def g(I, args, kw):
        return I.compare(op(), args[0], args[1])
    return g


R180 = None


def _deg2rad(x):
    return mul(x, T.div(T.PI, num(180)))


def _rad2deg(x):
    return mul(x, T.div(num(180), T.PI))


UN = {'exp': lambda x: fn('exp', x), 'log': lambda x: fn('log', x), 'sin': lambda x: fn('sin', x),
      'cos': lambda x: fn('cos', x), 'tan': lambda x: fn('tan', x), 'arcsin': lambda x: fn('arcsin', x),
      'arccos': lambda x: fn('arccos', x), 'arctan': lambda x: fn('arctan', x), 'abs': lambda x: fn('abs', x),
      'absolute': lambda x: fn('abs', x), 'fabs': lambda x: fn('abs', x), 'sqrt': lambda x: fn('sqrt', x),
      'sign': lambda x: fn('sign', x), 'deg2rad': _deg2rad, 'radians': _deg2rad, 'rad2deg': _rad2deg,
      'degrees': _rad2deg, 'negative': neg, 'square': lambda x: mul(x, x),
      'floor': lambda x: fn('floor', x), 'ceil': lambda x: fn('ceil', x), 'reciprocal': lambda x: T.div(ONE, x),
      'maximum': lambda x, y: fn('max', x, y), 'minimum': lambda x, y: fn('min', x, y),
      'float64': lambda x: x, 'float32': lambda x: x, 'positive': lambda x: x,
      'nan_to_num': lambda x: x}


def f_intcast(I, args, kw):
    v = I.plain(args[0])
    if isinstance(v, (Unk,)):
        return v
    return I.map(lambda x: I.nume(x) if I.nume(x).isint else fn('int', I.nume(x)), v)


def f_apply_along(I, args, kw):
    giveup('apply_along_axis')


def f_size(I, args, kw):
    a = I.plain(args[0])
    return arr_attr(I, a, 'size') if isinstance(a, Arr) else ONE


def f_ndim(I, args, kw):
    a = I.plain(args[0])
    return num(a.ndim) if isinstance(a, Arr) else ZERO


def f_shape(I, args, kw):
    a = I.plain(args[0])
    return I.shape_of(a) if isinstance(a, Arr) else ()


def f_allclose(I, args, kw):
    a, b = args[0], args[1]
    d = I.binop(ast.Sub(), a, b)
    r = quant(I, I.map(lambda x: T.c_opaque('close', x) if x.const is None else T.c_const(abs(x.const) < 1e-8), d),
              None, True)
    return r


def f_array_equal(I, args, kw):
    return quant(I, I.compare(ast.Eq(), args[0], args[1]), None, True)


def f_trapz(I, args, kw):
    giveup('trapz')


def f_inv(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    return matinv(I, a)


def matinv(I, a):
    b = T.base('op', ('matinv', I.lamof(a)), a.shape)
    return I.newarr(a.shape, ref(b, ix(0), ix(1)))


def f_dgetrf(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    b = T.base('op', ('lu', I.lamof(a)), a.shape)
    p = T.base('op', ('piv', I.lamof(a)), (a.shape[0],), True)
    return (I.newarr(a.shape, ref(b, ix(0), ix(1))), I.newarr((a.shape[0],), ref(p, ix(0))),
            fn('lu_info', I.lamof(a)))


def f_dgetri(I, args, kw):
    lu, piv = bind('dgetri', [('lu', REQ), ('piv', REQ)], args[:2], {k: v for k, v in kw.items()
                                                                   if k in ('lu', 'piv')}, I)
    if isinstance(lu, Unk):
        return (lu, lu)
    e = I.read(lu)
    at = e.single() if isinstance(e, Poly) else None
    pe = I.read(piv).single() if isinstance(piv, Arr) else None
    if at is not None and at.kind == 'ref' and at.args[0].kind == 'op' and at.args[0].args[0] == 'lu' and \
            at.args[1:] == (ix(0), ix(1)) and pe is not None and pe.kind == 'ref' and \
            pe.args[0].args[:1] == ('piv',) and pe.args[0].args[1] is at.args[0].args[1]:
        l = at.args[0].args[1]
        b = T.base('op', ('matinv', l), lu.shape)
        return (I.newarr(lu.shape, ref(b, ix(0), ix(1))), fn('inv_info', l))
    b = T.base('op', ('dgetri', I.lamof(lu), I.lamof(piv)), lu.shape)
    return (I.newarr(lu.shape, ref(b, ix(0), ix(1))), fn('inv_info', I.lamof(lu)))


# ------------------------------------------------------------------ interpolation
def f_interp1d(I, args, kw):
    x, y, kind, axis, copy, bounds_error, fill, assume = bind('interp1d', [
        ('x', REQ), ('y', REQ), ('kind', 'linear'), ('axis', num(-1)), ('copy', True), ('bounds_error', None),
        ('fill_value', None), ('assume_sorted', False)], args, kw, I)
    x, y = I.plain(x), I.plain(y)
    for q in (x, y):
        if isinstance(q, Unk):
            return q
        if not isinstance(q, Arr):
            raise PyRaise('ValueError', 'interp1d arguments')
    if x.sel or y.sel or x.flat or y.flat:
        giveup('interp1d of a selection')
    if len(x.shape) != 1:
        raise PyRaise('ValueError', 'x must be one-dimensional')
    k = axes(I, axis, len(y.shape))[0]
    r = I.same(x.shape[0], y.shape[k])
    if r is False:
        raise PyRaise('ValueError', 'x and y arrays must be equal in length along interpolation axis.')
    if r is None:
        I.note('assumed equal sizes in interp1d: %s = %s' % (x.shape[0], y.shape[k]))
    if isinstance(kind, Poly):
        kind = str(kind.const)
    if fill == 'extrapolate':
        mode = 'extrapolate'
        if bounds_error is True:
            raise PyRaise('ValueError', 'Cannot extrapolate and raise at the same time.')
    else:
        mode = 'raise' if bounds_error is not False else 'nan'
        if fill is not None and bounds_error is not True:
            mode = 'fill'
    lx = _lam1(I, x, 0)
    yl = I.relem(y)
    n = len(y.shape)

    def call(I, a, kw2):
        xn = I.plain(a[0])
        if isinstance(xn, Unk):
            return xn
        if isinstance(xn, Arr) and (xn.sel or len(xn.shape) != 1):
            giveup('interp1d evaluation points')
        v = T.fresh_lv('y')
        if isinstance(xn, Arr):
            ly = lam((y.shape[k],), subst(yl, {T._IXS[k]: v}), [v])
            xe = subst(I.relem(xn), {T._IXS[0]: ix(k)})
            shp = list(y.shape)
            shp[k] = xn.shape[0]
            return I.newarr(shp, fn('interp1d', xe, lx, ly, kind, mode))
        mp = {T._IXS[k]: v}
        mp.update({T._IXS[j]: ix(j - 1) for j in range(k + 1, n)})
        ly = lam((y.shape[k],), subst(yl, mp), [v])
        e = fn('interp1d', I.nume(xn), lx, ly, kind, mode)
        if n == 1:
            return e
        return I.newarr([s for j, s in enumerate(y.shape) if j != k], e)
    return Opaque('interp1d', {}, call)


def f_spline(I, args, kw):
    x, y, w, bbox, k, s, ext, chk = bind('UnivariateSpline', [
        ('x', REQ), ('y', REQ), ('w', None), ('bbox', None), ('k', num(3)), ('s', None), ('ext', ZERO),
        ('check_finite', False)], args, kw, I)
    x, y = I.plain(x), I.plain(y)
    for q in (x, y):
        if isinstance(q, Unk):
            return q
    if I.same(x.shape[0], y.shape[0]) is False:
        raise PyRaise('ValueError', 'x, y, and w should have a same length')
    opts = 'k%s,s%s' % (I.tostr(k) if not isinstance(k, Poly) else k.const, I.tostr(s))
    return mkspline(_lam1(I, x, 0), _lam1(I, y, 0), opts, 0)


def mkspline(lx, ly, opts, nu):
    def call(I, a, kw):
        q, n, ext = bind('spline', [('x', REQ), ('nu', ZERO), ('ext', None)], a, kw, I)
        d = nu + int(_const(I, n))
        return I.map(lambda v: fn('spline', I.nume(v), lx, ly, opts, 'd%d' % d), q)

    def deriv(I, a, kw):
        n = int(_const(I, a[0])) if a else (int(_const(I, kw['n'])) if 'n' in kw else 1)
        return mkspline(lx, ly, opts, nu + n)
    return Opaque('spline', {'derivative': Builtin('derivative', deriv)}, call)


# ------------------------------------------------------------------ library modules
def _np_attrs():
    d = {}
    for k, f in UN.items():
        d[k] = Builtin('np.' + k, elementwise(f))
    d.update({n: Builtin('np.' + n, f) for n, f in dict(
        sum=f_sum, mean=f_mean, average=f_average, amax=_minmax('bmax'), max=_minmax('bmax'), amin=_minmax('bmin'),
        min=_minmax('bmin'), nanmax=_minmax('bmax'), nanmin=_minmax('bmin'), nansum=f_sum, nanmean=f_mean,
        prod=f_prod, any=f_any, all=f_all, swapaxes=f_swapaxes, transpose=f_transpose, moveaxis=f_moveaxis,
        flip=f_flip, flipud=lambda I, a, k: f_flip(I, [a[0], ZERO], {}),
        fliplr=lambda I, a, k: f_flip(I, [a[0], ONE], {}), roll=f_roll, diff=f_diff, cumsum=f_cumsum,
        digitize=f_digitize, interp=f_interp, linspace=f_linspace, arange=f_arange, zeros=_filled(ZERO),
        ones=_filled(ONE), empty=_filled(None), zeros_like=_filled_like(ZERO), ones_like=_filled_like(ONE),
        empty_like=_filled_like(None), full=f_full, full_like=f_full_like, array=f_array, asarray=f_asarray,
        asanyarray=f_asarray, ascontiguousarray=f_asarray, asfortranarray=f_asarray, copy=f_copy, where=f_where,
        argwhere=f_argwhere, count_nonzero=f_count_nonzero, isnan=f_isnan, isfinite=f_isfinite, clip=f_clip,
        concatenate=f_concatenate, stack=f_stack, vstack=f_stackn('v'), hstack=f_stackn('h'),
        expand_dims=f_expand_dims, squeeze=f_squeeze, broadcast_to=f_broadcast_to, tile=f_tile,
        meshgrid=f_meshgrid, reshape=f_reshape, ravel=f_ravel,
        multiply=binfn(ast.Mult), add=binfn(ast.Add), subtract=binfn(ast.Sub), divide=binfn(ast.Div),
        true_divide=binfn(ast.Div), power=binfn(ast.Pow), floor_divide=binfn(ast.FloorDiv), mod=binfn(ast.Mod),
        dot=lambda I, a, k: matmul(I, a[0], a[1]), matmul=lambda I, a, k: matmul(I, a[0], a[1]),
        less=cmpfn(ast.Lt), greater=cmpfn(ast.Gt), less_equal=cmpfn(ast.LtE), greater_equal=cmpfn(ast.GtE),
        equal=cmpfn(ast.Eq), not_equal=cmpfn(ast.NotEq),
        logical_and=elementwise_c(c_and), logical_or=elementwise_c(c_or), logical_not=elementwise_c(c_not),
        int64=f_intcast, int32=f_intcast, int_=f_intcast, size=f_size, ndim=f_ndim, shape=f_shape,
        allclose=f_allclose, isclose=f_allclose, array_equal=f_array_equal, timedelta64=f_timedelta,
        atleast_1d=lambda I, a, k: asarray(I, a[0]) if isinstance(asarray(I, a[0]), Arr) else stack(I, [a[0]]),
        errstate=lambda I, a, k: Unk('errstate'), nonzero=f_where, isscalar=lambda I, a, k: isinstance(
            I.force(a[0]), (Poly, bool, Cond))).items()})
    from .npmore import FUNCS
    d.update({n: Builtin('np.' + n, f) for n, f in FUNCS.items() if n in names_of('numpy')})
    from .libmore import NUMPY
    d.update({n: Builtin('np.' + n, f) for n, f in NUMPY.items() if n in names_of('numpy')})
    d.update(bitwise_and=d['logical_and'], bitwise_or=d['logical_or'], invert=d['logical_not'],
             float_power=d['power'], remainder=d['mod'])
    d.update(pi=T.PI, newaxis=None, nan=fn('special', 'nan'), inf=fn('special', 'inf'), e=fn('exp', ONE),
             bool_=Builtin('bool', b_bool))
    nd = Builtin('ndarray', lambda I, a, k: giveup('ndarray()'))
    d['ndarray'] = nd
    ma_core = ModuleV('numpy.ma.core', None, {'MaskedArray': Builtin('MaskedArray', lambda I, a, k: giveup('ma'))})
    d['ma'] = ModuleV('numpy.ma', None, {
        'is_masked': Builtin('is_masked', lambda I, a, k: False), 'core': ma_core,
        'MaskedArray': ma_core.attrs['MaskedArray'],
        'isMaskedArray': Builtin('isMaskedArray', lambda I, a, k: False)})
    d['linalg'] = ModuleV('numpy.linalg', None, {'inv': Builtin('inv', f_inv)})
    return d


def f_timedelta(I, args, kw):
    from . import xrmodel
    v, unit = bind('timedelta64', [('value', REQ), ('unit', None)], args, kw, I)
    return xrmodel.timedelta(I, v, unit)


def _namedtuple(I, args, kw):
    name, fields, defaults = bind('namedtuple', [('typename', REQ), ('field_names', REQ), ('defaults', None)],
                                  args, kw, I)
    if isinstance(fields, str):
        fs = fields.replace(',', ' ').split()
    else:
        fs = I.items(fields)
    c = ClassV(name, [], I.alloc({}))
    c.fields = list(fs)
    if defaults is not None:
        ds = I.items(defaults)
        c.nt_defaults = dict(zip(fs[len(fs) - len(ds):], ds))
    return c


def _abstract(I, args, kw):
    f = args[0]
    if isinstance(f, FuncV):
        f.abstract = True
    elif isinstance(f, PropV) and isinstance(f.fget, FuncV):
        f.fget.abstract = True
    return f


def _product(I, args, kw):
    ls = [I.items(a) for a in args]
    return I.newlist([tuple(x) for x in _it.product(*ls)])


def _scalar_math(f):
    def g(I, args, kw):
        a = [I.force(x) for x in args]
        for i, x in enumerate(a):
            if isinstance(x, Unk):
                return x
            if isinstance(x, Arr):
                y = I.aslin(x)
                if y is None:
                    raise PyRaise('TypeError', 'only length-1 arrays can be converted to Python scalars')
                a[i] = y
            elif not isinstance(x, (Poly, bool, Cond)):
                raise PyRaise('TypeError', 'must be real number')
        return I.map(lambda *x: f(*[I.nume(y) for y in x]), *a)
    return g


def library(I, name):
    cache = I.__dict__.setdefault('_libs', {})
    if name in cache:
        return cache[name]
    m = _library(I, name)
    cache[name] = m
    return m


def _library(I, name):
    from .libmore import module
    m = module(I, name)
    if m is not None:
        return ModuleV(name, None, m)
    if name == 'numpy':
        return ModuleV('numpy', None, _np_attrs())
    if name == 'math':
        d = {k: Builtin('math.' + k, _scalar_math(UN[k])) for k in ('exp', 'log', 'sin', 'cos', 'tan', 'sqrt', 'floor',
                                                                   'ceil', 'fabs', 'radians', 'degrees')}
        d['asin'] = Builtin('math.asin', _scalar_math(UN['arcsin']))
        d['acos'] = Builtin('math.acos', _scalar_math(UN['arccos']))
        d['atan'] = Builtin('math.atan', _scalar_math(UN['arctan']))
        d['pow'] = Builtin('math.pow', _scalar_math(lambda x, y: T.power(x, y)))
        d['pi'] = T.PI
        d['fsum'] = Builtin('fsum', b_sum)
        d['inf'] = fn('special', 'inf')
        d['nan'] = fn('special', 'nan')
        return ModuleV('math', None, d)
    if name == 'scipy.interpolate':
        return ModuleV(name, None, {'interp1d': Builtin('interp1d', f_interp1d),
                                    'UnivariateSpline': Builtin('UnivariateSpline', f_spline)})
    if name == 'scipy.linalg.lapack':
        return ModuleV(name, None, {'dgetrf': Builtin('dgetrf', f_dgetrf), 'dgetri': Builtin('dgetri', f_dgetri)})
    if name == 'scipy.linalg':
        return ModuleV(name, None, {'inv': Builtin('inv', f_inv), 'lapack': library(I, 'scipy.linalg.lapack')})
    if name == 'scipy':
        return ModuleV(name, None, {'interpolate': library(I, 'scipy.interpolate'),
                                    'linalg': library(I, 'scipy.linalg')})
    if name == 'collections':
        return ModuleV(name, None, {'namedtuple': Builtin('namedtuple', _namedtuple),
                                    'OrderedDict': BUILTINS['dict']})
    if name == 'abc':
        c = ClassV('ABC', [], I.alloc({}))
        return ModuleV(name, None, {'ABC': c, 'abstractmethod': Builtin('abstractmethod', _abstract),
                                    'ABCMeta': Unk('ABCMeta')})
    if name == 'warnings':
        return ModuleV(name, None, {'warn': Builtin('warn', b_warn), 'simplefilter': Builtin(
            'simplefilter', lambda I, a, k: None), 'catch_warnings': Builtin('cw', lambda I, a, k: Unk('cw'))})
    if name == 'xarray':
        from . import xrmodel
        return ModuleV(name, None, xrmodel.attrs(I))
    if name == 'hnbuiltins':
        from . import xrmodel
        return xrmodel.builtin_module()
    return ModuleV(name, None, {})


def b_warn(I, args, kw):
    I.warned = getattr(I, 'warned', 0) + 1
    return None


def builtin_attr(I, o, name):
    from . import libmore
    return libmore.builtin_attr(I, o, name)


_names = {}


def names_of(lib):
    """the public names of a library version as listed in libnames.txt"""
    if not _names:
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'libnames.txt')) as f:
            for ln in f:
                w = ln.split()
                _names[w[0]] = set(w[2:])
    return _names[lib]


def libattr(I, o, name):
    if o.name == 'numpy' and name not in ('random', 'testing', 'dtype', 'float', 'int', 'bool', 'object'):
        if name not in names_of('numpy'):
            raise PyRaise('AttributeError', "module 'numpy' has no attribute '%s'" % name)
    if o.name in ('numpy',) and name in ('float', 'int', 'bool', 'object'):
        raise PyRaise('AttributeError', 'np.%s was removed' % name)
    full = o.name + '.' + name
    if full in ('scipy.interpolate', 'scipy.linalg', 'scipy.linalg.lapack'):
        return library(I, full)
    if o.name in ('scipy.interpolate', 'scipy.linalg', 'scipy.linalg.lapack', 'xarray') and \
            name not in names_of(o.name):
        raise PyRaise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
    return Unk(full)


# ------------------------------------------------------------------ builtins
def b_len(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, Arr):
        return I.shape_of(v)[0]
    if isinstance(v, (tuple, str)):
        return num(len(v))
    if isinstance(v, (ListV, DictV)):
        return num(len(I.h[v.id]))
    if isinstance(v, RangeV):
        return I.range_count(v)
    if isinstance(v, Obj):
        m = I.class_lookup(v.cls, '__len__')
        if m is not None:
            return I.call(I.bind(m, v), [], {})
        p = I.xr_plain(v)
        if p is not None:
            return I.shape_of(p)[0]
    if isinstance(v, (Poly, bool, type(None))):
        raise PyRaise('TypeError', 'object has no len()')
    giveup('len')


def b_range(I, args, kw):
    a = [I.aslin(x) for x in args]
    for x, y in zip(a, args):
        if isinstance(y, Unk):
            return y
        if x is None or isinstance(x.const, Fraction):
            raise PyRaise('TypeError', 'range() integer')
    if len(a) == 1:
        return RangeV(ZERO, a[0], ONE)
    if len(a) == 2:
        return RangeV(a[0], a[1], ONE)
    return RangeV(a[0], a[1], a[2])


def b_sum(I, args, kw):
    v = I.force(args[0])
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    if isinstance(v, Unk):
        return v
    if isinstance(v, Arr) and len(v.shape) == 1:
        return I.binop(ast.Add(), reduce(I, v, None, 'sum'), start)
    if isinstance(v, RangeV) or isinstance(v, IterV):
        c = I.iter_concrete(v)
        if c is None:
            return I.binop(ast.Add(), reduce(I, asarray(I, v), None, 'sum'), start)
    acc = start
    for x in I.items(v):
        acc = I.binop(ast.Add(), acc, x)
    return acc


def b_abs(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Obj):
        return xr_map(I, UN['abs'], [v])
    return I.map(lambda x: fn('abs', I.nume(x)), v)


def _b_minmax(name):
    def f(I, args, kw):
        if kw:
            giveup('min/max keyword')
        if len(args) == 1:
            v = I.force(args[0])
            if isinstance(v, Arr):
                return reduce(I, v, None, 'bmax' if name == 'max' else 'bmin')
            args = I.items(v)
        xs = []
        for a in args:
            p = I.aslin(a)
            if isinstance(a, Unk):
                return a
            if p is None:
                giveup('min/max')
            xs.append(p)
        xs = dedupe(xs)
        best = []
        for i, x in enumerate(xs):
            dom = False
            for j, y in enumerate(xs):
                if i != j:
                    d = sub(y, x) if name == 'max' else sub(x, y)
                    if I.ctx.prove(d) and not (j > i and I.ctx.prove(neg(d))):
                        dom = True
            if not dom:
                best.append(x)
        if len(best) == 1:
            return best[0]
        return fn(name, *(best or xs))
    return f


def b_int(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, str):
        try:
            return num(int(v))
        except ValueError:
            raise PyRaise('ValueError', 'int()')
    p = I.aslin(v)
    if p is None:
        if v is None:
            raise PyRaise('TypeError', 'int() argument')
        giveup('int()')
    if p.isint or isinstance(p.const, int):
        return p
    if p.const is not None:
        return num(int(p.const))
    return fn('int', p)


def b_float(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, str):
        giveup('float(str)')
    if v is None:
        raise PyRaise('TypeError', 'float() argument')
    p = I.aslin(v)
    if p is None:
        if isinstance(v, Arr):
            raise PyRaise('TypeError', 'only size-1 arrays can be converted to Python scalars')
        giveup('float()')
    return p


def b_bool(I, args, kw):
    return I.truth(args[0]) if args else False


def b_str(I, args, kw):
    return I.tostr(I.force(args[0])) if args else ''


TYPES = {}


def b_isinstance(I, args, kw):
    v, t = I.force(args[0]), I.force(args[1])
    if isinstance(t, tuple):
        rs = [b_isinstance(I, [v, x], {}) for x in t]
        if True in rs:
            return True
        if all(r is False for r in rs):
            return False
        return [r for r in rs if r is not False][0]
    if isinstance(v, Unk):
        return v
    if isinstance(t, Unk):
        return t
    if isinstance(v, Choice):
        return I.lazy(v.c, lambda: b_isinstance(I, [v.a, t], {}), lambda: b_isinstance(I, [v.b, t], {}))
    if isinstance(t, ClassV):
        if isinstance(v, Obj):
            return t in v.cls.mro()
        if isinstance(v, ExcV) and v.cls is not None:
            return t in v.cls.mro()
        if isinstance(v, NTuple):
            return v.cls is t
        return False
    if isinstance(t, Builtin):
        n = t.name
        if n == 'ndarray':
            return isinstance(v, Arr)
        if n == 'MaskedArray':
            return False
        if n in ('int', 'np.int64', 'np.int_'):
            return isinstance(v, bool) or (isinstance(v, Poly) and (v.isint or isinstance(v.const, int)))
        if n in ('float', 'np.float64'):
            if isinstance(v, Poly):
                return not (v.isint or isinstance(v.const, int))
            return False
        if n == 'bool':
            return isinstance(v, (bool, Cond))
        if n == 'str':
            return isinstance(v, str)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n == 'list':
            return isinstance(v, ListV) and not isinstance(v, (DictV, SetV))
        if n == 'dict':
            return isinstance(v, DictV)
        if n == 'slice':
            return isinstance(v, slice)
        if n in ('property',):
            return isinstance(v, PropV)
    giveup('isinstance')


def b_tuple(I, args, kw):
    return tuple(I.items(args[0])) if args else ()


def b_list(I, args, kw):
    if not args:
        return I.newlist([])
    v = I.force(args[0])
    if isinstance(v, Unk):
        return v
    if I.iter_concrete(v) is None:
        return I.symlist(I.copyarr(asarray(I, v)))
    return I.newlist(I.items(v))


def b_dict(I, args, kw):
    d = {}
    if args:
        v = I.force(args[0])
        if isinstance(v, Unk):
            return v
        if isinstance(v, DictV):
            d.update(I.h[v.id])
        elif isinstance(v, Obj) and I.class_lookup(v.cls, 'keys') is not None:
            x = xr_call(I, 'mapping', v)
            d.update(x)
        else:
            for kv in I.items(v):
                k, x = I.items(kv)
                d[I.key(k)] = x
    d.update(kw)
    return I.newdict(d)


def b_set(I, args, kw):
    l = []
    for x in (I.items(args[0]) if args else []):
        if not any(x is y or (type(x) is type(y) and not isinstance(x, (Poly, Cond)) and x == y) for y in l):
            l.append(x)
    return SetV(I.alloc(tuple(l)))


def b_zip(I, args, kw):
    ls = [I.iter_concrete(a) for a in args]
    if any(l is None for l in ls):
        its = [I.sym_iter(a) for a in args]
        cnt = its[0].cnt
        for q in its[1:]:
            if not I.same(cnt, q.cnt):
                if q.cnt.const is not None and cnt.const is None:
                    cnt = q.cnt
                elif I.same(cnt, q.cnt) is None:
                    giveup('zip of different lengths')
        return IterV(cnt, lambda t: tuple(q.f(t) for q in its))
    return I.newlist([tuple(x) for x in zip(*ls)])


def b_enumerate(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    l = I.iter_concrete(args[0])
    if l is None:
        it = I.sym_iter(args[0])
        return IterV(it.cnt, lambda t: (add(t, start), it.f(t)))
    return I.newlist([(add(num(i), start), x) for i, x in enumerate(l)])


def b_getattr(I, args, kw):
    o, n = args[0], I.force(args[1])
    if not isinstance(n, str):
        giveup('getattr with unknown name')
    if len(args) > 2:
        try:
            fr = I.frames[-1]
            k = len(fr.exits)
            return I.getattr_(o, n)
        except PyRaise as e:
            if e.name == 'AttributeError':
                return args[2]
            raise
    return I.getattr_(o, n)


def b_hasattr(I, args, kw):
    try:
        r = I.getattr_(args[0], I.force(args[1]))
        return r if isinstance(r, Unk) else True
    except PyRaise as e:
        if e.name == 'AttributeError':
            return False
        raise


def b_setattr(I, args, kw):
    n = I.force(args[1])
    if not isinstance(n, str):
        giveup('setattr with unknown name')
    I.setattr_(args[0], n, args[2])


def b_super(I, args, kw):
    if args:
        return SuperV(args[0], args[1])
    for fr in reversed(I.frames):
        if fr.cls is not None:
            return SuperV(fr.cls, fr.selfarg)
    raise PyRaise('RuntimeError', 'super(): no arguments')


def b_type(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Unk):
        return v
    return Unk('type()')


def b_reversed(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, RangeV):
        n = I.range_count(v)
        return RangeV(add(v.lo, mul(v.step, sub(n, ONE))), sub(v.lo, v.step), neg(v.step))
    if isinstance(v, Arr):
        return f_flip(I, [v, ZERO], {})
    return I.newlist(I.items(v)[::-1])


def b_sorted(I, args, kw):
    l = I.items(args[0])
    if all(isinstance(x, str) for x in l):
        r = sorted(l)
    elif all(isinstance(x, Poly) and x.const is not None for x in l):
        r = sorted(l, key=lambda x: x.const)
    else:
        giveup('sorted')
    if kw.get('reverse') is True:
        r = r[::-1]
    return I.newlist(r)


def b_map(I, args, kw):
    ls = [I.items(a) for a in args[1:]]
    return I.newlist([I.call(args[0], list(x), {}) for x in zip(*ls)])


def b_filter(I, args, kw):
    out = []
    for x in I.items(args[1]):
        t = I.truth(x if args[0] is None else I.call(args[0], [x], {}))
        if not isinstance(t, bool):
            giveup('filter')
        if t:
            out.append(x)
    return I.newlist(out)


def _b_anyall(isall):
    def f(I, args, kw):
        v = I.force(args[0])
        if isinstance(v, Arr):
            return quant(I, v, None, isall)
        cs = []
        for x in I.items(v):
            t = I.truth(x)
            if isinstance(t, bool):
                if t != isall:
                    return t
                continue
            cs.append(t)
        if not cs:
            return isall
        return I.tobool(c_and(*cs) if isall else c_or(*cs))
    return f


def b_round(I, args, kw):
    p = I.aslin(args[0])
    if p is None:
        giveup('round')
    if p.isint:
        return p
    if p.const is not None and len(args) == 1:
        return num(round(p.const))
    return fn('round', p)


def b_slice(I, args, kw):
    a = list(args)
    if len(a) == 1:
        a = [None, a[0]]
    while len(a) < 3:
        a.append(None)
    return slice(*a)


def b_property(I, args, kw):
    return PropV(args[0] if args else kw.get('fget'), args[1] if len(args) > 1 else kw.get('fset'))


def b_divmod(I, args, kw):
    return (I.binop(ast.FloorDiv(), args[0], args[1]), I.binop(ast.Mod(), args[0], args[1]))


def b_next(I, args, kw):
    l = I.items(args[0])
    if l:
        return l[0]
    if len(args) > 1:
        return args[1]
    raise PyRaise('StopIteration', '')


def b_iter(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Obj):
        m = I.class_lookup(v.cls, '__iter__')
        if m is not None:
            return I.call(I.bind(m, v), [], {})
    return v


def b_vars(I, args, kw):
    return I.getattr_(args[0], '__dict__')


BUILTINS = {n: Builtin(n, f) for n, f in dict(
    len=b_len, range=b_range, sum=b_sum, abs=b_abs, min=_b_minmax('min'), max=_b_minmax('max'), int=b_int,
    float=b_float, str=b_str, bool=b_bool, isinstance=b_isinstance, tuple=b_tuple, list=b_list, dict=b_dict,
    set=b_set, zip=b_zip, enumerate=b_enumerate, print=lambda I, a, k: None, getattr=b_getattr, hasattr=b_hasattr,
    setattr=b_setattr, super=b_super, type=b_type, reversed=b_reversed, sorted=b_sorted, map=b_map,
    filter=b_filter, any=_b_anyall(False), all=_b_anyall(True), round=b_round, slice=b_slice,
    property=b_property, divmod=b_divmod, next=b_next, iter=b_iter, vars=b_vars, repr=b_str,
    object=lambda I, a, k: Unk('object()'), callable=lambda I, a, k: isinstance(
        I.force(a[0]), (FuncV, BoundV, Builtin, ClassV)), id=lambda I, a, k: Unk('id'),
    frozenset=b_set, issubclass=lambda I, a, k: isinstance(a[0], ClassV) and isinstance(a[1], ClassV) and
    a[1] in a[0].mro()).items()}
BUILTINS['staticmethod'] = Builtin('staticmethod', lambda I, a, k: StaticV(a[0]))
BUILTINS['classmethod'] = Builtin('classmethod', lambda I, a, k: ClassMV(a[0]))
BUILTINS['pow'] = Builtin('pow', lambda I, a, k: I.binop(ast.Pow(), a[0], a[1]))
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['NotImplemented'] = Unk('NotImplemented')


def exc_builtin(name):
    return Builtin(name, lambda I, a, k: ExcV(name, I.tostr(a[0]) if a else ''))


def call_name(I, name, args, kw):
    d = {'any': f_any, 'all': f_all, 'sum': f_sum}
    return d[name](I, args, kw)


# ------------------------------------------------------------------ attributes
def _meth(f, o):
    return Builtin('method', lambda I, a, k: f(I, [o] + list(a), dict(k)))


ARR_METHODS = {
    'sum': f_sum, 'mean': f_mean, 'max': _minmax('bmax'), 'min': _minmax('bmin'), 'swapaxes': f_swapaxes,
    'transpose': f_transpose, 'reshape': f_reshape, 'flatten': f_ravel, 'ravel': f_ravel, 'cumsum': f_cumsum,
    'any': f_any, 'all': f_all, 'copy': f_copy, 'squeeze': f_squeeze, 'clip': f_clip, 'prod': f_prod}


def UN_ROUND(I, args, kw):
    giveup('round')


def arr_attr(I, a, name):
    if name == 'shape':
        return I.shape_of(a)
    if name == 'size':
        r = ONE
        for s in I.shape_of(a):
            r = mul(r, s)
        if 'all' in a.sel:
            r = reduce(I, a, None, 'sum', False, True)
        return r
    if name == 'ndim':
        return num(1 if 'all' in a.sel else a.ndim)
    if name == 'T':
        return permute(I, a, list(range(len(a.shape)))[::-1])
    if name == 'dtype':
        return Unk('dtype')
    if name in ('values', 'data') and name == 'data':
        return Unk('memory buffer')
    if name in ('real',):
        return a
    f = ARR_METHODS.get(name)
    if f is not None:
        return _meth(f, a)
    if name == 'astype':
        def astype(I, args, kw):
            t = args[0]
            if isinstance(t, Builtin) and t.name in ('int', 'np.int64', 'np.int32', 'np.int_'):
                return f_intcast(I, [a], {})
            if isinstance(t, Builtin) and t.name in ('float', 'np.float64', 'np.float32'):
                return I.copyarr(a) if not a.bool else I.map(lambda x: I.nume(x), a)
            if isinstance(t, Builtin) and t.name == 'bool':
                return I.map(lambda x: x if isinstance(x, Cond) else c_not(c_eq(x)), a)
            if t in ('float64', 'float32', 'f8', 'f4', 'float'):
                return I.copyarr(a) if not a.bool else I.map(lambda x: I.nume(x), a)
            giveup('astype')
        return Builtin('astype', astype)
    if name == 'fill':
        return Builtin('fill', lambda I, args, kw: I.setitem(a, Ellipsis, args[0]))
    if name == 'item':
        return Builtin('item', lambda I, args, kw: I.aslin(a) if not args else I.getitem(a, args[0]))
    if name == 'tolist':
        return Builtin('tolist', lambda I, args, kw: I.newlist(I.items(a)))
    if name == 'setflags':
        return Builtin('setflags', lambda I, args, kw: None)
    if name in ('dot', 'diagonal', 'repeat', 'take', 'trace', 'ptp'):
        from .npmore import FUNCS
        return _meth((lambda I, a, k: matmul(I, a[0], a[1])) if name == 'dot' else FUNCS[name], a)
    if name in ('argmin', 'argmax'):
        from .libmore import NUMPY
        return _meth(NUMPY[name], a)
    if name == 'nonzero':
        return _meth(f_where, a)
    if name == 'searchsorted':
        from .npmore import FUNCS
        return _meth(FUNCS[name], a)
    if name == 'round':
        return _meth(UN_ROUND, a)
    if name not in names_of('numpy.ndarray'):
        raise PyRaise('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name)
    return Unk('ndarray.' + name)


def num_attr(I, o, name):
    if name == 'size':
        return ONE
    if name == 'shape':
        return ()
    if name == 'ndim':
        return ZERO
    if name == 'values':
        return o
    if name in ('sum', 'mean', 'max', 'min', 'item', 'copy', 'squeeze'):
        return Builtin(name, lambda I, a, k: I.nume(o))
    if name == 'astype':
        return Builtin(name, lambda I, a, k: o)
    if name == 'is_integer':
        return Builtin(name, lambda I, a, k: o.isint)
    if name not in names_of('numpy.float64'):
        raise PyRaise('AttributeError', "number has no attribute '%s'" % name)
    return Unk('number.' + name)


def _plain_text(I, x):
    x = I.force(x)
    t = I.tostr(x)
    if '<?>' in t:
        return None
    c = getattr(x, 'const', None)
    if c is not None:
        return int(c) if c.denominator == 1 and x.isint else float(c)
    return x if isinstance(x, (str, bool)) or x is None else None


def b_format(I, o, args, kw):
    a, k = [_plain_text(I, x) for x in args], {n: _plain_text(I, x) for n, x in kw.items()}
    if '<?>' in o or any(x is None for x in a) or any(x is None for x in k.values()):
        return o + '<?>'
    try:
        return o.format(*a, **k)
    except IndexError:
        raise PyRaise('IndexError', 'replacement index out of range')
    except KeyError as e:
        raise PyRaise('KeyError', str(e))
    except (ValueError, TypeError, AttributeError):
        return o + '<?>'


def b_percent(I, o, b):
    if isinstance(b, DictV):
        t = {n: _plain_text(I, x) for n, x in I.h[b.id].items()}
        bad = None in t.values()
    else:
        t = tuple(_plain_text(I, x) for x in (b if isinstance(b, tuple) else (b,)))
        bad = None in t
    if bad or '<?>' in o:
        return o + '<?>'
    try:
        return o % t
    except (TypeError, ValueError, KeyError):
        return o + '<?>'


def seq_attr(I, o, name):
    if isinstance(o, str):
        if name == 'format':
            return Builtin('format', lambda I, a, k: b_format(I, o, a, k))
        if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'join', 'replace', 'split', 'title',
                    'capitalize', 'lstrip', 'rstrip'):
            def g(I, a, k):
                a = [tuple(I.items(x)) if isinstance(x, ListV) else x for x in a]
                if '<?>' in o or any(isinstance(x, str) and '<?>' in x for x in a):
                    return o + '<?>'
                r = getattr(o, name)(*a)
                return I.newlist(r) if isinstance(r, list) else r
            return Builtin(name, g)
        raise PyRaise('AttributeError', 'str.' + name)
    if isinstance(o, DictV):
        def items(I, a, k):
            return I.newlist([(kk if not isinstance(kk, (int, Fraction)) else num(kk), vv)
                              for kk, vv in I.h[o.id].items()])
        if name == 'items':
            return Builtin(name, items)
        if name == 'keys':
            return Builtin(name, lambda I, a, k: I.newlist(list(I.h[o.id].keys())))
        if name == 'values':
            return Builtin(name, lambda I, a, k: I.newlist(list(I.h[o.id].values())))
        if name == 'get':
            def get(I, a, k):
                d = I.h[o.id]
                kk = I.key(I.force(a[0]))
                if kk in d:
                    return I.force(d[kk])
                if '?' in d:
                    return d['?']
                return a[1] if len(a) > 1 else k.get('default')
            return Builtin(name, get)
        if name == 'update':
            def update(I, a, k):
                d = dict(I.h[o.id])
                if a:
                    x = b_dict(I, a, {})
                    if isinstance(x, Unk):
                        giveup(x.why)
                    d.update(I.h[x.id])
                d.update(k)
                I.setc(o.id, d)
            return Builtin(name, update)
        if name == 'copy':
            return Builtin(name, lambda I, a, k: I.newdict(I.h[o.id]))
        if name in ('pop', 'setdefault'):
            def pop(I, a, k):
                d = dict(I.h[o.id])
                kk = I.key(a[0])
                if name == 'setdefault':
                    if kk not in d:
                        d[kk] = a[1] if len(a) > 1 else None
                        I.setc(o.id, d)
                    return d[kk]
                if kk not in d:
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise('KeyError', I.tostr(kk))
                v = d.pop(kk)
                I.setc(o.id, d)
                return v
            return Builtin(name, pop)
        if name == 'clear':
            return Builtin(name, lambda I, a, k: I.setc(o.id, {}))
        raise PyRaise('AttributeError', 'dict.' + name)
    if isinstance(o, SetV):
        if name == 'add':
            def sadd(I, a, k):
                if a[0] not in I.h[o.id]:
                    I.setc(o.id, I.h[o.id] + (a[0],))
            return Builtin(name, sadd)
        return Unk('set.' + name)
    if isinstance(o, ListV):
        if name == 'append':
            def append(I, a, k):
                if isinstance(o, Arr):
                    giveup('append')
                I.setc(o.id, I.h[o.id] + (a[0],))
            return Builtin(name, append)
        if name == 'extend':
            return Builtin(name, lambda I, a, k: I.setc(o.id, I.h[o.id] + tuple(I.items(a[0]))))
        if name == 'insert':
            def insert(I, a, k):
                l = list(I.h[o.id])
                l.insert(I.constint(a[0]), a[1])
                I.setc(o.id, tuple(l))
            return Builtin(name, insert)
        if name == 'pop':
            def lpop(I, a, k):
                l = list(I.h[o.id])
                if not l:
                    raise PyRaise('IndexError', 'pop from empty list')
                v = l.pop(I.constint(a[0]) if a else -1)
                I.setc(o.id, tuple(l))
                return v
            return Builtin(name, lpop)
        if name == 'reverse':
            return Builtin(name, lambda I, a, k: I.setc(o.id, I.h[o.id][::-1]))
        if name == 'copy':
            return Builtin(name, lambda I, a, k: I.newlist(I.h[o.id]))
        if name == 'clear':
            return Builtin(name, lambda I, a, k: I.setc(o.id, ()))
    if name in ('index', 'count'):
        def index(I, a, k):
            l = I.items(o)
            r = [i for i, x in enumerate(l) if I.truth(I.compare(ast.Eq(), x, a[0])) is True]
            if name == 'count':
                return num(len(r))
            if not r:
                raise PyRaise('ValueError', 'not in list')
            return num(r[0])
        return Builtin(name, index)
    raise PyRaise('AttributeError', name)


# ------------------------------------------------------------------ f2py kernels
def kernel_call(I, name, args, kw):
    from . import fort
    k = I.kernels.get(name)
    if k is None:
        return Unk('kernel ' + name)
    names = k.required + k.optional
    if len(args) > len(names):
        raise PyRaise('TypeError', '%s() takes at most %d arguments (%d given)' % (name, len(names), len(args)))
    d = {}
    for n, v in zip(names, args):
        d[n] = v
    for n, v in kw.items():
        if n in d:
            raise PyRaise('TypeError', '%s() got multiple values for %s' % (name, n))
        if n not in names:
            raise PyRaise('TypeError', "%s() got an unexpected keyword argument '%s'" % (name, n))
        d[n] = v
    for n in k.required:
        if n not in d:
            raise PyRaise('TypeError', "%s() missing required argument '%s'" % (name, n))
    vals = {}
    for n, v in d.items():
        v = I.force(v)
        if isinstance(v, Obj):
            p = I.xr_plain(v)
            v = p if p is not None else v
        if isinstance(v, (tuple, ListV)) and k.is_array(n):
            v = asarray(I, v)
        if v is None:
            raise PyRaise('TypeError', '%s() argument %s is None' % (name, n))
        if isinstance(v, Unk):
            return tuple(Unk(v.why) for _ in k.outputs) if len(k.outputs) > 1 else v
        if isinstance(v, Choice):
            if UNDEF in (v.a, v.b) or None in (v.a, v.b):
                giveup('kernel argument may be None')
            giveup('kernel argument choice')
        vals[n] = v
    # integers
    st = {}
    typ = k.r.typ
    for n in names:
        if k.is_array(n) or n not in vals:
            continue
        v = vals[n]
        t = typ(n)
        if t == 'l':
            c = I.truth(v)
            st[n] = T.c_const(c) if isinstance(c, bool) else c
        else:
            p = I.aslin(v)
            if p is None:
                raise PyRaise('TypeError', '%s() argument %s must be a scalar' % (name, n))
            if t == 'i' and not p.isint and not isinstance(p.const, int):
                p = fn('int', p)
            st[n] = p
    for n in k.optional:
        a, ax, off = k.dimdefs[n]
        arr = vals.get(a)
        if isinstance(arr, Poly):
            arr = I.newarr((ONE,), arr)
        if not isinstance(arr, Arr):
            raise PyRaise('TypeError', '%s() argument %s must be an array' % (name, a))
        shp = I.shape_of(arr)
        if ax >= len(shp):
            raise PyRaise('ValueError', '%s() argument %s has too few dimensions' % (name, a))
        s = sub(shp[ax], num(off)) if off else shp[ax]
        s = add(shp[ax], num(off))
        if n in vals:
            if I.same(st[n], s) is False:
                raise PyRaise('ValueError', '%s(): (shape(%s,%d)==%s) failed' % (name, a, ax, n))
        else:
            st[n] = s
    an = fort.Analyzer(I.routines, I.ctx, name)
    fr = fort.Frame(an, k.r)
    argv = []
    shapes = {}
    for n in k.r.args:
        if k.intent[n] == 'out':
            argv.append('out')
            continue
        if not k.is_array(n):
            argv.append(st[n])
            continue
        arr = vals[n]
        if isinstance(arr, (Poly, bool, Cond)):
            arr = I.newarr((ONE,), I.nume(arr))
        if not isinstance(arr, Arr):
            raise PyRaise('TypeError', '%s() argument %s must be an array' % (name, n))
        if arr.flat:
            arr = I.unflat(arr)
        if arr.sel:
            giveup('selection passed to a kernel')
        shp, lb = fr.dims(k.r.decls[n]['dims'], dict(st), I.ctx)
        shapes[n] = shp
        if len(shp) != len(arr.shape):
            # f2py squeezes / extends unit axes
            act = [s for s in arr.shape if s.const != 1]
            if len(act) != len(shp):
                raise PyRaise('ValueError', '%s() argument %s: %d dimensions expected, got %d' % (
                    name, n, len(shp), len(arr.shape)))
            arr = I.view(arr, tuple(ZERO if s.const == 1 else slice(None) for s in arr.shape))
        for x, (want, got) in enumerate(zip(shp, arr.shape)):
            if want is None:
                continue
            r = I.same(want, got)
            if r is False:
                raise PyRaise('ValueError', '%s() argument %s: dimension %d must be %s but got %s' % (
                    name, n, x, want, got))
            if r is None:
                I.note('assumed kernel dimension %s.%s[%d]: %s = %s' % (name, n, x, want, got))
        vals[n] = arr
        argv.append(lam(arr.shape, I.relem(arr)))
    argv = tuple(argv)
    I.kcalls.append((name, I.loc, I.guard, argv, dict(st), I.where(), I.ctx))
    res = []
    for n in k.outputs:
        if k.is_array(n):
            shp, lb = fr.dims(k.r.decls[n]['dims'], dict(st), I.ctx)
            b = T.base('K', (name, n, argv), shp)
            res.append(I.newarr(shp, ref(b, *[ix(i) for i in range(len(shp))])))
        else:
            stub = I.kernel_hook(name, n) if I.kernel_hook else None
            if stub is not None:
                res.append(stub)
                continue
            b = T.base('K', (name, n, argv), (), typ(n) == 'i')
            res.append(ref(b))
    for n in k.inouts:
        arr = vals[n]
        b = T.base('K', (name, n, argv), arr.shape)
        I.write(arr, ref(b, *[ix(i) for i in range(len(arr.shape))]))
    if not res:
        return None
    if len(res) == 1:
        return res[0]
    return tuple(res)


# ------------------------------------------------------------------ xarray hooks
def xr_call(I, what, *a):
    from . import xrmodel
    return getattr(xrmodel, what)(I, *a)


def xr_attr(I, o, name):
    return xr_call(I, 'attr', o, name)


def xr_map(I, f, args):
    return xr_call(I, 'elementwise', f, args)


def xr_binop(I, op, a, b):
    return xr_call(I, 'binop', op, a, b)


def xr_unop(I, op, v):
    return xr_call(I, 'unop', op, v)


def xr_contains(I, a, b):
    return xr_call(I, 'contains', a, b)


def xr_getitem(I, o, k):
    return xr_call(I, 'getitem', o, k)


def xr_setitem(I, o, k, v):
    return xr_call(I, 'setitem', o, k, v)
