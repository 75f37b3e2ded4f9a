"""Further numpy functions: none is needed for the present package; they keep rewritten code within reach."""
import ast
from . import terms as T
from .terms import Poly, Cond, ZERO, ONE, add, sub, mul, neg, num, ite, ix, subst, c_and, c_or, c_not, c_ge, c_eq, \
    c_gt, fn
from .pyval import PyRaise, Unk, Arr, ListV, Builtin, ModuleV, Obj
from . import npmodel as N
from .npmodel import bind, REQ, giveup, axes, _const, reduce, concat, stack, permute, expand

D, A_, S_, M_ = ast.Div, ast.Add, ast.Sub, ast.Mult


def P(I, v):
    v = I.plain(v)
    if isinstance(v, Arr):
        v = I.unflat(v)
        if v.sel:
            giveup('selection')
    elif isinstance(v, Unk):
        giveup(str(v))
    return v


def ends(k):
    return tuple(slice(None) for _ in range(k))


def f_cov(I, args, kw):
    m, y, rowvar, bias, ddof = bind('cov', [('m', REQ), ('y', None), ('rowvar', True), ('bias', False),
                                            ('ddof', None)], args, kw, I)
    xs = [P(I, v) for v in (m, y) if v is not None]
    out = []
    for x in xs:
        if len(x.shape) > 2:
            raise PyRaise('ValueError', 'm has more than 2 dimensions')
        if len(x.shape) == 1:
            x = expand(I, x, [0])
        elif rowvar is False:
            x = permute(I, x, [1, 0])
        out.append(x)
    for x in out[1:]:
        if I.same(x.shape[1], out[0].shape[1]) is False:
            raise PyRaise('ValueError', 'all the input array dimensions except for the concatenation axis must match')
    x = concat(I, out, 0) if len(out) > 1 else out[0]
    n = x.shape[1]
    mean = reduce(I, x, num(1), 'sum', True)
    c = I.binop(S_(), x, I.binop(D(), mean, n))
    dd = _const(I, ddof) if ddof is not None else (0 if bias is True else 1)
    r = I.binop(D(), N.matmul(I, c, permute(I, c, [1, 0])), sub(n, num(dd)))
    if r.shape[0].const == 1:
        return I.aslin(r)
    return r


def f_diagonal(I, args, kw):
    a, off, a1, a2 = bind('diagonal', [('a', REQ), ('offset', ZERO), ('axis1', ZERO), ('axis2', ONE)], args, kw, I)
    a = P(I, a)
    n = len(a.shape)
    if n < 2:
        raise PyRaise('ValueError', 'diag requires an array of at least two dimensions')
    p, q = axes(I, a1, n)[0], axes(I, a2, n)[0]
    off = I.aslin(off)
    r0 = ZERO
    if off.const is not None and off.const < 0:
        r0, off = neg(off), ZERO
    elif off.const is None and I.ctx.prove(off) is not True:
        giveup('sign of the offset')
    rows, cols = sub(a.shape[p], r0), sub(a.shape[q], off)
    if I.ctx.prove(sub(cols, rows)):
        ln = rows
    elif I.ctx.prove(sub(rows, cols)):
        ln = cols
    else:
        giveup('length of the diagonal')
    rest = [k for k in range(n) if k not in (p, q)]
    mp = {T._IXS[k]: ix(i) for i, k in enumerate(rest)}
    t = ix(len(rest))
    mp[T._IXS[p]] = add(t, r0)
    mp[T._IXS[q]] = add(t, off)
    shp = [a.shape[k] for k in rest] + [ln]
    return I.newarr(shp, I.simp(subst(I.relem(a), mp), shp))


def f_trace(I, args, kw):
    a, = bind('trace', [('a', REQ)], args, kw, I)
    return reduce(I, f_diagonal(I, [a], {}), None, 'sum')


def f_diag(I, args, kw):
    v, k = bind('diag', [('v', REQ), ('k', ZERO)], args, kw, I)
    v = P(I, v)
    if len(v.shape) == 2:
        return f_diagonal(I, [v, k], {})
    kk = _const(I, k)
    n = add(v.shape[0], num(abs(kk)))
    i = ix(0) if kk >= 0 else ix(1)
    e = subst(I.relem(v), {T._IXS[0]: i})
    return I.newarr((n, n), ite(c_eq(sub(sub(ix(1), ix(0)), num(kk))), e, ZERO))


def f_gradient(I, args, kw):
    kw = dict(kw)
    axis = kw.pop('axis', None)
    eo = kw.pop('edge_order', ONE)
    if kw or _const(I, eo) != 1:
        giveup('gradient option')
    a = P(I, args[0])
    n = len(a.shape)
    ax = axes(I, axis, n)
    sp = list(args[1:])
    if len(sp) == 0:
        sp = [ONE] * len(ax)
    elif len(sp) == 1:
        sp = sp * len(ax)
    elif len(sp) != len(ax):
        raise PyRaise('TypeError', 'invalid number of arguments')
    out = []
    for k, h in zip(ax, sp):
        h = P(I, h)
        L = a.shape[k]
        e = I.relem(a)
        i = ix(k)
        last = sub(L, ONE)
        g = lambda j: subst(e, {T._IXS[k]: j})
        if isinstance(h, Arr) and len(h.shape) == 1:
            he = I.relem(h)
            x = lambda j: subst(he, {T._IXS[0]: j})
            hs, hd = sub(x(i), x(sub(i, ONE))), sub(x(add(i, ONE)), x(i))
            mid = T.div(add(sub(mul(mul(hs, hs), g(add(i, ONE))), mul(mul(hd, hd), g(sub(i, ONE)))),
                            mul(sub(mul(hd, hd), mul(hs, hs)), g(i))), mul(mul(hs, hd), add(hs, hd)))
            lo = T.div(sub(g(ONE), g(ZERO)), sub(x(ONE), x(ZERO)))
            hi = T.div(sub(g(last), g(sub(last, ONE))), sub(x(last), x(sub(last, ONE))))
        elif isinstance(h, Poly):
            mid = T.div(sub(g(add(i, ONE)), g(sub(i, ONE))), mul(num(2), h))
            lo = T.div(sub(g(ONE), g(ZERO)), h)
            hi = T.div(sub(g(last), g(sub(last, ONE))), h)
        else:
            giveup('gradient spacing')
        r = ite(c_eq(i), lo, ite(c_eq(sub(i, last)), hi, mid))
        out.append(I.newarr(a.shape, I.simp(r, a.shape)))
    return out[0] if len(out) == 1 else tuple(out)


def f_outer(I, args, kw):
    a, b = bind('outer', [('a', REQ), ('b', REQ)], args, kw, I)
    a, b = P(I, a), P(I, b)
    if len(a.shape) != 1 or len(b.shape) != 1:
        giveup('outer of arrays')
    return I.binop(M_(), expand(I, a, [1]), expand(I, b, [0]))


def f_einsum(I, args, kw):
    for k in ('optimize',):
        kw.pop(k, None)
    if kw or not isinstance(args[0], str):
        giveup('einsum')
    s = args[0].replace(' ', '')
    if '.' in s:
        giveup('einsum ellipsis')
    ins, _, outs = s.partition('->')
    ins = ins.split(',')
    ops = [P(I, x) for x in args[1:]]
    if len(ins) != len(ops):
        raise PyRaise('ValueError', 'einsum operands')
    size = {}
    for l, o in zip(ins, ops):
        sh = o.shape if isinstance(o, Arr) else ()
        if len(l) != len(sh):
            raise PyRaise('ValueError', 'einsum subscripts do not match the operand')
        for c, d in zip(l, sh):
            if c in size and I.same(size[c], d) is False:
                raise PyRaise('ValueError', 'einsum dimension mismatch')
            size.setdefault(c, d)
    if '->' not in s:
        outs = ''.join(sorted(c for c in size if s.count(c) == 1))
    v = {c: ix(outs.index(c)) if c in outs else T.fresh_lv('e') for c in size}
    e = ONE
    for l, o in zip(ins, ops):
        if isinstance(o, Arr):
            e = mul(e, subst(I.relem(o), {T._IXS[k]: v[c] for k, c in enumerate(l)}))
        else:
            e = mul(e, o)
    shp = [size[c] for c in outs]
    cx = I.actx(shp)
    for c in size:
        if c not in outs:
            cx = cx.with_range(v[c], ZERO, sub(size[c], ONE))
    with N.using(cx):
        for c in size:
            if c not in outs:
                e = T.bsum(v[c], ZERO, sub(size[c], ONE), e)
    return I.newarr(shp, I.simp(e, shp)) if shp else I._scalar(e)


def f_tensordot(I, args, kw):
    a, b, ax = bind('tensordot', [('a', REQ), ('b', REQ), ('axes', num(2))], args, kw, I)
    a, b = P(I, a), P(I, b)
    n, m = len(a.shape), len(b.shape)
    if isinstance(ax, Poly):
        k = int(ax.const)
        la, lb = list(range(n - k, n)), list(range(k))
    else:
        x, y = I.items(ax)
        la, lb = axes(I, x, n), axes(I, y, m)
    names = 'abcdefghijklmnop'
    na = [names[i] for i in range(n)]
    nb = [names[n + i] for i in range(m)]
    for i, j in zip(la, lb):
        nb[j] = na[i]
    out = [c for i, c in enumerate(na) if i not in la] + [c for j, c in enumerate(nb) if j not in lb]
    return f_einsum(I, ['%s,%s->%s' % (''.join(na), ''.join(nb), ''.join(out)), a, b], {})


def f_trapezoid(I, args, kw):
    y, x, dx, ax = bind('trapezoid', [('y', REQ), ('x', None), ('dx', ONE), ('axis', num(-1))], args, kw, I)
    y = P(I, y)
    k = axes(I, ax, len(y.shape))[0]
    pre = ends(k)
    hi, lo = I.view(y, pre + (slice(ONE, None, None),)), I.view(y, pre + (slice(None, num(-1), None),))
    s = I.binop(D(), I.binop(A_(), hi, lo), num(2))
    if x is not None:
        d = N.f_diff(I, [P(I, x)], {})
        if len(P(I, x).shape) == 1 and len(y.shape) > 1:
            d = expand(I, d, [j for j in range(len(y.shape)) if j != k])
        elif len(P(I, x).shape) > 1:
            d = N.f_diff(I, [P(I, x)], {'axis': num(k)})
    else:
        d = dx
    return reduce(I, I.binop(M_(), s, d), num(k), 'sum')


def f_repeat(I, args, kw):
    a, r, ax = bind('repeat', [('a', REQ), ('repeats', REQ), ('axis', None)], args, kw, I)
    a = P(I, a)
    r = I.plain(r)
    if not isinstance(r, Poly):
        giveup('repeat counts')
    if not isinstance(a, Arr):
        return I.newarr((r,), a)
    if ax is None and len(a.shape) > 1:
        giveup('repeat of a flattened array')
    k = 0 if ax is None else axes(I, ax, len(a.shape))[0]
    shp = list(a.shape)
    shp[k] = mul(shp[k], r)
    e = I.relem(a)
    if a.shape[k].const == 1:
        return I.newarr(shp, subst(e, {T._IXS[k]: ZERO}))
    return I.newarr(shp, subst(e, {T._IXS[k]: fn('floordiv', ix(k), r)}))


def f_heaviside(I, args, kw):
    a, h = bind('heaviside', [('x1', REQ), ('x2', REQ)], args, kw, I)
    return I.map(lambda x, y: ite(c_gt(x), ONE, ite(c_eq(x), y, ZERO)), a, h)


def f_select(I, args, kw):
    cs, vs, d = bind('select', [('condlist', REQ), ('choicelist', REQ), ('default', ZERO)], args, kw, I)
    out = d
    for c, v in reversed(list(zip(I.items(cs), I.items(vs)))):
        out = N.f_where(I, [c, v, out], {})
    return out


def f_take(I, args, kw):
    a, idx, ax = bind('take', [('a', REQ), ('indices', REQ), ('axis', None)], args, kw, I)
    a = P(I, a)
    if ax is None and len(a.shape) > 1:
        giveup('take of a flattened array')
    k = 0 if ax is None else axes(I, ax, len(a.shape))[0]
    return I.getitem(a, ends(k) + (idx,))


def f_append(I, args, kw):
    a, b, ax = bind('append', [('arr', REQ), ('values', REQ), ('axis', None)], args, kw, I)
    a, b = P(I, a), P(I, b)
    if not isinstance(a, Arr):
        a = I.newarr((ONE,), a)
    if not isinstance(b, Arr):
        b = I.newarr((ONE,), b)
    if ax is None and (len(a.shape) > 1 or len(b.shape) > 1):
        giveup('append to a flattened array')
    return concat(I, [a, b], 0 if ax is None else axes(I, ax, len(a.shape))[0])


def f_searchsorted(I, args, kw):
    a, v, side = bind('searchsorted', [('a', REQ), ('v', REQ), ('side', 'left')], args, kw, I)
    return N.f_digitize(I, [v, a, side == 'left'], {})


def f_bincount(I, args, kw):
    x, w, ml = bind('bincount', [('x', REQ), ('weights', None), ('minlength', ZERO)], args, kw, I)
    x = I.plain(x)
    if not isinstance(x, Arr) or x.sel:
        giveup('bincount')
    n = I.aslin(ml)
    if n.const == 0:
        giveup('bincount without minlength')
    # the length is minlength unless larger values occur: only that part is read as known
    e = I.relem(x)
    q = I.relem(I.plain(w)) if w is not None else ONE
    k = ix(9)
    vs = [T.fresh_lv('b') for _ in x.shape]
    mp = {T._IXS[i]: v for i, v in enumerate(vs)}
    body = ite(c_eq(sub(subst(e, mp), ix(0))), subst(q, mp), ZERO)
    for v, s in reversed(list(zip(vs, x.shape))):
        body = T.bsum(v, ZERO, sub(s, ONE), body)
    hi = reduce(I, x, None, 'bmax')
    r = I.newarr((fn('max', n, add(hi, ONE)),), body)
    return r


def f_ptp(I, args, kw):
    a = args[0]
    return I.binop(S_(), N._minmax('bmax')(I, list(args), dict(kw)), N._minmax('bmin')(I, list(args), dict(kw)))


def f_split(I, args, kw):
    a, n, ax = bind('split', [('ary', REQ), ('indices_or_sections', REQ), ('axis', ZERO)], args, kw, I)
    a = P(I, a)
    k = axes(I, ax, len(a.shape))[0]
    if isinstance(n, Poly):
        giveup('split into sections')
    cuts = [None] + I.items(n) + [None]
    return I.newlist([I.view(a, ends(k) + (slice(p, q, None),)) for p, q in zip(cuts, cuts[1:])])


def f_pad(I, args, kw):
    kw = dict(kw)
    cv = kw.pop('constant_values', ZERO)
    a, w, mode = bind('pad', [('array', REQ), ('pad_width', REQ), ('mode', 'constant')], args, kw, I)
    a = P(I, a)
    w = I.items(w) if not isinstance(w, Poly) else [w]
    n = len(a.shape)
    if len(w) == 1:
        w = w * n if not (isinstance(w[0], Poly) and n == 1) else [(w[0], w[0])]
    elif n == 1 and all(isinstance(x, Poly) for x in w):
        w = [tuple(w)]
    elif all(isinstance(x, Poly) for x in w) and len(w) == 2:
        w = [tuple(w)] * n
    w = [tuple(I.items(x)) if not isinstance(x, Poly) else (x, x) for x in w]
    e = I.relem(a)
    shp, mp, inside = [], {}, T.TRUE
    for k in range(n):
        lo, hi = I.aslin(w[k][0]), I.aslin(w[k][1])
        L = a.shape[k]
        shp.append(add(add(L, lo), hi))
        j = sub(ix(k), lo)
        if lo.const == 0 and hi.const == 0:
            continue
        c = c_and(c_ge(j), c_ge(sub(sub(L, ONE), j)))
        if mode == 'edge':
            j = ite(c_ge(neg(j)), ZERO, ite(c_ge(sub(j, sub(L, ONE))), sub(L, ONE), j))
        elif mode == 'wrap':
            j = ite(c_ge(sub(neg(j), ONE)), add(j, L), ite(c_ge(sub(j, L)), sub(j, L), j))
        elif mode == 'constant':
            inside = c_and(inside, c)
        else:
            giveup('pad mode')
        mp[T._IXS[k]] = j
    r = subst(e, mp)
    if mode == 'constant':
        r = ite(inside, r, I.nume(cv))
    return I.newarr(shp, I.simp(r, shp))


def f_broadcast_arrays(I, args, kw):
    xs = [P(I, a) for a in args]
    s = xs[0]
    for x in xs[1:]:
        s = I.binop(A_(), s, x)
    return tuple(N.f_broadcast_to(I, [x, s.shape], {}) for x in xs)


def f_average(I, args, kw):
    kw = dict(kw)
    ret = kw.pop('returned', False)
    r = N.f_average(I, args, kw)
    if ret is not True:
        return r
    giveup('average returned')


def f_copyto(I, args, kw):
    dst, src, where = bind('copyto', [('dst', REQ), ('src', REQ), ('where', None)], args, kw, I)
    I.setitem(dst, Ellipsis, src if where is None else N.f_where(I, [where, src, dst], {}))


def f_hypot(I, args, kw):
    return N.elementwise(lambda x, y: fn('sqrt', add(mul(x, x), mul(y, y))))(I, args, kw)


def f_inner(I, args, kw):
    a, b = bind('inner', [('a', REQ), ('b', REQ)], args, kw, I)
    a, b = P(I, a), P(I, b)
    if len(a.shape) == 1 and len(b.shape) == 1:
        return N.matmul(I, a, b)
    giveup('inner')


def f_apply_along_axis(I, args, kw):
    giveup('apply_along_axis')


def f_histogram(I, args, kw):
    a, bins, rng, dens, w = bind('histogram', [('a', REQ), ('bins', num(10)), ('range', None), ('density', None),
                                               ('weights', None)], args, kw, I)
    a = I.plain(a)
    if not isinstance(a, Arr) or a.sel or rng is not None or dens is not None:
        giveup('histogram')
    b = I.plain(bins)
    if isinstance(b, Poly):
        lo, hi = reduce(I, a, None, 'bmin'), reduce(I, a, None, 'bmax')
        b = N.f_linspace(I, [lo, hi, add(b, ONE)], {})
    be = I.relem(b)
    q = I.relem(I.plain(w)) if w is not None else ONE
    e = I.relem(a)
    vs = [T.fresh_lv('b') for _ in a.shape]
    mp = {T._IXS[i]: v for i, v in enumerate(vs)}
    x = subst(e, mp)
    lo, hi = subst(be, {T._IXS[0]: ix(0)}), subst(be, {T._IXS[0]: add(ix(0), ONE)})
    nb = sub(b.shape[0], ONE)
    last = c_eq(sub(ix(0), sub(nb, ONE)))
    c = c_and(c_ge(sub(x, lo)), c_or(c_gt(sub(hi, x)), c_and(last, c_eq(sub(hi, x)))))
    body = ite(c, subst(q, mp), ZERO)
    for v, s in reversed(list(zip(vs, a.shape))):
        body = T.bsum(v, ZERO, sub(s, ONE), body)
    return I.newarr((nb,), body), b


FUNCS = dict(cov=f_cov, diagonal=f_diagonal, diag=f_diag, trace=f_trace, gradient=f_gradient, outer=f_outer,
             einsum=f_einsum, tensordot=f_tensordot, trapezoid=f_trapezoid, repeat=f_repeat, heaviside=f_heaviside,
             select=f_select, take=f_take, append=f_append, searchsorted=f_searchsorted, bincount=f_bincount,
             ptp=f_ptp, split=f_split, pad=f_pad, broadcast_arrays=f_broadcast_arrays, average=f_average,
             copyto=f_copyto, hypot=f_hypot, inner=f_inner, histogram=f_histogram)


def f_vectorize(I, args, kw):
    f = args[0]
    def call(I, a, k):
        giveup('vectorize')
    return Builtin('vectorized', call)


def f_ones_tri(I, args, kw):
    n, m, k = bind('tri', [('N', REQ), ('M', None), ('k', ZERO)], args, kw, I)
    n = I.aslin(n)
    m = n if m is None else I.aslin(m)
    return I.newarr((n, m), T.ind(c_ge(sub(add(ix(0), I.aslin(k)), ix(1)))))


def f_tril(I, args, kw):
    a, k = bind('tril', [('m', REQ), ('k', ZERO)], args, kw, I)
    a = P(I, a)
    n = len(a.shape)
    return I.newarr(a.shape, ite(c_ge(sub(add(ix(n - 2), I.aslin(k)), ix(n - 1))), I.relem(a), ZERO))


def f_triu(I, args, kw):
    a, k = bind('triu', [('m', REQ), ('k', ZERO)], args, kw, I)
    a = P(I, a)
    n = len(a.shape)
    return I.newarr(a.shape, ite(c_ge(sub(ix(n - 1), add(ix(n - 2), I.aslin(k)))), I.relem(a), ZERO))


def f_eye(I, args, kw):
    n, m, k = bind('eye', [('N', REQ), ('M', None), ('k', ZERO)], args, kw, I)
    n = I.aslin(n)
    m = n if m is None else I.aslin(m)
    return I.newarr((n, m), T.ind(c_eq(sub(sub(ix(1), ix(0)), I.aslin(k)))))


FUNCS.update(tri=f_ones_tri, tril=f_tril, triu=f_triu, eye=f_eye, identity=f_eye, trapz=f_trapezoid)
