"""Meaning of library functions and of kernel applications for the evaluation of terms.

Interpolations are given their mathematical meaning; a fitted spline, whose
algorithm is not modelled, becomes a fixed linear functional of its data (so
equal calls agree and different ones differ).  A kernel application is either
unfolded to the closed-form term of the kernel or read as a fixed linear
functional of the arguments the kernel reads."""
import math
from . import terms as T, evalt, fort
from .terms import Poly, Cond, Lam, Base, sym
from .evalt import EVALFN, EVALOP, UNFOLD, Undecided, hrand, NAN


def _interp(ev, xs, b):
    x, xp, fp = xs[0], ev.values(xs[1], b), ev.values(xs[2], b)
    left, right = xs[3], xs[4]
    n = len(xp)
    if x != x or any(v != v for v in xp) or not n:
        return NAN
    if any(xp[i] > xp[i + 1] for i in range(n - 1)):
        # numpy.interp on unordered abscissae: some binary search result; no verdict can rest on it
        raise Undecided('interp abscissae not increasing')
    if x < xp[0]:
        return fp[0] if not isinstance(left, (int, float)) else left
    if x > xp[-1]:
        return fp[-1] if not isinstance(right, (int, float)) else right
    for i in range(n - 1):
        if xp[i] <= x <= xp[i + 1]:
            d = xp[i + 1] - xp[i]
            if d <= 1e-15 * (abs(xp[0]) + abs(xp[-1])):
                continue
            return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / d
    return fp[-1]


def _interp1d(ev, xs, b):
    x, lx, ly, kind, mode = xs
    k = ('I1', lx.id) + ev._key(lx, b)
    o = ev.memo.get(k)
    if o is None:
        px = ev.values(lx, b)
        o = (sorted(range(len(px)), key=lambda i: px[i]), px)
        ev.memo[k] = o
    order, px = o
    n = len(px)
    if x != x or any(v != v for v in px):
        return NAN
    lo, hi = px[order[0]], px[order[-1]]
    tol = 1e-9 * (abs(lo) + abs(hi))
    if not (lo - tol <= x <= hi + tol) and mode != 'extrapolate':
        return NAN
    if kind not in ('linear', 'slinear', '1'):
        acc = 0.0
        for i in range(n):
            acc += math.cos(x / (hi - lo or 1.0) * (3 + 10 * hrand(ev.seed, 'i1', kind, i))) * ev.item(ly, (order[i],), b)
        return acc
    j = n - 2
    for i in range(n - 1):
        if x <= px[order[i + 1]]:
            j = i
            break
    a, c = order[j], order[j + 1]
    if abs(x - px[a]) < 1e-12 * (hi - lo + abs(x)):
        return ev.item(ly, (a,), b)
    if abs(x - px[c]) < 1e-12 * (hi - lo + abs(x)):
        return ev.item(ly, (c,), b)
    ya, yc = ev.item(ly, (a,), b), ev.item(ly, (c,), b)
    return ya + (yc - ya) * (x - px[a]) / (px[c] - px[a])


def _spline(ev, xs, b):
    x, lx, ly, opts, d = xs
    px, py = ev.values(lx, b), ev.values(ly, b)
    if x != x:
        return NAN
    # covariant under a change of the units of abscissa and ordinate
    acc, span = 0.0, (max(px) - min(px)) or 1.0
    for i, (p, y) in enumerate(zip(px, py)):
        w = 4 * (0.4 + hrand(ev.seed, 'sp', opts, i))
        if d == 'd0':
            acc += (1.0 + 0.3 * math.sin(w * (x - p) / span)) * y
        else:
            acc += (0.3 * w * math.cos(w * (x - p) / span) + 0.01 * hrand(ev.seed, opts, d)) * y
    return acc / len(px) / (1.0 if d == 'd0' else span ** int(d[1:]))


def _round(ev, xs, b):
    r = round(xs[0])
    if abs(abs(xs[0] - math.floor(xs[0])) - 0.5) < 1e-9:
        raise Undecided('rounding tie')
    return int(r)


EVALFN['interp'] = _interp
EVALFN['interp1d'] = _interp1d
EVALFN['spline'] = _spline
EVALFN['round'] = _round


def _matinv(ev, bs, idx, b):
    l = bs.args[1]
    k = ('MI',) + ev._key(l, b)
    m = ev.memo.get(k)
    if m is None:
        n = ev.int(l.shape[0], b)
        a = [[ev.item(l, (i, j), b) for j in range(n)] + [1.0 if j == i else 0.0 for j in range(n)] for i in range(n)]
        ok = all(v == v for r in a for v in r)
        big = max((abs(v) for r in a for v in r[:n]), default=0.0) or 1.0
        for c in range(n):
            if not ok:
                break
            p = max(range(c, n), key=lambda r: abs(a[r][c]))
            if abs(a[p][c]) < 1e-13 * big:
                ok = False
                break
            a[c], a[p] = a[p], a[c]
            d = a[c][c]
            a[c] = [v / d for v in a[c]]
            for r in range(n):
                if r != c and a[r][c]:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        m = [r[n:] for r in a] if ok else False
        ev.memo[k] = m
    if m is False:
        return NAN
    return m[idx[0]][idx[1]]


EVALOP['matinv'] = _matinv

OPAQUE = {'compute_reference_states', 'compute_qref_and_fawa_first', 'matrix_b4_inversion', 'matrix_after_inversion',
          'upward_sweep'}


class Meaning:
    """how kernel applications are read; one per program (repository / specification)"""

    def __init__(self, routines, kernels, ctx, opaque=OPAQUE, invariant=()):
        self.routines = routines
        self.kernels = kernels
        self.ctx = ctx
        self.opaque = opaque            # set of names or 'all'
        self.reads = {}
        self.cache = {}
        self.invariant = invariant      # axes symbols over which functionals are averaged
        self.unfolded = set()
        self.partial = None             # (name, result, index) -> True: unfold this element of an opaque kernel

    def read_args(self, name):
        """argument names whose value the kernel reads (syntactically)"""
        r = self.reads.get(name)
        if r is None:
            r = set()
            _reads(self.kernels[name].r, self.routines, r, set())
            self.reads[name] = r
        return r

    def instance(self, name, ints):
        """closed-form result of the kernel for these integer arguments"""
        k = (name,) + tuple(sorted((n, type(v).__name__, v.id) for n, v in ints.items()))
        r = self.cache.get(k)
        if r is None:
            try:
                r = self.kernels[name].analyse(self.routines, ints, self.ctx)
            except (fort.Unsupported, T.TooBig, T.DivZero) as e:
                r = Undecided('kernel %s: %s' % (name, e))
            self.cache[k] = r
            self.unfolded.add(name)
        if isinstance(r, Undecided):
            raise r
        return r


def _reads(r, routines, out, seen):
    from . import fparse

    def walk(x, lhs=False):
        if isinstance(x, tuple):
            if x and x[0] == 'name' and isinstance(x[1], str):
                out.add(x[1])
            if len(x) > 1 and isinstance(x[1], str):
                out.add(x[1])
            for y in x:
                walk(y)
        elif isinstance(x, (list,)):
            for y in x:
                walk(y)
        elif hasattr(x, '__dict__'):
            for y in vars(x).values():
                walk(y)
        elif isinstance(x, str):
            out.add(x)
    for s in r.body:
        walk(s)
    for q in r.inner.values():
        for s in q.body:
            walk(s)


def unfold_kernel(ev, bs, idx, b):
    name, out, argv = bs.args
    mean = ev.meaning
    k = mean.kernels.get(name)
    if k is None:
        raise Undecided('kernel ' + name)
    if (mean.opaque == 'all' or name in mean.opaque) and not (mean.partial and mean.partial(name, out, idx)):
        return _functional(ev, mean, k, out, argv, idx, b)
    key = ('KU', bs.args[0], id(argv)) + tuple(ev._key(x, b) for x in argv if not isinstance(x, str))
    sub = ev.memo.get(key)
    if sub is None:
        ints, params, field = {}, {}, {}
        sizes = dict(ev.sizes)
        for p, (n, a) in enumerate(zip(k.r.args, argv)):
            if isinstance(a, str):
                continue
            if k.is_array(n):
                field[(name, str(p))] = (lambda se, ix_, a=a: ev.item(a, ix_, b))
            elif isinstance(a, Cond):
                ints[n] = T.c_const(ev.cond(a, b)) if a.fv else a
            elif k.r.typ(n) in ('i', 'l'):
                if a.fv:
                    s = sym('arg_%s_%s' % (name, n), True)
                    sizes['arg_%s_%s' % (name, n)] = ev.int(a, b)
                    a = s
                ints[n] = a
            else:
                params['D:%s:%d' % (name, p)] = ev.poly(a, b)
        res = mean.instance(name, ints)
        par = dict(ev.params)
        par.update(params)
        se = evalt.Ev(sizes, par, ev.seed, field, ev.budget)
        se.meaning = mean
        se.unset_random = ev.unset_random
        sub = (res, se)
        ev.memo[key] = sub
    res, se = sub
    v = res.outs[out]
    try:
        if isinstance(v, Poly):
            return se.poly(v, {})
        return se.poly(v.elem, {T._IXS[i]: x for i, x in enumerate(idx)})
    finally:
        ev.oob.extend(se.oob)
        se.oob = []


NPROJ = 3


def _functional(ev, mean, k, out, argv, idx, b):
    reads = mean.read_args(k.name)
    key = ('KF', k.name, id(argv)) + tuple(ev._key(x, b) for x in argv if not isinstance(x, str))
    pr = ev.memo.get(key)
    if pr is None:
        pr = [0.0] * NPROJ
        dims = set(k.optional)
        for n, a in zip(k.r.args, argv):
            if isinstance(a, str) or n not in reads or n in dims:
                continue
            if isinstance(a, Poly):
                v = ev.poly(a, b)
                for p in range(NPROJ):
                    pr[p] += (0.3 + hrand(ev.seed, 'kf', k.name, n, p)) * v
            elif isinstance(a, Cond):
                v = ev.cond(a, b)
                for p in range(NPROJ):
                    pr[p] += hrand(ev.seed, 'kc', k.name, n, p, v)
            else:
                per = [s.single() is not None and s.single().id in mean.invariant for s in a.shape]
                w = ev.memo.setdefault(('KW', k.name, n), {})
                for ii, v in ev.array_items(a, b):
                    if v != v:
                        v = 17.25
                    c = w.get(ii)
                    if c is None:
                        wi = tuple(i for i, q in zip(ii, per) if not q)
                        c = w[ii] = [0.2 + hrand(ev.seed, 'kw', k.name, n, wi, p) for p in range(NPROJ)]
                    for p in range(NPROJ):
                        pr[p] += c[p] * v
        sc = 1.0 / (1.0 + max(abs(p) for p in pr))
        ev.memo[key] = pr
    acc = 0.3 + hrand(ev.seed, 'ko', k.name, out, idx)
    for p in range(NPROJ):
        acc += (0.2 + hrand(ev.seed, 'kp', k.name, out, p, idx)) * pr[p] * 0.01
    return acc


UNFOLD['K'] = unfold_kernel
