"""Deciding whether two closed-form terms denote the same function.

proved    equal normal forms, or equal after the case split of ranges.prove_equal
agree     different normal forms that take the same value at every sampled point
          of the term algebra (random interpretation)
differ    a point where they take different values (a refutation)
open      neither (a term could not be evaluated)"""
import itertools
import random
from . import terms as T, evalt, ranges
from .terms import Poly, Cond, Lam, ZERO, ONE, ix, sub
from .ranges import Ctx

BASE_SIZES = {'m': 7, 'nlon': 4, 'kmax': 6, 'nlev': 8, 'nnd': 9, 'maxit': 10}


def plev_field(ev, idx):
    return 1000.0 * 2.718281828 ** (-0.31 * idx[0] - 0.02 * idx[0] * idx[0])


def _wind(name):
    # mostly the size of winds, either sign; some values far outside
    def f(ev, idx):
        x = evalt.hrand(ev.seed, 'in', name, idx)
        y = evalt.hrand(ev.seed, 'tail', name, idx)
        if y < 0.08:
            return (1 if x > 0.5 else -1) * 10.0 ** (9 * evalt.hrand(ev.seed, 'mag', name, idx) - 4)
        return 60.0 * x - 30.0
    return f


def _temp(name):
    def f(ev, idx):
        x = evalt.hrand(ev.seed, 'in', name, idx)
        if evalt.hrand(ev.seed, 'tail', name, idx) < 0.05:
            return 10.0 ** (4 * x)
        return 180.0 + 140.0 * x
    return f


def _rate(name):
    # any sign and any order of magnitude
    def f(ev, idx):
        x = evalt.hrand(ev.seed, 'in', name, idx)
        return (1 if x > 0.5 else -1) * 10.0 ** (11 * evalt.hrand(ev.seed, 'mag', name, idx) - 9)
    return f


FIELDS = {'plev': plev_field}
for _n in ('u', 'v', 'u2', 'v2'):
    FIELDS[_n] = _wind(_n)
for _n in ('t', 't2'):
    FIELDS[_n] = _temp(_n)
for _n in ('ncforce', 'heating', 'heatingA', 'heatingB', 'forcing f', 'forcing g'):
    FIELDS[_n] = _rate(_n)


class Result:
    __slots__ = ('status', 'detail', 'npoints')

    def __init__(self, status, detail='', npoints=0):
        self.status = status
        self.detail = detail
        self.npoints = npoints

    def __repr__(self):
        return '%s%s' % (self.status, (' (%s)' % self.detail) if self.detail else '')


class Side:
    """a term together with the meaning of the kernels it mentions"""

    def __init__(self, shape, elem, meaning=None):
        self.shape = tuple(shape)
        self.elem = elem
        self.meaning = meaning


def evaluator(meaning, seed, sizes=None, params=None, fields=None, budget=20000000):
    ev = evalt.Ev(dict(BASE_SIZES if sizes is None else sizes), dict(params or {}), seed,
                  dict(FIELDS if fields is None else fields), budget)
    ev.meaning = meaning
    return ev


def _val(ev, e, b):
    if isinstance(e, Cond):
        return 1 if ev.cond(e, b) else 0
    return ev.poly(e, b)


def ill_conditioned(ea, eb, xa, xb, ba, bb, va, vb, gap):
    """is the difference of two values within what a change of the last digits of the inputs can do?"""
    try:
        for e, x, b, v in ((ea, xa, ba, va), (eb, xb, bb, vb)):
            w = _val(e.perturbed(), x, b)
            if w != w or abs(w - v) >= 0.01 * gap:
                return True
    except (evalt.Undecided, RecursionError, OverflowError):
        return False
    return False


def points(shape, limit, rnd):
    n = 1
    for s in shape:
        n *= s
    if n <= limit:
        return list(itertools.product(*[range(s) for s in shape]))
    out = set()
    # corners and faces first, then random points
    for idx in itertools.product(*[sorted({0, 1, s // 2, s - 1}) if s > 3 else range(s) for s in shape]):
        out.add(idx)
    out = sorted(out)
    if len(out) > limit // 2:
        out = rnd.sample(out, limit // 2)
    seen = set(out)
    while len(out) < limit:
        i = tuple(rnd.randrange(s) for s in shape)
        if i not in seen:
            seen.add(i)
            out.append(i)
    return out


def compare(a, b, ctx=None, seeds=(1,), sizes=None, params=None, fields=None, limit=400, prove=True, skip=None,
            evs=None, tol=1e-7):
    """a, b: Side.  skip(idx, shape) -> True leaves a point out."""
    ctx = ctx or Ctx()
    if len(a.shape) != len(b.shape):
        return Result('differ', 'rank %d against %d' % (len(a.shape), len(b.shape)))
    same_shape = True
    for k, (x, y) in enumerate(zip(a.shape, b.shape)):
        if x is y:
            continue
        d = ctx.decide(T.c_eq(sub(x, y)))
        if d is False:
            return Result('differ', 'axis %d has length %s instead of %s' % (k, x, y))
        if d is None:
            same_shape = False
    if prove and same_shape and skip is None:
        if a.elem is b.elem:
            return Result('proved')
        c = ctx
        for i, s in enumerate(a.shape):
            c = c.with_range(ix(i), ZERO, sub(s, ONE))
        try:
            if type(a.elem) is type(b.elem) and isinstance(a.elem, Poly) and _small(a.elem) and _small(b.elem) and \
                    ranges.prove_equal(a.elem, b.elem, c):
                return Result('proved')
        except (T.TooBig, T.DivZero, RecursionError):
            pass
    n = 0
    for seed in seeds:
        if evs is not None and (seed, 0) in evs:
            ea, eb = evs[(seed, 0)], evs[(seed, 1)]
        else:
            ea = evaluator(a.meaning, seed, sizes, params, fields)
            eb = evaluator(b.meaning, seed, sizes, params, fields)
            if evs is not None:
                evs[(seed, 0)], evs[(seed, 1)] = ea, eb
        rnd = random.Random(seed)
        try:
            sa, sb = [ea.int(s, {}) for s in a.shape], [eb.int(s, {}) for s in b.shape]
        except evalt.Undecided as e:
            return Result('open', str(e), n)
        if sa != sb:
            return Result('differ', 'shape %s instead of %s' % (tuple(sa), tuple(sb)))
        und = 0
        for idx in points(sa, limit, rnd):
            if skip is not None and skip(idx, sa):
                continue
            bnd = {T._IXS[i]: x for i, x in enumerate(idx)}
            try:
                va, vb = _val(ea, a.elem, bnd), _val(eb, b.elem, bnd)
            except evalt.Undecided as e:
                return Result('open', str(e), n)
            except (RecursionError, OverflowError) as e:
                return Result('open', type(e).__name__, n)
            n += 1
            if va != va and vb == vb and abs(vb) != float('inf'):
                return Result('differ', 'undefined at %s, expected %.6g' % (idx, vb), n)
            d = evalt.differ(va, vb, tol)
            if d is None:
                und += 1
            elif d:
                if ill_conditioned(ea, eb, a.elem, b.elem, bnd, bnd, va, vb, abs(va - vb)):
                    und += abs(va - vb) > 1e-7 * (1.0 + max(abs(va), abs(vb)))
                    continue
                return Result('differ', 'at %s the value is %.9g, expected %.9g' % (idx, va, vb), n)
        if und and und == n:
            return Result('open', 'undefined everywhere', n)
    return Result('agree', '', n)


def _small(e):
    return True
