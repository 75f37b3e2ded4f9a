"""Which inputs the constructors reject."""
import math
import random
from sa import world, oop, evalt, terms as T, pyabs
from sa.ranges import declare_param
from sa.report import rec, PROVED, AGREE, BAD, OPEN
from sa.pyval import Arr
from sa.terms import sym, num, ix, lift, fn, ONE, ref
from sa.world import M, NLON, KMAX
from . import formulas as F, relate as R

ACCEPT, REJECT = 'accepted', 'rejected'
D, TOP = sym('spacing'), sym('margin')
T.declare_positive(D)
DOC = 'ylat', 'plev', 'u_field', 'v_field', 't_field'


class Case:
    """one symbolic family of constructor arguments"""

    def __init__(self, name, expect, cls='QGFieldNH18', odd=True, levels=False, nh=False, change=None, over=None,
                 rows=None):
        self.name, self.expect = name, expect
        self.cfg = oop.Config(cls, odd=odd, levels=levels, nh=nh)
        self.change, self.over = change, over or {}


def shape_changes():
    """field arrays whose shape does not match the coordinates"""
    for k, n in enumerate(('u', 'v', 't')):
        for ax, axn in enumerate(('levels', 'latitudes', 'longitudes')):
            for d in (1, -1):
                def f(I, cfg, a, k=k, ax=ax, d=d, n=n):
                    sh = [a[2].shape[0], a[1].shape[0], a[0].shape[0]]
                    sh[ax] = sh[ax] + d
                    a[3 + k] = oop.array(I, n, sh)
                yield '%s with %s %s than the coordinate' % (n, axn, 'more' if d > 0 else 'fewer'), f

        def g(I, cfg, a, k=k, n=n):
            a[3 + k] = oop.array(I, n, (a[2].shape[0], a[1].shape[0]))
        yield '%s without longitudes' % n, g

        def h(I, cfg, a, k=k, n=n):
            a[3 + k] = oop.array(I, n, (num(2), a[2].shape[0], a[1].shape[0], a[0].shape[0]))
        yield '%s with an additional dimension' % n, h

        def t(I, cfg, a, k=k, n=n):
            # a longitude axis longer than the latitude axis, exchanged
            a[0] = I.newarr((cfg.nlat + 3,), ix(0) * 360 / (cfg.nlat + 3))
            for j, m in enumerate(('u', 'v', 't')):
                a[3 + j] = oop.array(I, m, (a[2].shape[0], cfg.nlat, cfg.nlat + 3))
            a[3 + k] = oop.array(I, n, (a[2].shape[0], cfg.nlat + 3, cfg.nlat))
        yield '%s with exchanged horizontal axes' % n, t

        def r(I, cfg, a, k=k, n=n):
            a[0] = I.newarr((cfg.nlat + 3,), ix(0) * 360 / (cfg.nlat + 3))
            for j, m in enumerate(('u', 'v', 't')):
                a[3 + j] = oop.array(I, m, (a[2].shape[0], cfg.nlat, cfg.nlat + 3))
            if not cfg.levels:
                a[2] = I.newarr((cfg.nlat + 7,), 1000 * fn('exp', -ix(0) * oop.P['dz'] / oop.P['h']))
                for j, m in enumerate(('u', 'v', 't')):
                    a[3 + j] = oop.array(I, m, (cfg.nlat + 7, cfg.nlat, cfg.nlat + 3))
            a[3 + k] = oop.array(I, n, (cfg.nlat + 3, cfg.nlat, a[2].shape[0] + 0))
        yield '%s with reversed axes' % n, r


def lat(term):
    def f(I, cfg, a):
        a[1] = I.newarr((cfg.nlat,), term(cfg))
    return f


def plev(term, size=None):
    def f(I, cfg, a):
        n = size or a[2].shape[0]
        a[2] = I.newarr((n,), term(n))
        for j, m in enumerate(('u', 'v', 't')):
            a[3 + j] = oop.array(I, m, (n, cfg.nlat, NLON))
    return f


def log_levels(n):
    return 1000 * fn('exp', -ix(0) * oop.P['dz'] / oop.P['h'])


CASES = []
for _c in ('QGFieldNH18', 'QGFieldNHN22'):
    for _odd in (True, False):
        for _lev in (False, True):
            def _add(name, expect, change=None, over=None, _c=_c, _odd=_odd, _lev=_lev):
                CASES.append(Case(name, expect, _c, _odd, _lev, change=change, over=over))
            for _n, _f in shape_changes():
                if _lev and 'reversed' in _n:
                    continue
                _add(_n, REJECT, _f)
            _add('latitudes from north to south', REJECT, lat(
                lambda c: (M - ix(0)) * 90 / M if c.odd else (2 * M - 1 - 2 * ix(0)) * 90 / (2 * M)))
            _add('pressure levels from the top down', REJECT, plev(lambda n: D * (ix(0) + 1)))
            _add('logarithmic pressure levels from the top down', REJECT,
                 plev(lambda n: 1000 * fn('exp', -(n - 1 - ix(0)) * oop.P['dz'] / oop.P['h'])))
            _add('latitudes as documented', ACCEPT)
            if _odd:
                _add('no latitude at the equator, odd number', REJECT,
                     lat(lambda c: (2 * ix(0) + 1 - 2 * M) * D))
            else:
                _add('even number of latitudes with one at the equator (more in the north)', REJECT,
                     lat(lambda c: (ix(0) - M + 1) * D))
                _add('even number of latitudes with one at the equator (more in the south)', REJECT,
                     lat(lambda c: (ix(0) - M) * D))
            if not _lev:
                _add('as many levels as the data reach', ACCEPT, plev(log_levels, KMAX), dict(kmax=KMAX))
                _add('fewer levels than the data reach', ACCEPT, plev(log_levels, KMAX + 3), dict(kmax=KMAX))
                _add('one level more than the data reach', REJECT, plev(log_levels, KMAX), dict(kmax=KMAX + 1))
                _add('many more levels than the data reach', REJECT, plev(log_levels, KMAX), dict(kmax=2 * KMAX))
            else:
                _add('evenly spaced pseudoheights', ACCEPT, plev(log_levels))


def case_job(i):
    c = CASES[i]
    I = world.interp()
    cfg = c.cfg
    a = oop.inputs(I, cfg)
    if c.change:
        c.change(I, cfg, a)
    over = dict(c.over)
    accept_prop = c.expect == ACCEPT and not c.change and not cfg.levels
    kind, v, cond = R.attempt(I, lambda: oop.construct(I, cfg, a, **over))
    w = R.where(I, cfg, 'x/__init__')
    label = '%s,%s latitudes%s: %s is %s' % (cfg.cls, 'odd' if cfg.odd else 'even',
                                             ',levels as given' if cfg.levels else '', c.name, c.expect)
    if kind == 'open':
        r = rec(label, OPEN, w, v)
    elif c.expect == REJECT:
        if kind == 'raise':
            r = rec(label, PROVED, w, '', 1)
        elif cond:
            g = [T.c_and(*e.guard) for e in cond]
            s, d = sample(I, cfg, g, True, i)
            r = rec(label, s, w, d, 1)
        else:
            r = rec(label, BAD, w, 'the constructor returns')
    else:
        if kind == 'raise':
            r = rec(label, BAD, w, 'raises %s' % v)
        elif cond and not accept_prop:
            s, d = sample(I, cfg, [T.c_and(*e.guard) for e in cond], False, i)
            r = rec(label, s, w, d, 1)
        else:
            r = rec(label, PROVED, w, '', 1)
    return [r, R.meta_rec(I)]


def holds(g, ev):
    return any(ev.cond(c, {}) for c in g)


def sample(I, cfg, g, want, seed, n=30, fields=None, check=None):
    """the rejection condition at random parameters and input tables"""
    rnd = random.Random(seed)
    done = 0
    for k in range(n):
        sizes = {'m': rnd.choice([6, 7, 9]), 'nlon': rnd.choice([4, 5, 8]), 'kmax': rnd.choice([5, 6, 9]),
                 'nlev': rnd.choice([4, 5, 7, 11]), 'npart': 7, 'maxit': 9}
        params = {'dz': rnd.uniform(200., 2000.), 'h': rnd.uniform(4000., 12000.), 'cp': 1004., 'R': 287.,
                  'omega': 1e-4, 'a': 6e6, 'tol': 1e-5, 'rjac': .95, 'spacing': rnd.uniform(.5, 30.)}
        fl = fields(rnd, sizes, params) if fields else {}
        ev = evalt.Ev(sizes, params, seed=k, field=fl)
        w = check(sizes, params, fl) if check else want
        if w is None:
            continue
        try:
            got = holds(g, ev)
        except evalt.Undecided as e:
            return OPEN, str(e)
        done += 1
        if got != w:
            return BAD, 'with %s: the input is %s' % (
                ', '.join('%s=%.6g' % x for x in list(sizes.items()) + [(p, params[p]) for p in ('dz', 'h')]),
                REJECT if got else ACCEPT)
    return (AGREE, '') if done >= n // 4 else (OPEN, 'too few points')


def tables(order):
    """random pressure tables"""
    def f(rnd, sizes, params):
        n = sizes['nlev']
        z = sorted(rnd.uniform(0.02, 1.) for _ in range(n))
        h, dz = params['h'], params['dz']
        top = rnd.choice([.3, .7, .97, 1.03, 1.5, 3.]) * (sizes['kmax'] - 1) * dz
        p = [1000. * math.exp(-x / z[-1] * top / h) for x in z]
        if order == 'ascending':
            p = p[::-1]
        return {'plev': lambda ev, idx, p=p: p[idx[0]]}
    return f


def plev_job(cls, odd, order, seed):
    """arbitrary pressure tables: rejected exactly if ascending or if the data do not reach the highest level"""
    cfg = oop.Config(cls, odd=odd)
    I = world.interp()
    kind, v, cond = R.attempt(I, lambda: oop.construct(I, cfg))
    w = R.where(I, cfg, 'x/__init__')
    label = '%s,%s latitudes: arbitrary %s pressure levels are rejected exactly if they have to be' % (
        cls, 'odd' if odd else 'even', order)
    if kind != 'value':
        return [rec(label, OPEN if kind == 'open' else BAD, w, str(v)), R.meta_rec(I)]
    g = [T.c_and(*e.guard) for e in cond]

    def check(sizes, params, fl):
        p = fl['plev'](None, (sizes['nlev'] - 1,))
        hmax = -params['h'] * math.log(p / 1000.)
        gap = hmax - (sizes['kmax'] - 1) * params['dz']
        if abs(gap) < 1e-6:
            return None
        return order == 'ascending' or gap < 0
    s, d = sample(I, cfg, g, None, seed, 60, tables(order), check)
    return [rec(label, s, w, d, 60), R.meta_rec(I)]


def run(rep):
    rep.level = 'other'
    rep.rule = ('for each family of invalid arguments every path through the constructor raises, for each family of '
                'valid arguments none does; for arbitrary pressure tables the disjunction of the conditions of all '
                'raising paths equals the documented condition')
    rep.explanation = ('The constructors are interpreted with symbolic sizes and symbolic families of coordinates and '
                       'shapes; the path conditions of all exits are collected.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS
    rep.minimum = 100
    jobs = [(case_job, (i,)) for i in range(len(CASES))]
    jobs += [(plev_job, (c, o, d, rep.seed)) for c in ('QGFieldNH18', 'QGFieldNHN22') for o in (True, False)
             for d in ('ascending', 'descending')]
    rep.run(jobs, limit=300)
    rep.recs = F.meta(rep, rep.recs)
