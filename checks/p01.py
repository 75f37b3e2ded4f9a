"""Mirror symmetry between the hemispheres."""
from sa import world, oop, terms as T
from sa.report import rec, PROVED, AGREE, BAD, OPEN
from sa.terms import ix, sub, num, ref, ONE
from sa.pyval import PyRaise
from . import formulas as F, relate as R

ODD = {'interp/qgpv', 'interp/interpolated_v', 'ref/qref', 'baro/flux_vector_phi_baro', 'heating/ncforce'}
EXCHANGE = {'layer/ep2': 'layer/ep3', 'layer/ep3': 'layer/ep2', 'interp/static_stability.0': 'interp/static_stability.1',
            'interp/static_stability.1': 'interp/static_stability.0'}
NEGATED = {'layer/ep2', 'layer/ep3'}
QUICK = ['a', 'c', 'e', 'g', 'h', 'l']
STAGES = ('interp', 'ref', 'baro', 'layer', 'heating')
KERNEL_NAMES = None


def mirrored(I, cfg, name, sign):
    nl = cfg.kmax if cfg.levels else oop.NLEV
    if name == 'ncforce':
        nl = cfg.kmax
    shape = (nl, cfg.nlat, world.NLON)
    return I.newarr(shape, num(sign) * ref(T.base('in', (name,), shape), ix(0), cfg.nlat - 1 - ix(1), ix(2)))


def mirror_args(I, cfg):
    a = oop.inputs(I, cfg)
    return a[:3] + [mirrored(I, cfg, 'u', 1), mirrored(I, cfg, 'v', -1), mirrored(I, cfg, 't', 1)]


def lat_axis(name, rank):
    if name.startswith('interp/static') or name.startswith('grid/'):
        return None
    if rank == 3:
        return 1
    if name.startswith('ref/'):
        return 1
    return 0 if rank == 2 else None


def job(key, seed, tier):
    cfg = R.cfg_of(key)
    I = world.interp()
    mir = lambda X: mirrored(X, cfg, 'ncforce', -1)
    try:
        a, b = R.both(I, cfg, None, lambda: mirror_args(I, cfg), stages=STAGES,
                      forcingA=None, forcingB=mir if cfg.ncforce else None)
    except PyRaise as e:
        return [rec('%s/construct' % cfg.label(), BAD, '', 'construction fails: %s' % R._exc(e))]
    heat_fix(I, cfg, b)
    a, b = R.flat(a), R.flat(b)
    seeds = (seed,) if tier == 'quick' else (seed, seed + 50)
    lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=seeds, levels=(2, R.ROWS) if cfg.scheme == 'NH18' else (2,))
    out = []
    band = 1 if cfg.odd else 2
    for n in sorted(b):
        st = n.split('/')[0]
        if st in ('object', 'tuple', 'grid', 'error', 'open'):
            continue
        k, w = '%s:%s' % (cfg.label(), n), R.where(I, cfg, n.split('.')[0])
        src = EXCHANGE.get(n, n) if cfg.scheme == 'NHN22' or n in NEGATED else n
        x, y = a.get(src), b[n]
        if not isinstance(x, R.C.Side) or not isinstance(y, R.C.Side):
            out.append(R.unusable(k, w, y if isinstance(x, R.C.Side) else x, b, st))
            continue
        sign = -1 if n in ODD or n in NEGATED else 1
        ax = lat_axis(n, len(y.shape))

        def imap(idx, shp):
            if ax is None:
                return idx
            return idx[:ax] + (shp[ax] - 1 - idx[ax],) + idx[ax + 1:]

        def skip(idx, shp):
            # the equator row (on grids without one: the two rows next to it) belongs to one hemisphere only
            return ax is not None and abs(2 * idx[ax] - (shp[ax] - 1)) < band
        term = None
        try:
            if ax is None:
                term = num(sign) * x.elem
        except (T.TooBig, T.DivZero):
            pass
        s, d, np_ = lad.compare(x, y, imap=imap, scale=sign, skip=skip, term=term,
                                limit=200 if tier == 'quick' else 500)
        out.append(rec(k, s, w, d, np_))
    for st in ('error/', 'open/'):
        for q in b:
            if q.startswith(st):
                out.append(rec('%s:%s' % (cfg.label(), q), BAD if st == 'error/' else OPEN, '', str(b[q])))
    out.append(R.meta_rec(I))
    return out


def heat_fix(I, cfg, b):
    """the mirrored run gets the mirrored heating rate"""
    try:
        q = I.newarr((cfg.kmax if cfg.levels else oop.NLEV, cfg.nlat, world.NLON),
                     ref(T.base('in', ('heating',), (cfg.kmax if cfg.levels else oop.NLEV, cfg.nlat, world.NLON)),
                         ix(0), cfg.nlat - 1 - ix(1), ix(2)))
        b['heating/ncforce'] = oop.snapshot(I, oop.call(I, b['object'], 'compute_ncforce_from_heating_rate', q))
    except PyRaise as e:
        b['error/heating'] = e


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term of a diagnostic of the mirrored atmosphere, at a grid point, denotes the same function of the '
                'inputs as (plus or minus) the term of its mirror diagnostic at the mirrored point')
    rep.explanation = ('Every diagnostic of a global field object is derived as a closed-form term twice, for inputs and '
                       'for mirrored inputs, and the two terms are compared point by point at random points of the '
                       'term algebra; solver kernels are read as unknown functions of their arguments.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['the equator row (without one: the rows beside it) is excluded']
    rep.minimum = 100
    keys = QUICK if rep.tier == 'quick' else [k for k in list(F.CONFIGS) + list(F.MORE) if not R.cfg_of(k).nh]
    rep.run([(job, (k, rep.seed, rep.tier)) for k in keys], limit=800)
    rep.recs = F.meta(rep, rep.recs)
