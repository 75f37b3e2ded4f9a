"""Northern-hemisphere-only results against the northern rows of the global results."""
from sa import world, oop, compare as C, terms as T
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise
from . import formulas as F, relate as R

STAGES = ('interp', 'ref', 'baro', 'layer', 'heating')
PAIRS = {
    'a': dict(ncforce=True), 'c': dict(odd=False, ncforce=True), 'e': dict(cls='QGFieldNHN22', ncforce=True),
    'g': dict(cls='QGFieldNHN22', odd=False), 'h': dict(levels=True), 'l': dict(cls='QGFieldNHN22', jb=4, levels=True),
}
MORE = {
    'm': dict(odd=False, levels=True), 'k': dict(npart=True, kmax=6), 'q': dict(cls='QGFieldNHN22', odd=False, jb=3,
                                                                                ncforce=True), 'j': dict(kmax=5),
}


def job(key, seed, tier):
    opt = (PAIRS.get(key) or MORE[key])
    full, half = oop.Config(**opt), oop.Config(nh=True, **opt)
    I = world.interp()
    try:
        a, b = R.both(I, full, cfgB=half, stages=STAGES)
    except PyRaise as e:
        return [rec('%s/construct' % half.label(), BAD, '', 'a stage fails: %s' % R._exc(e))]
    a, b = R.flat(a), R.flat(b)
    # NHN22 reports one static stability per hemisphere
    if full.scheme == 'NHN22' and 'interp/static_stability.1' in a:
        a['interp/static_stability'] = a['interp/static_stability.1']
    lad = R.Ladder(I, sizes=R.sizes_for(full), seeds=(seed,) if tier == 'quick' else (seed, seed + 50),
                   levels=(0, 2, R.ROWS) if full.scheme == 'NH18' else (0, 2))
    out = []
    for n in sorted(set(a) | set(b)):
        st = n.split('/')[0]
        if st in ('object', 'tuple', 'grid', 'error', 'open') or n.startswith('interp/static_stability.'):
            continue
        k, w = '%s:%s' % (half.label(), n), R.where(I, half, n.split('.')[0])
        x, y = a.get(n), b.get(n)
        if not isinstance(x, C.Side) or not isinstance(y, C.Side):
            bad = y if isinstance(x, C.Side) else x
            out.append(R.unusable(k, w, bad, b if isinstance(x, C.Side) else a, st))
            continue
        ax = {3: 1, 2: 1 if st == 'ref' else 0}.get(len(y.shape))
        same = len(x.shape) == len(y.shape) and all(p is q for p, q in zip(x.shape, y.shape))
        # the storages stay on the analysis grid, which has an equator row
        odd = full.odd or n.split('/')[1] in ('astar1', 'astar2') or n == 'layer/ncforce'
        imap, skip, term = None, None, x.elem if same else None
        if not same:
            def imap(idx, shp, ax=ax, odd=odd):
                return idx[:ax] + (idx[ax] + shp[ax] - (1 if odd else 0),) + idx[ax + 1:]

            def skip(idx, shp, ax=ax):
                return idx[ax] == 0
        s, d, np_ = lad.compare(x, y, imap=imap, skip=skip, term=term, limit=200 if tier == 'quick' else 500)
        if s != BAD and not same:
            # the reported axis covers the equator (if on the grid) to the pole
            want = world.M + (1 if odd else 0)
            if y.shape[ax] is not T.lift(want) and C.Ctx().decide(T.c_eq(T.sub(y.shape[ax], T.lift(want)))) is not True:
                s, d = VBAD, 'latitude axis has length %s instead of %s' % (y.shape[ax], want)
        out.append(rec(k, s, w, d, np_))
    for q in list(a) + list(b):
        if q.startswith(('error/', 'open/')):
            v = a.get(q, b.get(q))
            out.append(rec('%s:%s' % (half.label(), q), BAD if q.startswith('error') else OPEN, '', str(v)))
    out.append(R.meta_rec(I))
    return out


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term a northern-hemisphere-only object reports for a row denotes the same function of the inputs as '
                'the term the global object reports for that row')
    rep.explanation = ('The field object is interpreted with and without the northern-hemisphere-only option on the same '
                       'symbolic inputs; the terms are compared row by row.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['the first reported row (equator, or the row beside it) is excluded']
    rep.minimum = 100
    keys = list(PAIRS) if rep.tier == 'quick' else list(PAIRS) + list(MORE)
    rep.run([(job, (k, rep.seed, rep.tier)) for k in keys], limit=800)
    rep.recs = F.meta(rep, rep.recs)
