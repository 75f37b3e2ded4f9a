"""What the diabatic forcing can influence."""
from sa import world, oop, compare as C, terms as T
from sa.report import rec, PROVED, AGREE, BAD, OPEN
from sa.terms import ix, num, ref, sym
from sa.pyval import PyRaise
from . import formulas as F, relate as R

STAGES = ('interp', 'ref', 'baro', 'layer')
FORCED = {'baro/ncforce_baro', 'layer/ncforce'}
CFG = {
    'a': dict(), 'b': dict(nh=True), 'c': dict(odd=False), 'd': dict(odd=False, nh=True),
    'e': dict(cls='QGFieldNHN22'), 'f': dict(cls='QGFieldNHN22', nh=True), 'g': dict(cls='QGFieldNHN22', odd=False),
    'h': dict(levels=True),
}
AL, BE = sym('alpha'), sym('beta')


def forcing(kind):
    def mk(I, cfg):
        shape = (cfg.kmax, cfg.nlat, world.NLON)
        f = ref(T.base('in', ('forcing f',), shape), ix(0), ix(1), ix(2))
        g = ref(T.base('in', ('forcing g',), shape), ix(0), ix(1), ix(2))
        return I.newarr(shape, {'f': f, 'g': g, 'c': AL * f + BE * g}[kind])
    return mk


def job(key, seed, tier):
    o = CFG[key]
    bare, cfg = oop.Config(**o), oop.Config(ncforce=True, **o)
    I = world.interp()
    runs = {}
    try:
        runs['none'] = R.flat(R.both_one(I, bare, STAGES, None))
        for kind in 'fgc':
            runs[kind] = R.flat(R.both_one(I, cfg, STAGES, lambda X, kind=kind: forcing(kind)(X, cfg)))
    except PyRaise as e:
        return [rec('%s/construct' % cfg.label(), BAD, '', 'a stage fails: %s' % R._exc(e))]
    lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(seed,) if tier == 'quick' else (seed, seed + 50), levels=(0, 2))
    lin = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(seed,) if tier == 'quick' else (seed, seed + 50), levels=(2,))
    out = []
    names = sorted(set().union(*[set(r) for r in runs.values()]))
    for n in names:
        st = n.split('/')[0]
        if st in ('object', 'tuple', 'error', 'open'):
            if st in ('error', 'open'):
                v = [r[n] for r in runs.values() if n in r][0]
                out.append(rec('%s:%s' % (cfg.label(), n), BAD if st == 'error' else OPEN, '', str(v)))
            continue
        w = R.where(I, cfg, n.split('.')[0])
        vs = {q: r.get(n) for q, r in runs.items()}
        bad = [v for v in vs.values() if not isinstance(v, C.Side) and not isinstance(v, (int, float, type(None)))]
        if n.startswith('grid/') and not all(isinstance(v, C.Side) for v in vs.values()):
            continue
        if not all(isinstance(v, C.Side) for v in vs.values()):
            q = [q for q in vs if not isinstance(vs[q], C.Side)][0]
            out.append(R.unusable('%s:%s (%s)' % (cfg.label(), n, q), w, vs[q], runs[q], st))
            continue
        k = '%s:%s' % (cfg.label(), n)
        if n not in FORCED:
            s, d, np_ = lad.compare(vs['none'], vs['f'], term=vs['none'].elem, limit=200)
            out.append(rec(k + ' does not depend on the forcing', s, w, d, np_))
            continue
        zero = C.Side(vs['none'].shape, T.ZERO)
        s, d, np_ = lin.compare(zero, vs['none'], term=T.ZERO, limit=200)
        out.append(rec(k + ' without forcing is zero', s, w, d, np_))
        comb = C.Side(vs['f'].shape, AL * vs['f'].elem + BE * vs['g'].elem)
        s, d, np_ = lin.compare(comb, vs['c'], term=comb.elem, limit=200)
        out.append(rec(k + ' is linear in the forcing', s, w, d, np_))
    out.append(R.meta_rec(I))
    return out


def run(rep):
    rep.level = 'other'
    rep.rule = ('no term other than the diabatic source depends on the forcing; the term of the source is zero without '
                'forcing and linear in it')
    rep.explanation = ('The stages are interpreted without forcing, with two independent symbolic forcings and with a '
                       'linear combination of them; the resulting terms are compared.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS
    rep.minimum = 100
    rep.run([(job, (k, rep.seed, rep.tier)) for k in CFG], limit=800)
    rep.recs = F.meta(rep, rep.recs)
