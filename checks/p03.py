"""Vertical averages against the layerwise results they average."""
from sa import world, oop, compare as C, terms as T
from sa.report import rec, BAD, OPEN
from sa.terms import ix, sub, add, num, lift, fn, ONE, sym
from sa.pyval import PyRaise
from . import formulas as F, relate as R

PAIRS = [('baro/lwa_baro', 'layer/lwa'), ('baro/adv_flux_f1', 'layer/ua1'), ('baro/adv_flux_f2', 'layer/ua2'),
         ('baro/adv_flux_f3', 'layer/ep1'), ('baro/ncforce_baro', 'layer/ncforce'),
         ('baro/u_baro', 'interp/interpolated_u'), ('only/lwa_baro', 'only/lwa'),
         ('only/u_baro', 'interp/interpolated_u')]
CFG = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'l']
LEVEL = sym('level', True)


def column_mean(I, x, kmax, z, h):
    """sum_k exp(-z_k/h) x_k / sum_k exp(-z_k/h) over the levels 1 .. kmax-2"""
    v = T.lv('k')
    w = fn('exp', -T.subst(z.elem, {T._IXS[0]: v}) / h)
    n = len(x.shape) - 1
    body = T.subst_any(x.elem, dict([(T._IXS[0], v)] + [(T._IXS[i + 1], ix(i)) for i in range(n)]))
    top = sub(kmax, num(2))
    num_ = T.bsum(v, ONE, top, body * w)
    den = T.bsum(v, ONE, top, w)
    return C.Side(x.shape[1:], num_ / den)


def job(key, seed, tier):
    cfg = R.cfg_of(key)
    I = world.interp()
    try:
        r, _ = R.both(I, cfg, stages=('interp', 'ref', 'baro', 'layer')), None
        r = r[0]
    except PyRaise as e:
        return [rec('%s/construct' % cfg.label(), BAD, '', 'construction fails: %s' % R._exc(e))]
    r = R.flat(r)
    out = []
    z = r['grid/height']
    lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(seed,) if tier == 'quick' else (seed, seed + 50), levels=(0, 2))
    todo = list(PAIRS)
    for bn, ln in todo:
        if ln == 'layer/ncforce' and not cfg.odd:
            continue                 # kept on the analysis grid
        k, w = '%s:%s = <%s>' % (cfg.label(), bn, ln), R.where(I, cfg, bn)
        x, y = r.get(ln), r.get(bn)
        if not isinstance(x, C.Side) or not isinstance(y, C.Side):
            out.append(R.unusable(k, w, y if isinstance(x, C.Side) else x, r, bn.split('/')[0]))
            continue
        try:
            e = column_mean(I, x, cfg.kmax, z, oop.P['h'])
        except (T.TooBig, T.DivZero) as ex:
            out.append(rec(k, OPEN, w, str(ex)))
            continue
        imap = None
        if ln.startswith('interp/') and cfg.nh:
            def imap(idx, shp, full=cfg.odd):
                # reported rows run from the equator northward, the field itself covers the globe
                return (idx[0] + (shp[0] - 1 if full else shp[0]),) + tuple(idx[1:])
        skip = None
        if bn == 'only/u_baro':
            # this stage works on the rows poleward of the boundary, the pole excluded
            jb = (5 if cfg.jb is None else cfg.jb) if cfg.scheme == 'NHN22' else 0

            def skip(idx, shp):
                n = (shp[0] if cfg.nh else shp[0] // 2) + (0 if cfg.nh or not cfg.odd else 1)
                j = idx[0] if cfg.nh else (idx[0] - shp[0] + n if 2 * idx[0] >= shp[0] else n - 1 - idx[0])
                return j < jb + (0 if cfg.odd else 1) or j > n - (2 if cfg.odd else 3)
        s, d, n = lad.compare(e, y, imap=imap, term=None if imap or skip else e.elem, limit=100, skip=skip)
        out.append(rec(k, s, w, d, n))
    out.append(R.meta_rec(I))
    return out


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term of a vertically averaged quantity denotes sum_k exp(-z_k/H) x_k / sum_k exp(-z_k/H) over the '
                'levels 1..kmax-2, x being the term of the layerwise quantity')
    rep.explanation = ('Both stages of one field object are interpreted; the mean of the layerwise term is formed in the '
                       'term algebra and compared with the term reported by the averaging stage.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['evenly spaced pseudoheight data starts at 1000 hPa']
    rep.minimum = 50
    keys = CFG if rep.tier == 'quick' else list(F.CONFIGS) + list(F.MORE)
    rep.run([(job, (k, rep.seed, rep.tier)) for k in keys], limit=800)
    rep.recs = F.meta(rep, rep.recs)
