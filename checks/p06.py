"""Rotation of the longitude axis."""
from sa import world, oop, compare as C, terms as T, fort, evlib
from sa.report import rec, PROVED, AGREE, BAD, OPEN
from sa.terms import ix, num, ref, ONE
from sa.pyval import PyRaise
from . import formulas as F, relate as R

QUICK = ['a', 'b', 'c', 'e', 'f', 'g', 'h', 'l']
STAGES = ('interp', 'ref', 'baro', 'layer', 'heating')
LON_KERNELS = ['compute_reference_states', 'compute_qref_and_fawa_first', 'compute_qgpv', 'compute_qgpv_direct_inv',
               'compute_flux_dirinv_nshem', 'compute_lwa_only_nhn22']


def rotated(I, name, shape):
    return I.newarr(shape, ref(T.base('in', (name,), shape), ix(0), ix(1), ix(2) + 1))


def rot_args(I, cfg):
    a = oop.inputs(I, cfg)
    nl = cfg.kmax if cfg.levels else oop.NLEV
    return a[:3] + [rotated(I, n, (nl, cfg.nlat, world.NLON)) for n in ('u', 'v', 't')]


def job(key, seed, tier):
    cfg = R.cfg_of(key)
    I = world.interp()
    try:
        a, b = R.both(I, cfg, None, lambda: rot_args(I, cfg), stages=STAGES,
                      forcingB=(lambda X: rotated(X, 'ncforce', (cfg.kmax, cfg.nlat, world.NLON))) if cfg.ncforce
                      else None)
        nl = cfg.kmax if cfg.levels else oop.NLEV
        b['heating/ncforce'] = oop.snapshot(I, oop.call(
            I, b['object'], 'compute_ncforce_from_heating_rate', rotated(I, 'heating', (nl, cfg.nlat, world.NLON))))
    except PyRaise as e:
        return [rec('%s/construct' % cfg.label(), BAD, '', 'a stage fails: %s' % R._exc(e))]
    a, b = R.flat(a), R.flat(b)
    inv = {world.NLON.single().id}
    lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(seed,) if tier == 'quick' else (seed, seed + 50),
                   levels=(2,), invariant=inv)
    out = []
    for n in sorted(b):
        st = n.split('/')[0]
        if st in ('object', 'tuple', 'grid', 'error', 'open'):
            continue
        k, w = '%s:%s' % (cfg.label(), n), R.where(I, cfg, n.split('.')[0])
        x, y = a.get(n), b[n]
        if not isinstance(x, C.Side) or not isinstance(y, C.Side):
            out.append(R.unusable(k, w, y if isinstance(x, C.Side) else x, b, st))
            continue
        lon = [i for i, s in enumerate(y.shape) if s is world.NLON]
        imap, term = None, x.elem
        if lon:
            ax = lon[0]

            def imap(idx, shp, ax=ax):
                return idx[:ax] + ((idx[ax] + 1) % shp[ax],) + idx[ax + 1:]
            term = None
        s, d, np_ = lad.compare(x, y, imap=imap, term=term, limit=200 if tier == 'quick' else 500)
        out.append(rec(k, s, w, d, np_))
    for st in ('error/', 'open/'):
        for q in b:
            if q.startswith(st):
                out.append(rec('%s:%s' % (cfg.label(), q), BAD if st == 'error/' else OPEN, '', str(b[q])))
    out.append(R.meta_rec(I))
    return out


def kernel_lemma(name, which, seed, tier):
    """the kernel commutes with a rotation of its arguments"""
    rs, ks, _ = world.kernels()
    if name not in ks:
        return [rec('kernel %s' % name, 'absent')]
    r = ks[name].r
    w = '%s:%s %s' % (F.rel(r.path), getattr(r, 'line', '?'), name)
    spec = F.KERNELS[name][which]
    ints = {a: (T.lift(b) if not isinstance(b, T.Cond) else b) for a, b in spec.items()}
    tag = 'kernel %s%s' % (name, ('[jb=%s]' % ints['jb']) if 'jb' in ints else '')
    lonname = 'nlon' if 'nlon' in ints else 'imax'
    try:
        a = ks[name].analyse(rs, ints, C.Ctx())
    except (fort.Unsupported, T.TooBig, T.DivZero) as e:
        return [rec(tag, OPEN, w, str(e))]
    out = []
    sizes = dict(F.KSIZES[0])
    if name == 'compute_reference_states':
        sizes['m'] -= 5
    # which dummies have a longitude axis
    fields = {}
    import sa.evalt as E
    for p, n in enumerate(r.args):
        if not ks[name].is_array(n):
            continue
        sh = lon_axis(ks[name], n, lonname)
        if sh is None:
            continue

        def f(ev, idx, name=name, p=p, ax=sh):
            nl = ev.sizes['nlon']
            j = list(idx)
            j[ax] = (j[ax] + 1) % nl
            return 0.25 + E.hrand(ev.seed, 'dummy', (name, str(p)), tuple(j))
        fields[(name, str(p))] = f
    if not fields:
        return [rec(tag, OPEN, w, 'no argument with a longitude axis found')]
    par = F._kp(name, sizes)
    for o, x in a.outs.items():
        sx = C.Side(x.shape, x.elem) if isinstance(x, fort.ArrVal) else C.Side((), x)
        ea = C.evaluator(None, seed, sizes, par, {})
        eb = C.evaluator(None, seed, sizes, par, fields)
        lon = [i for i, s in enumerate(sx.shape) if s is world.NLON]

        def imap(idx, shp, lon=lon):
            if not lon:
                return idx
            return idx[:lon[0]] + ((idx[lon[0]] + 1) % shp[lon[0]],) + idx[lon[0] + 1:]
        L = R.Ladder.__new__(R.Ladder)
        L.levels, L.seeds = [None], (seed,)
        L.ev = lambda lv, s, ea=ea, eb=eb: (ea, eb)
        s, d, n = L.compare(sx, sx, imap=imap, limit=60 if name in F.HIST else 300)
        out.append(rec('%s.%s' % (tag, o), s, w, d, n))
    return out


def lon_axis(k, n, lonname):
    """position of the longitude axis of a dummy array, from its declaration"""
    for i, d in enumerate(k.r.decls[n]['dims']):
        if mentions(d, lonname):
            return i
    return None


def mentions(x, name):
    if isinstance(x, str):
        return x == name
    if isinstance(x, (tuple, list)):
        return any(mentions(y, name) for y in x)
    if hasattr(x, '__dict__'):
        return any(mentions(y, name) for y in vars(x).values())
    return False


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term of a diagnostic of the rotated atmosphere denotes the same function of the inputs as the term '
                'of the diagnostic itself, one longitude further (zonally symmetric ones: unchanged)')
    rep.explanation = ('The rotation by one grid point generates all rotations.  The solvers are read as unknown '
                       'functionals that are symmetric in the longitude index of their arguments; that symmetry is an '
                       'obligation of its own for every kernel with a longitude axis.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS
    rep.minimum = 120
    keys = QUICK if rep.tier == 'quick' else list(F.CONFIGS) + list(F.MORE)
    jobs = [(kernel_lemma, (n, w, rep.seed, rep.tier)) for n in LON_KERNELS for w in range(len(F.KERNELS[n]))]
    jobs += [(job, (k, rep.seed, rep.tier)) for k in keys]
    rep.run(jobs, limit=800)
    rep.recs = [r for r in F.meta(rep, rep.recs) if r['status'] != 'absent']
