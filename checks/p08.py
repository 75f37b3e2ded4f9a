"""Call histories: repeated stages, other arguments before, other objects in between."""
import itertools
from sa import world, oop, compare as C, terms as T, pyabs
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk
from . import formulas as F, relate as R, ops

OBS = {'i': ['interp/' + n for n in oop.INTERP + ['static_stability']], 'r': ['ref/' + n for n in oop.REFS],
       'b': ['baro/' + n for n in oop.BARO], 'l': ['layer/' + n for n in oop.LAYER],
       'o': ['only/' + n for n in oop.ONLY], 'h': ['heating/ncforce']}
SHARED = {'lwa': 'blo', 'lwa_baro': 'bo', 'u_baro': 'bo'}
METHOD = {'i': 'interpolate_fields', 'r': 'compute_reference_states', 'b': 'compute_lwa_and_barotropic_fluxes',
          'l': 'compute_layerwise_lwa_fluxes', 'o': 'compute_lwa_only'}
# a history: steps "object:stage[forcing]"; A and B are different objects
HISTORIES = {
    'every stage twice': 'A:i A:i A:r A:r A:b A:b A:l A:l',
    'the whole sequence twice': 'A:i A:r A:b A:l A:i A:r A:b A:l',
    'forcing in an earlier call': 'A:i A:r A:bf A:lf A:b A:l',
    'another forcing in an earlier call': 'A:i A:r A:bg A:lg A:bf A:lf',
    'forcing used by the other flux stage only': 'A:i A:r A:lf A:b',
    'forcing used by the vertically averaged stage only': 'A:i A:r A:bf A:l',
    'wave activity alone first': 'A:i A:r A:o A:b A:l',
    'wave activity alone last': 'A:i A:r A:bf A:lf A:o',
    'reversed order of the flux stages': 'A:i A:r A:l A:o A:b',
    'heating forcing in between': 'A:i A:h A:r A:h A:b A:h A:l',
    'reference states recomputed after fluxes': 'A:i A:r A:b A:l A:r A:b A:l',
    'interpolation repeated after the reference state': 'A:i A:r A:i A:b A:l',
    'another object in between': 'A:i B:i A:r B:r A:b B:bf A:l B:lf',
    'another object first': 'B:i B:r B:bg B:lg B:o A:i A:r A:b A:l A:o',
    'another object afterwards': 'A:i A:r A:b A:l B:i B:r B:bg B:lg',
    'objects built in between': 'A:i B:i C:i A:r C:r A:b C:b A:l',
}
CFG = {
    'a': dict(), 'd': dict(odd=False, nh=True), 'c': dict(odd=False), 'e': dict(cls='QGFieldNHN22'),
    'f': dict(cls='QGFieldNHN22', nh=True), 'h': dict(levels=True),
}
QUICK = ['a', 'd', 'e']
OTHER = {n: T.sym(n + ' of another object') for n in oop.P}
for _s in OTHER.values():
    T.declare_positive(_s)


class World:
    """objects of one interpreter, built on demand"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.I = world.interp()
        self.objs, self.cfgs = {}, {}

    def make(self, o):
        I, cfg = self.I, self.cfg
        names = {'A': ('u', 'v', 't'), 'B': ('u2', 'v2', 't2'), 'C': ('u', 'v', 't')}[o]
        c = cfg
        if o == 'C':                 # the other scheme on the same input fields
            c = oop.Config('QGFieldNH18' if cfg.scheme == 'NHN22' else 'QGFieldNHN22', odd=cfg.odd, nh=cfg.nh,
                           levels=cfg.levels)
        over = {}
        if o == 'B':                 # nothing in common: another grid, other levels, other constants and options
            c = oop.Config(cfg.cls, odd=not cfg.odd, nh=not cfg.nh, levels=cfg.levels, kmax=cfg.kmax + 2,
                           npart=not cfg.npart, jb=4)
            over = dict(scale_height=OTHER['h'], cp=OTHER['cp'], dry_gas_constant=OTHER['R'], omega=OTHER['omega'],
                        planet_radius=OTHER['a'], maxit=oop.MAXIT + 3, tol=OTHER['tol'], rjac=OTHER['rjac'])
            if not cfg.levels:
                over['dz'] = OTHER['dz']
        self.cfgs[o] = c
        self.objs[o] = oop.construct(I, c, oop.inputs(I, c, names=names), **over)
        return self.objs[o]

    def step(self, s):
        o, st = s.split(':')
        obj = self.objs.get(o) or self.make(o)
        I, cfg = self.I, self.cfgs[o]
        if st[0] == 'h':
            q = oop.array(I, 'heating' + o, (oop.NLEV if not cfg.levels else cfg.kmax, cfg.nlat, world.NLON))
            self.heat = oop.snapshot(I, oop.call(I, obj, 'compute_ncforce_from_heating_rate', q))
            return
        kw = {}
        if len(st) > 1:
            kw['ncforce'] = oop.array(I, 'forcing ' + st[1], (cfg.kmax, cfg.nlat, world.NLON))
        oop.call(I, obj, METHOD[st[0]], **kw)

    def get(self, o, n):
        I = self.I
        if n == 'heating/ncforce':
            return self.heat
        try:
            return oop.snapshot(I, oop.attr(I, self.objs[o], n.split('/')[1]))
        except (PyRaise, pyabs.Dead) as e:
            return e
        except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
            return Unk(str(e))


_fresh = {}


def fresh(cfg, key, stage):
    """observables of one stage of a fresh object, called once (stage: letter and forcing)"""
    k = (key, stage)
    if k not in _fresh:
        wd = World(cfg)
        steps = {'i': ['A:i'], 'r': ['A:i', 'A:r'], 'h': ['A:i', 'A:h']}.get(stage[0], ['A:i', 'A:r', 'A:' + stage])
        for s in steps:
            wd.step(s)
        _fresh[k] = {n: wd.get('A', n) for n in OBS[stage[0]]}
    return _fresh[k]


def expected(steps):
    """stage (with forcing) whose fresh result each observable of A must equal"""
    last, writer = {}, {}
    for s in steps:
        o, st = s.split(':')
        if o != 'A':
            continue
        last[st[0]] = st
        for n in SHARED:
            if st[0] in SHARED[n]:
                writer[n] = st[0]
    out = {}
    for l, st in last.items():
        for n in OBS[l]:
            b = n.split('/')[1]
            if b in writer and writer[b] != l:
                continue
            out[n] = st
    return out


def job(key, hist, seed, tier):
    cfg = oop.Config(**CFG[key])
    steps = (HISTORIES.get(hist) or hist).split()
    wd = World(cfg)
    I = wd.I
    tag = '%s: %s' % (cfg.label(), hist)
    try:
        for s in steps:
            wd.step(s)
    except PyRaise as e:
        return [rec('%s/%s' % (tag, s), BAD, F.rel(str(getattr(e, 'where', ''))), 'call fails: %s' % R._exc(e))]
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return [rec('%s/%s' % (tag, s), OPEN, '', str(e))]
    out = []
    lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(seed,) if tier == 'quick' else (seed, seed + 50), levels=(0, 2))
    for n, st in sorted(expected(steps).items()):
        try:
            want = fresh(cfg, key, st)[n]
        except PyRaise as e:
            want = e
        got = wd.get('A', n)
        k, w = '%s: %s' % (tag, n), R.where(I, cfg, n)
        W = want if isinstance(want, tuple) else (want,)
        G = got if isinstance(got, tuple) else (got,)
        if len(W) != len(G):
            out.append(rec(k, BAD, w, 'number of results'))
            continue
        for x, y in zip(W, G):
            if not isinstance(x, C.Side) or not isinstance(y, C.Side):
                out.append(R.unusable(k, w, y if isinstance(x, C.Side) else x, {}, n.split('/')[0]))
                continue
            same = len(x.shape) == len(y.shape) and all(p is q for p, q in zip(x.shape, y.shape))
            s, d, np_ = lad.compare(x, y, term=x.elem if same else None, limit=100)
            out.append(rec(k, s, w, d, np_))
    out.append(R.meta_rec(I))
    return out


# barotropic objects: steps "object attribute"; every object has its own data, grid, radius and resolution
E, L = 'equivalent_latitudes', 'lwa'
BARO = {'twice': [('A', E), ('A', E), ('A', L), ('A', L)], 'wave activity first': [('A', L), ('A', E), ('A', L)],
        'another object in between': [('A', E), ('B', E), ('B', L), ('A', L), ('A', E)],
        'another object first': [('B', L), ('B', E), ('A', L), ('A', E)],
        'built in between': [('A', L), ('B', None), ('C', None), ('C', L), ('A', E), ('A', L)],
        'another object, wave activity first': [('A', L), ('B', L), ('A', E), ('B', E), ('A', L)]}
BOPT = {'default': {}, 'partitioned': {'return_partitioned_lwa': True}, 'resolution': {'n_partitions': world.NND}}


def bjob(hist, opt, parity, seed, tier):
    tag = 'BarotropicField, %s latitudes, %s: %s' % ('odd' if parity else 'even', opt, hist)
    loc = 'src/falwa/barotropic_field.py BarotropicField'

    def make(I, o):
        w = ops.World(I, parity if o != 'B' else 1 - parity)
        if o == 'C':
            w.made['vort'] = w.f('vort2', w.nlat, world.NLON)
        cls = ops.fun(I, 'falwa.barotropic_field', 'BarotropicField')
        nx = world.NLON if o != 'B' else world.NLON + 2
        xlon = I.newarr((nx,), T.ix(0) * 360 / nx)
        kw = dict(BOPT[opt] if o != 'B' else BOPT['partitioned' if opt != 'partitioned' else 'resolution'])
        rad = {'A': ops.A, 'B': T.sym('a of another object'), 'C': ops.A}[o]
        v = w.field2('vort') if o != 'B' else w.f('vort3', w.nlat, nx)
        return I.construct(cls, [xlon, w.lat('ylat'), v], dict(planet_radius=rad, **kw))

    def drive(steps):
        I = world.interp()
        objs, got = {}, {}
        for o, n in steps:
            if o not in objs:
                objs[o] = make(I, o)
            if n:
                got[(o, n)] = oop.snapshot(I, oop.attr(I, objs[o], n))
        return I, got
    try:
        I, got = drive(BARO[hist])
    except (PyRaise, pyabs.Dead) as e:
        return [rec(tag, BAD, loc, 'raises %s' % R._exc(e))]
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return [rec(tag, OPEN, loc, str(e))]
    out = []
    for (o, n), y in sorted(got.items(), key=lambda z: z[0]):
        J, want = drive([(o, n)])
        k = '%s: %s of %s' % (tag, n, o)
        X, Y = [z if isinstance(z, tuple) else (z,) for z in (want[(o, n)], y)]
        if len(X) != len(Y):
            out.append(rec(k, VBAD, loc, 'number of results'))
            continue
        for x, y in zip(X, Y):
            if not isinstance(x, C.Side) or not isinstance(y, C.Side):
                out.append(rec(k, OPEN, loc, '%r' % (y,)))
                continue
            x.meaning, y.meaning = oop.meanings(J, I)
            evs = {}
            for sd in (seed, seed + 1):
                for i, m in ((0, y.meaning), (1, x.meaning)):
                    e = C.evaluator(m, sd, ops.SIZES, ops.PARAMS, ops.FIELDS)
                    e.parity = parity if o != 'B' else 1 - parity
                    evs[(sd, i)] = e
            r = C.compare(y, x, evs=evs, seeds=(seed, seed + 1), limit=120)
            out.append(rec(k, {'proved': PROVED, 'agree': AGREE, 'differ': VBAD, 'open': OPEN}[r.status], loc, r.detail,
                           r.npoints))
    out.append(R.meta_rec(I))
    return out


def run(rep):
    rep.level = 'other'
    rep.rule = ('after any history of stage calls the term of each reported quantity equals the term a fresh object '
                'reports after the shortest history that computes it with the same arguments')
    rep.explanation = ('Histories of stage calls (repetitions, other arguments before, other orders, other objects in '
                       'between) are interpreted in the heap domain; every observable of the latest call of each stage is '
                       'compared with that of a fresh object.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['histories: %d patterns of stage calls on up to three objects' % len(HISTORIES)]
    rep.minimum = 300
    keys = QUICK if rep.tier == 'quick' else list(CFG)
    hist = list(HISTORIES)
    if rep.tier != 'quick':
        # every sequence of three further calls after the reference state
        hist += ['A:i A:r ' + ' '.join('A:' + x for x in q)
                 for q in itertools.product(['i', 'r', 'h', 'b', 'bf', 'l', 'lf', 'o'], repeat=3)]
    rep.run([(job, (k, h, rep.seed, rep.tier)) for k in keys for h in hist] +
            [(bjob, (h, o, p, rep.seed, rep.tier)) for h in BARO for o in BOPT for p in (0, 1)], limit=600)
    rep.recs = F.meta(rep, rep.recs)
    rep.info['histories'] = len(hist) * len(keys)
