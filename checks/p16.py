"""The dataset layer: every slice of every reported variable against a field object built on that slice."""
import itertools
from sa import world, oop, compare as C, terms as T, pyabs
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import Arr, Obj, PyRaise, Unk
from sa.terms import ref, ix, num, ONE, sub
from . import formulas as F, relate as R
from .xr import Xr, fix

H, Y, X = 'height', 'ylat', 'xlon'
XYZ, YZ, YX = (H, Y, X), (H, Y), (Y, X)
# variables of the dataset of each stage: core dimensions
VARS = {
    'interp': {n: XYZ for n in oop.INTERP},
    'ref': {n: YZ for n in oop.REFS},
    'baro': dict({n: YX for n in oop.BARO}, lwa=XYZ),
    'layer': {n: XYZ for n in oop.LAYER},
    'only': dict(lwa_baro=YX, u_baro=YX, lwa=XYZ),
    'heating': {'ncforce': XYZ},
}
METHOD = {'interp': 'interpolate_fields', 'ref': 'compute_reference_states',
          'baro': 'compute_lwa_and_barotropic_fluxes', 'layer': 'compute_layerwise_lwa_fluxes',
          'only': 'compute_lwa_only', 'heating': 'compute_ncforce_from_heating_rate'}
ATTRS = {'kmax': 'kmax', 'dz': 'dz', 'maxit': 'maxit', 'tol': 'tol', 'npart': 'npart', 'rjac': 'rjac',
         'scale_height': 'scale_height', 'cp': 'cp', 'dry_gas_constant': 'dry_gas_constant', 'omega': 'omega',
         'planet_radius': 'planet_radius', 'prefactor': 'prefactor'}
# key: configuration, latitude descending, pressure ascending, extra dimensions, how the data are passed
SCEN = {
    'a': (dict(ncforce=True), 0, 0, (('time', 2),), 'dataset'),
    'b': (dict(ncforce=True), 1, 1, (('time', 2), ('number', 3)), 'dataset'),
    'c': (dict(cls='QGFieldNHN22', ncforce=True), 1, 0, (('time', 2), ('number', 2)), 'arrays'),
    'd': (dict(cls='QGFieldNHN22', nh=True), 0, 1, (('number', 2),), 'datasets'),
    'e': (dict(odd=False), 1, 0, (), 'renamed'),
    'f': (dict(nh=True, ncforce=True), 0, 1, (('time', 3),), 'mapped'),
    'g': (dict(levels=True), 1, 1, (('number', 1), ('time', 2)), 'override'),
    'h': (dict(cls='QGFieldNHN22', odd=False), 1, 1, (('time', 2),), 'no coordinate'),
    'i': (dict(odd=False, nh=True, ncforce=True), 1, 1, (('member', 2), ('time', 2), ('number', 2)), 'positional'),
}
MORE = {
    'j': (dict(cls='QGFieldNHN22', levels=True, ncforce=True), 1, 1, (), 'datasets'),
    'k': (dict(kmax=5, ncforce=True), 0, 1, (('time', 4),), 'names2'),
    'l': (dict(cls='QGFieldNHN22', jb=3), 1, 0, (('time', 2),), 'names3'),
    'm': (dict(npart=True, kmax=6), 0, 0, (('number', 3), ('time', 2)), 'names4'),
}
# coordinate and variable names of the input: pressure, latitude, longitude, u, v, t
NAMES = {'dataset': ('plev', 'ylat', 'xlon', 'u', 'v', 't'), 'arrays': ('level', 'latitude', 'longitude') + 3 * (None,),
         'datasets': ('lev', 'lat', 'lon', 'u', 'v', 't'), 'renamed': ('isobaricInhPa', 'lat', 'lon', 'U', 'V', 'T'),
         'mapped': ('p', 'phi', 'lambda', 'ua', 'va', 'ta'), 'override': ('pressure_level', 'latitude', 'longitude',
                                                                         'u', 'v', 't'),
         'no coordinate': ('plev', 'lat', 'lon', 'u', 'v', 't'), 'positional': ('level', 'lat', 'lon', 'u', 'V', 't'),
         'names2': ('lev', 'ylat', 'longitude', 'U', 'v', 'T'), 'names3': ('isobaricInhPa', 'latitude', 'xlon', 'u',
                                                                          'v', 'T'),
         'names4': ('p', 'ylat', 'lon', 'u', 'vwnd', 't')}


class Setup:
    def __init__(self, key):
        for n in ('dz', 'h'):
            T.declare_positive(oop.P[n])
        opt, self.ydesc, self.pasc, self.extra, self.how = SCEN.get(key) or MORE[key]
        self.cfg = cfg = oop.Config(**opt)
        self.I = I = world.interp()
        self.xr = Xr(I)
        self.label = '%s, latitudes %s, pressure %s, %s' % (
            cfg.label(), 'descending' if self.ydesc else 'ascending', 'ascending' if self.pasc else 'descending',
            ' x '.join('%s(%d)' % e for e in self.extra) or 'one slice')
        self.label += ', ' + self.how
        self.nl = cfg.kmax if cfg.levels else oop.NLEV
        base = oop.inputs(I, cfg)
        self.xlon, self.ylat, self.plev = base[:3]
        if not cfg.levels:           # levels whose order is known
            self.plev = I.newarr((self.nl,), 1000 * (self.nl - ix(0)) / self.nl)
        self.dims = tuple(d for d, _ in self.extra)
        self.shape = tuple(n for _, n in self.extra)
        k = len(self.extra)
        self.core = (self.nl, cfg.nlat, world.NLON)

        def turned(a, yes):
            if not yes:
                return a
            n = I.shape_of(a)[0]
            return I.newarr((n,), T.subst(I.read(a), {ix(0).single(): sub(sub(n, ONE), ix(0))}))
        self.coords = {}
        pn, yn, xn, un, vn, tn = NAMES[self.how]
        self.names = (pn, yn, xn)
        for d, n in self.extra:
            if self.how != 'no coordinate':
                e = ref(T.base('in', ('coordinate ' + d,), (num(n),)), ix(0))
                self.coords[d] = I.newarr((num(n),), e)
        self.coords[pn] = turned(self.plev, self.pasc)
        self.coords[yn] = turned(self.ylat, self.ydesc)
        self.coords[xn] = self.xlon
        # variables which share no name with the ones asked for must be ignored
        self.given = {}
        for n, name in (('u', un), ('v', vn), ('t', tn)):
            self.given[n] = self.labelled(n, self.core, (pn, yn, xn), self.coords, name)
        self.vnames = (un, vn, tn)

    def labelled(self, n, core, dims, coords, name=None):
        """an array over the extra and the core dimensions"""
        I, k = self.I, len(self.extra)
        shape = tuple(num(s) for s in self.shape) + tuple(core)
        b = T.base('in', (n,), shape)
        a = I.newarr(shape, ref(b, *[ix(i) for i in range(len(shape))]))
        return self.xr.array(a, self.dims + tuple(dims), {c: v for c, v in coords.items()
                                                         if c in self.dims + tuple(dims)}, name)

    def slice(self, n, core, where, turn):
        """the field of one slice as a plain array, oriented for a field object"""
        I = self.I
        shape = tuple(num(s) for s in self.shape) + tuple(core)
        b = T.base('in', (n,), shape)
        idx = [num(i) for i in where]
        for i, s in enumerate(core):
            flip = turn and (i == 0 and self.pasc or i == 1 and self.ydesc)
            idx.append(sub(sub(s, ONE), ix(i)) if flip else ix(i))
        return I.newarr(core, ref(b, *idx))

    def construct(self):
        I, xr, cfg = self.I, self.xr, self.cfg
        kw = dict(scale_height=oop.P['h'], cp=oop.P['cp'], dry_gas_constant=oop.P['R'], omega=oop.P['omega'],
                  planet_radius=oop.P['a'], maxit=oop.MAXIT, tol=oop.P['tol'], rjac=oop.P['rjac'],
                  northern_hemisphere_results_only=cfg.nh, data_on_evenly_spaced_pseudoheight_grid=cfg.levels)
        if not cfg.levels:
            kw.update(kmax=cfg.kmax, dz=oop.P['dz'])
        if cfg.npart:
            kw['npart'] = oop.NPART
        if cfg.jb is not None:
            kw['eq_boundary_index'] = num(cfg.jb)
        args = []
        if self.how == 'positional':
            args = [kw.pop('kmax'), kw.pop('maxit'), kw.pop('dz')]
        mod = I.load_module('falwa.oopinterface')
        cls = I.h[mod.nsid].get(cfg.cls)
        if cls is None:
            raise oop.AnchorLost('class %s' % cfg.cls)
        call = {'qgfield_kwargs': I.newdict(kw)}
        if cfg.cls != 'QGFieldNH18':
            call['qgfield'] = cls
        if args:
            call['qgfield_args'] = tuple(args)
        un, vn, tn = self.vnames
        g = self.given
        pn, yn, xn = self.names
        noise = lambda n: self.labelled(n, self.core, (pn, yn, xn), self.coords)
        if self.how == 'arrays':
            pos = [g['u'], g['v'], g['t']]
        elif self.how == 'datasets':
            pos = [xr.dataset({un: g['u'], 'w': noise('w')}), xr.dataset({vn: g['v'], 'x': noise('x')}),
                   xr.dataset({tn: g['t']})]
        elif self.how == 'override':
            # the arguments given one by one take precedence over the variables of the dataset
            pos = [xr.dataset({un: g['u'], vn: noise('other v'), tn: noise('other t')})]
            call.update(da_v=g['v'], da_t=xr.dataset({tn: g['t'], un: noise('other u')}))
        else:
            pos = [xr.dataset({'w': noise('w'), tn: g['t'], un: g['u'], vn: g['v']})]
        if self.how == 'mapped':
            call['var_names'] = I.newdict(dict(plev=pn, ylat=yn, xlon=xn, u=un, v=vn, t=tn))
        if self.how == 'names4':
            call['var_names'] = I.newdict(dict(plev=pn, v=vn))
        return I.call(xr.fn('QGDataset'), pos, call)

    def reference(self, where, stages):
        """what a field object reports for one slice"""
        cfg = self.cfg
        args = [self.xlon, self.ylat, self.plev] + [self.slice(n, self.core, where, True) for n in 'uvt']
        I = self.I
        nc = self.slice('ncforce', (cfg.kmax, cfg.nlat, world.NLON), where, False) if cfg.ncforce else None
        r = oop.run(I, cfg, args=args, stages=[s for s in stages if s not in ('only', 'heating')], forcing=nc)
        if 'only' in stages:
            q = oop.run(I, cfg, args=args, stages=('interp', 'ref', 'only'))
            r.update({n: v for n, v in q.items() if n.startswith('only/')})
        if 'heating' in stages:
            o = oop.construct(I, cfg, args)
            oop.call(I, o, 'interpolate_fields')
            r['heating/ncforce'] = oop.snapshot(I, oop.call(
                I, o, 'compute_ncforce_from_heating_rate', self.slice('heating', self.core, where, True)))
        return r


def errors(I, n0):
    return [e for e in I.top_exits[n0:] if e.kind == 'raise']


class Judge:
    def __init__(self, s, seed, tier):
        self.s, self.out = s, []
        self.lad = R.Ladder(s.I, sizes=R.sizes_for(s.cfg), seeds=(seed,), levels=(0, 2))
        self.limit = 120 if tier == 'quick' else 400

    def add(self, what, ok, where='', detail='', n=1):
        self.out.append(rec('%s:%s' % (self.s.label, what), ok, where, detail, n))

    def equal(self, what, w, got, want):
        if isinstance(got, Unk):
            return self.add(what, OPEN, w, str(got))
        if not isinstance(got, C.Side) or not isinstance(want, C.Side):
            if not isinstance(want, C.Side):
                return self.add(what, OPEN, w, 'no reference value: %r' % (want,))
            return self.add(what, BAD, w, 'no array: %r' % (got,))
        same = len(got.shape) == len(want.shape) and all(
            p is q or C.Ctx().decide(T.c_eq(sub(p, q))) for p, q in zip(got.shape, want.shape))
        s, d, n = self.lad.compare(want, got, term=want.elem if same else None, limit=self.limit)
        self.add(what, s, w, d, n or 1)

    def plain_equal(self, what, w, got, want):
        """coordinates"""
        if isinstance(got, Unk):
            return self.add(what, OPEN, w, str(got))
        if not isinstance(got, C.Side):
            return self.add(what, BAD, w, 'no array: %r' % (got,))
        r = C.compare(got, want)
        self.add(what, {'proved': PROVED, 'agree': AGREE, 'differ': VBAD}.get(r.status, OPEN), w, r.detail, r.npoints or 1)


def job(key, seed, tier):
    s = Setup(key)
    I, xr, cfg = s.I, s.xr, s.cfg
    J = Judge(s, seed, tier)
    w0 = 'src/falwa/xarrayinterface.py QGDataset'
    kind, q, cond = R.attempt(I, s.construct)
    cond = [e for e in cond if e.loc[0] == 'falwa.xarrayinterface']
    if kind == 'raise' or cond:
        J.add('construct', BAD, w0, 'valid input is refused: %s' % (q if kind == 'raise' else cond[0].value.name))
        return J.out
    if kind == 'open':
        J.add('construct', OPEN, w0, q)
        return J.out
    cells = list(itertools.product(*[range(n) for n in s.shape]))
    stages = ['interp', 'ref', 'baro', 'layer', 'heating']
    refs = {}
    for c in cells:
        refs[c] = s.reference(c, stages + ['only'])
    nflds = I.getattr_(I.getattr_(q, 'fields'), '__len__') if False else len(I.items(I.getattr_(q, 'fields')))
    J.add('one field object per slice', PROVED if nflds == len(cells) else BAD, w0, '%d for %d slices' % (
        nflds, len(cells)))
    zref = refs[cells[0]]
    coords = {H: zref['grid/height'], X: zref['grid/xlon']}
    yfull, yref = zref['grid/ylat'], zref['grid/ylat_ref_states']
    dims0 = s.dims
    forcing = s.labelled('ncforce', (cfg.kmax, cfg.nlat, world.NLON), (H, Y, X), {d: s.coords[d] for d in dims0
                                                                                  if d in s.coords})
    # compute_lwa_only on an object of its own: the flux stages share its results
    order = [('interp', q), ('ref', q), ('baro', q), ('layer', q), ('heating', q)]
    kind, q2, cond = R.attempt(I, s.construct)
    order += [('interp2', q2), ('ref2', q2), ('only', q2)]
    h0 = I.h
    for st, o in order:
        st, silent = (st[:-1], True) if st.endswith('2') else (st, False)
        w = 'src/falwa/xarrayinterface.py QGDataset.%s' % METHOD[st]

        def call():
            args, kw = [], {}
            if st == 'heating':
                args = [s.labelled('heating', s.core, s.names, s.coords)]
            if st in ('baro', 'layer') and cfg.ncforce:
                kw['ncforce'] = forcing
            if silent:
                kw['return_dataset'] = False
            return I.call(I.getattr_(o, METHOD[st]), args, kw)
        kind, d, cond = R.attempt(I, call)
        if kind == 'open':
            J.add(st, OPEN, w, d)
            continue
        if kind == 'raise':
            J.add(st, BAD, w, 'raises %s' % d)
            break
        if silent:
            J.add(st + ' without dataset', PROVED if d is None else (OPEN if isinstance(d, Unk) else BAD), w,
                  '' if d is None else 'returns %r' % (d,))
            # the properties give the same arrays
            get = lambda n: I.getattr_(o, n)
            known = list(VARS[st])
        elif st == 'heating':
            get = lambda n: d
            known = ['ncforce']
        else:
            if isinstance(d, Unk) or not isinstance(d, Obj):
                J.add(st, OPEN if isinstance(d, Unk) else BAD, w, 'returns %r' % (d,))
                continue
            get = lambda n: I.getitem(d, n)
            known, cnames = xr.names(d)
        vs = dict(VARS[st])
        expected = {n: (n, core, None) for n, core in vs.items()}
        if st == 'interp' and not silent:
            # one profile, or one per hemisphere (stored as south, north)
            v = zref['interp/static_stability']
            if isinstance(v, tuple):
                expected['static_stability_s'] = ('static_stability', (H,), 0)
                expected['static_stability_n'] = ('static_stability', (H,), 1)
            else:
                expected['static_stability'] = ('static_stability', (H,), None)
        for n, (src, core, part) in expected.items():
            wn = 'src/falwa/xarrayinterface.py QGDataset.%s %s' % (METHOD[st], n)
            if n not in known:
                J.add('%s/%s' % (st, n), BAD, wn, 'missing from the dataset')
                continue
            kind, v, _ = R.attempt(I, lambda: get(n))
            if kind != 'value' or not isinstance(v, Obj):
                J.add('%s/%s' % (st, n), BAD if kind == 'raise' or kind == 'value' and not isinstance(v, Unk) else OPEN,
                      wn, '%s' % (v,))
                continue
            dims = xr.dims(v)
            if tuple(dims) != dims0 + core:
                J.add('%s/%s' % (st, n), BAD, wn, 'dimensions %s instead of %s' % (dims, dims0 + core))
                continue
            side = xr.side(xr.data(v))
            if isinstance(side, Unk):
                J.add('%s/%s' % (st, n), OPEN, wn, str(side))
                continue
            nm = I.getattr_(v, 'name')
            if nm != n:
                J.add('%s/%s' % (st, n), BAD, wn, 'is named %s' % nm)
            for c in cells:
                want = refs[c].get('%s/%s' % (st, src))
                if part is not None and isinstance(want, tuple):
                    want = want[part]
                J.equal('%s/%s%s' % (st, n, list(c) if c else ''), wn, fix(side, c), want)
            # coordinates
            cs = {H: coords[H], X: coords[X], Y: yfull if st in ('interp', 'heating') else yref}
            for dm in core:
                J.plain_equal('%s/%s coordinate %s' % (st, n, dm), wn, xr.side(xr.data(I.getitem(v, dm))), cs[dm])
            for dm in dims0:
                a = s.coords.get(dm)
                want = oop.snapshot(I, a) if a is not None else C.Side((num(dict(s.extra)[dm]),), ix(0))
                J.plain_equal('%s/%s coordinate %s' % (st, n, dm), wn, xr.side(xr.data(I.getitem(v, dm))), want)
        if not silent and st != 'heating':
            at = I.getattr_(d, 'attrs')
            got = I.h[at.id] if hasattr(at, 'id') else {}
            fld = I.items(I.getattr_(q, 'fields'))[0]
            for n, src in ATTRS.items():
                v = got.get(n)
                if v is None:
                    J.add('%s attribute %s' % (st, n), BAD, w, 'missing')
                    continue
                J.plain_equal('%s attribute %s' % (st, n), w, oop.snapshot(I, I.force(v)),
                              oop.snapshot(I, I.plain(oop.attr(I, fld, src))))
            J.add('%s attribute protocol' % st, PROVED if got.get('protocol') == cfg.cls else (
                OPEN if isinstance(got.get('protocol'), Unk) else BAD), w, '%r' % (got.get('protocol'),))
    J.out.append(R.meta_rec(I))
    return J.out


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term a dataset variable has at a slice is the term the field object built on that slice, brought '
                'into the order the field object needs, reports; dimensions, coordinates and attributes follow the '
                'documentation')
    rep.explanation = ('The dataset layer is interpreted over symbolic labelled arrays: any number of latitudes, '
                       'longitudes and levels, small concrete extra dimensions, both orders of both axes, all '
                       'documented ways to pass and name the input. The library underneath is replaced by its semantics '
                       'in spec/xarray_model.py.')
    rep.trusted = F.TRUSTED + ['spec/xarray_model.py describes xarray']
    rep.assumptions = F.ASSUMPTIONS + ['coordinate values are unique along their axis']
    rep.minimum = 1000
    keys = list(SCEN) if rep.tier == 'quick' else list(SCEN) + list(MORE)
    rep.run([(job, (k, rep.seed, rep.tier)) for k in keys], limit=800)
    rep.recs = F.meta(rep, rep.recs)
