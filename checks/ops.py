"""Stand-alone functions (utilities, statistics, equivalent latitude, wave activity) against reference formulas."""
import math
from sa import world, oop, compare as C, evlib, evalt, terms as T, pyabs, fort, report
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk, Arr
from sa.terms import sym, lift, num, ix, ref
from sa.world import M, NLON, KMAX, NND
from . import formulas as F

NT = sym('ntime', True)
NS = sym('ns', True)
from sa.ranges import declare_param
declare_param(NT, 3)
declare_param(NS, 3)
SIZES = dict(C.BASE_SIZES, ntime=5, ns=4, m=5, nlon=6, nnd=7)


# ------------------------------------------------------------------ values of the inputs
def _clat(ev, idx):
    n = 2 * ev.sizes['m'] + ev.parity
    if idx[0] == 0:
        return 0.0
    if idx[0] == n - 1:
        return 3e-6
    if idx[0] == 2:
        return -0.3 - 0.5 * evalt.hrand(ev.seed, 'clat', idx)
    return 0.05 + 0.9 * evalt.hrand(ev.seed, 'clat', idx)


def _heights(ev, idx):
    return 900.0 * idx[0] + 400.0 * evalt.hrand(ev.seed, 'hgt', idx)


def _area(ev, idx):
    n = (2 * ev.sizes['m'] + ev.parity) * ev.sizes['nlon']
    a = ev.params['a']
    return 4 * math.pi * a * a / n * (0.5 + 0.49 * evalt.hrand(ev.seed, 'area', idx))


def _pos(name, lo=0.2, hi=1.7):
    return lambda ev, idx: lo + (hi - lo) * evalt.hrand(ev.seed, 'pos', name, idx)


def _pv(name):
    # arbitrary values, a few repeated or zero
    def f(ev, idx):
        if evalt.hrand(ev.seed, 'rep', name, idx) < 0.12:
            return 0.0
        return 4.0 * evalt.hrand(ev.seed, 'pv', name, idx) - 2.0
    return f


def _lat(ev, idx):
    n = 2 * ev.sizes['m'] + ev.parity
    return -90.0 + 180.0 * idx[0] / (n - 1)


FIELDS = dict(C.FIELDS, clat=_clat, height=_heights, area=_area, area1=_pos('area1'), dmu=_pos('dmu'), ylat=_lat,
              decay=_pos('decay'), statn=_pos('statn'), stats=_pos('stats'), vort=_pv('vort'), force=_pv('force'),
              vgrad=_pv('vgrad'), theta=_pos('theta', 200., 400.), theta2=_pos('theta2', 200., 400.))
PARAMS = {'a': 3.1, 'omega': 0.7, 'h': 7000.0, 'dlam': 0.21, 'dphi': 0.17, 'tol': 1e-5, 'dz': 1.3}


class World:
    """one interpreter and the inputs of a case"""

    def __init__(self, I, parity, tags=False):
        self.I, self.parity, self.tags = I, parity, tags
        self.nlat = 2 * M + parity
        self.made = {}

    def f(self, name, *shape):
        """an input array; the same name is the same object"""
        if name not in self.made:
            self.made[name] = oop.array(self.I, name, shape, ('input ' + name) if self.tags else None)
        return self.made[name]

    def field3(self, n):
        return self.f(n, KMAX, self.nlat, NLON)

    def field2(self, n):
        return self.f(n, self.nlat, NLON)

    def lat(self, n):
        return self.f(n, self.nlat)

    def lev(self, n):
        return self.f(n, KMAX)


def fun(I, mod, name):
    m = I.load_module(mod)
    f = I.h[m.nsid].get(name)
    if f is None:
        raise report.Broken('%s.%s does not exist' % (mod, name))
    return I.force(f)


def spec(J, name, *args):
    return J.call(fun(J, 'hnspec.ops', name), list(args), {})


def pkg(I, where, *args, **kw):
    mod, name = where.rsplit('.', 1)
    return I.call(fun(I, 'falwa.' + mod, name), list(args), kw)


A, OM, H, DLAM, DPHI, TOL, DZ = (sym(n) for n in ('a', 'omega', 'h', 'dlam', 'dphi', 'tol', 'dz'))
EARTH = num(6378000)


# ------------------------------------------------------------------ cases: (location, runner, reference, parities)
def half(w):
    return M                       # nlat // 2, for odd and for even grids


CASES = {}


def case(prop, name, loc, parities=(1, 0), sizes=None, params=None, skip=None):
    def deco(f):
        CASES.setdefault(prop, {})[name] = (loc, f, parities, sizes or {}, params or {}, skip)
        return f
    return deco


# each case: f(w, x) with w a World and x None (run the package) or the interpreter of the reference
U = 'utilities.'


@case('P21', 'static_stability', U + 'static_stability')
def _(w, s):
    a = (w.lev('height'), w.field2('area'), w.field3('theta'))
    return spec(w.I, 'static_stability', *a, M, M) if s else pkg(w.I, U + 'static_stability', *a)


@case('P21', 'static_stability of a zonal mean', U + 'static_stability')
def _(w, s):
    a = (w.lev('height'), w.lat('area1'), w.f('theta2', KMAX, w.nlat))
    return spec(w.I, 'static_stability', *a, M, M) if s else pkg(w.I, U + 'static_stability', *a)


@case('P21', 'static_stability with domain limits', U + 'static_stability')
def _(w, s):
    a = (w.lev('height'), w.field2('area'), w.field3('theta'))
    if s:
        return spec(w.I, 'static_stability', *a, NS, num(3))
    return pkg(w.I, U + 'static_stability', *a, s_et=NS, n_et=num(3))


def _qg(w):
    return (OM, w.nlat, NLON, KMAX, w.lev('height'), w.lat('ylat'), w.field3('vort3'), w.field3('theta'),
            w.lev('t0n'), w.lev('t0s'), w.lev('statn'), w.lev('stats'))


@case('P21', 'compute_qgpv_givenvort', U + 'compute_qgpv_givenvort')
def _(w, s):
    a = _qg(w)
    return spec(w.I, 'qgpv_givenvort', *a, M, num(7000)) if s else pkg(w.I, U + 'compute_qgpv_givenvort', *a)


@case('P21', 'compute_qgpv_givenvort with domain limit and scale height', U + 'compute_qgpv_givenvort')
def _(w, s):
    a = _qg(w)
    if s:
        return spec(w.I, 'qgpv_givenvort', *a, NS, H)
    return pkg(w.I, U + 'compute_qgpv_givenvort', *a, nlat_s=NS, scale_height=H)


@case('P21', 'zonal_convergence', U + 'zonal_convergence')
def _(w, s):
    a = (w.field2('f'), w.lat('clat'), DLAM)
    return spec(w.I, 'zonal_convergence', *a, A, TOL) if s else \
        pkg(w.I, U + 'zonal_convergence', *a, planet_radius=A, tol=TOL)


@case('P21', 'zonal_convergence with defaults', U + 'zonal_convergence')
def _(w, s):
    a = (w.field2('f'), w.lat('clat'), DLAM)
    return spec(w.I, 'zonal_convergence', *a, EARTH, num(1e-5)) if s else pkg(w.I, U + 'zonal_convergence', *a)


@case('P21', 'meridional_divergence', U + 'meridional_divergence')
def _(w, s):
    a = (w.field2('f'), w.lat('clat'), DPHI)
    return spec(w.I, 'meridional_divergence', *a, A, TOL) if s else \
        pkg(w.I, U + 'meridional_divergence', *a, planet_radius=A, tol=TOL)


@case('P21', 'meridional_divergence with defaults', U + 'meridional_divergence')
def _(w, s):
    a = (w.field2('f'), w.lat('clat'), DPHI)
    return spec(w.I, 'meridional_divergence', *a, EARTH, num(1e-5)) if s else \
        pkg(w.I, U + 'meridional_divergence', *a)


@case('P21', 'curl_2d', U + 'curl_2d')
def _(w, s):
    a = (w.field2('u'), w.field2('v'), w.lat('clat'), DLAM, DPHI)
    return spec(w.I, 'curl_2d', *a, A) if s else pkg(w.I, U + 'curl_2d', *a, planet_radius=A)


@case('P21', 'curl_2d with the default radius', U + 'curl_2d')
def _(w, s):
    a = (w.field2('u'), w.field2('v'), w.lat('clat'), DLAM, DPHI)
    return spec(w.I, 'curl_2d', *a, EARTH) if s else pkg(w.I, U + 'curl_2d', *a)


@case('P21', 'z_derivative_of_prod', U + 'z_derivative_of_prod', parities=(1,))
def _(w, s):
    a = (w.lev('statn'), w.lev('stats'), KMAX, M + 1, DZ, w.lev('decay'), w.field3('g'), w.f('mult', KMAX, w.nlat))
    return spec(w.I, 'z_derivative_of_prod', *a) if s else pkg(w.I, U + 'z_derivative_of_prod', *a)


@case('P21', 'calculate_covariance', 'stat_utils.calculate_covariance')
def _(w, s):
    a = (w.f('va', NT, w.nlat, NLON), w.f('vb', NT, w.nlat, NLON))
    return spec(w.I, 'covariance', *a) if s else pkg(w.I, 'stat_utils.calculate_covariance', *a)


# ------------------------------------------------------------------ P20
B, W = 'basis.', 'wrapper.'


def first(r):
    return r[0] if isinstance(r, tuple) else r


@case('P20', 'eqvlat_fawa', B + 'eqvlat_fawa')
def _(w, s):
    a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), NND)
    return spec(w.I, 'eqvlat_fawa', *a, A) if s else pkg(w.I, B + 'eqvlat_fawa', *a, planet_radius=A)


@case('P20', 'eqvlat_fawa with the default radius', B + 'eqvlat_fawa', params={'a': 6.378e6})
def _(w, s):
    a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), NND)
    return spec(w.I, 'eqvlat_fawa', *a, EARTH) if s else pkg(w.I, B + 'eqvlat_fawa', *a)


@case('P20', 'eqvlat_fawa without FAWA', B + 'eqvlat_fawa')
def _(w, s):
    a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), NND)
    return (first(spec(w.I, 'eqvlat', *a, A)), None) if s else \
        pkg(w.I, B + 'eqvlat_fawa', *a, planet_radius=A, output_fawa=False)


@case('P20', 'eqvlat_vgrad', B + 'eqvlat_vgrad')
def _(w, s):
    a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), NND)
    return spec(w.I, 'eqvlat_vgrad', *a, A, w.field2('vgrad')) if s else \
        pkg(w.I, B + 'eqvlat_vgrad', *a, planet_radius=A, vgrad=w.field2('vgrad'))


@case('P20', 'eqvlat_vgrad without vgrad', B + 'eqvlat_vgrad')
def _(w, s):
    a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), NND)
    return (first(spec(w.I, 'eqvlat', *a, A)), None) if s else pkg(w.I, B + 'eqvlat_vgrad', *a, planet_radius=A)


@case('P20', 'lwa', B + 'lwa')
def _(w, s):
    v, q, d = w.field2('vort'), w.lat('q'), w.lat('dmu')
    if s:
        r = spec(w.I, 'lwa', v, q, d)
        return w.I.np.binop('+', *r) if False else add(w, r), None
    return pkg(w.I, B + 'lwa', NLON, w.nlat, v, q, d)


def add(w, r):
    a, b = r
    return w.I.newarr(a.shape, w.I.read(a) + w.I.read(b))


def stack2(w, r):
    a, b = (w.I.read(x) for x in r)
    up = lambda e: T.subst(e, {T._IXS[k]: ix(k + 1) for k in range(2)})
    return w.I.newarr((num(2),) + tuple(r[0].shape), T.ite(T.c_eq(ix(0)), up(a), up(b)))


@case('P20', 'partitioned lwa', B + 'lwa')
def _(w, s):
    v, q, d = w.field2('vort'), w.lat('q'), w.lat('dmu')
    if s:
        return stack2(w, spec(w.I, 'lwa', v, q, d)), None
    return pkg(w.I, B + 'lwa', NLON, w.nlat, v, q, d, return_partitioned_lwa=True)


@case('P20', 'lwa with forcing', B + 'lwa')
def _(w, s):
    v, q, d, f = w.field2('vort'), w.lat('q'), w.lat('dmu'), w.field2('force')
    if s:
        return add(w, spec(w.I, 'lwa', v, q, d)), spec(w.I, 'bigsigma', v, q, d, f)
    return pkg(w.I, B + 'lwa', NLON, w.nlat, v, q, d, ncforce=f)


@case('P20', 'partitioned lwa with forcing', B + 'lwa')
def _(w, s):
    v, q, d, f = w.field2('vort'), w.lat('q'), w.lat('dmu'), w.field2('force')
    if s:
        return stack2(w, spec(w.I, 'lwa', v, q, d)), spec(w.I, 'bigsigma', v, q, d, f)
    return pkg(w.I, B + 'lwa', NLON, w.nlat, v, q, d, return_partitioned_lwa=True, ncforce=f)


def baro_lwa(w, n, a, dmu, area, part):
    q = first(spec(w.I, 'eqvlat', w.lat('ylat'), w.field2('vort'), area, n, a))
    r = spec(w.I, 'lwa', w.field2('vort'), q, dmu)
    return q, stack2(w, r) if part else add(w, r)


for _n, _kw in (('barotropic_eqlat_lwa', {}), ('barotropic_eqlat_lwa, default resolution', {'n': None}),
                ('partitioned barotropic_eqlat_lwa', {'part': True})):
    @case('P20', _n, W + 'barotropic_eqlat_lwa')
    def _(w, s, kw=_kw):
        n, part = kw.get('n', NND), kw.get('part', False)
        if s:
            return baro_lwa(w, w.nlat if n is None else n, A, w.lat('dmu'), w.field2('area'), part)
        return pkg(w.I, W + 'barotropic_eqlat_lwa', w.lat('ylat'), w.field2('vort'), w.field2('area'), w.lat('dmu'), n,
                   planet_radius=A, return_partitioned_lwa=part)


@case('P20', 'barotropic_input_qref_to_compute_lwa', W + 'barotropic_input_qref_to_compute_lwa')
def _(w, s):
    if s:
        return add(w, spec(w.I, 'lwa', w.field2('vort'), w.lat('q'), w.lat('dmu')))
    return pkg(w.I, W + 'barotropic_input_qref_to_compute_lwa', w.lat('ylat'), w.lat('q'), w.field2('vort'),
               w.field2('area'), w.lat('dmu'))


HEMI = (('', {}), (' with limits', {'ns': NS, 'n': NND}), (' with a domain', {'ns': NS}),
        (' with a resolution', {'n': NND}))


def _lim(kw):
    k = {}
    if 'ns' in kw:
        k['nlat_s'] = kw['ns']
    if 'n' in kw:
        k['n_points'] = kw['n']
    ns = kw.get('ns', M)
    return k, ns, kw.get('n', ns)


for _n, _kw in HEMI:
    @case('P20', 'eqvlat_hemispheric' + _n, W + 'eqvlat_hemispheric')
    def _(w, s, kw=_kw):
        k, ns, n = _lim(kw)
        a = (w.lat('ylat'), w.field2('vort'), w.field2('area'))
        if s:
            return spec(w.I, 'eqvlat_hemispheric', *a, ns, n, A)
        return pkg(w.I, W + 'eqvlat_hemispheric', *a, planet_radius=A, **k)

    @case('P20', 'eqvlat_bracket_hemispheric' + _n, W + 'eqvlat_bracket_hemispheric')
    def _(w, s, kw=_kw):
        k, ns, n = _lim(kw)
        a = (w.lat('ylat'), w.field2('vort'), w.field2('area'))
        if s:
            return (spec(w.I, 'eqvlat_hemispheric', *a, ns, n, A),
                    spec(w.I, 'hemispheric_bracket', *a, ns, n, A, w.field2('vgrad')))
        return pkg(w.I, W + 'eqvlat_bracket_hemispheric', *a, planet_radius=A, vgrad=w.field2('vgrad'), **k)

    @case('P20', 'eqvlat_bracket_hemispheric without vgrad' + _n, W + 'eqvlat_bracket_hemispheric')
    def _(w, s, kw=_kw):
        k, ns, n = _lim(kw)
        a = (w.lat('ylat'), w.field2('vort'), w.field2('area'))
        if s:
            return spec(w.I, 'eqvlat_hemispheric', *a, ns, n, A), None
        return pkg(w.I, W + 'eqvlat_bracket_hemispheric', *a, planet_radius=A, **k)

    @case('P20', 'qgpv_eqlat_lwa' + _n, W + 'qgpv_eqlat_lwa')
    def _(w, s, kw=_kw):
        k, ns, n = _lim(kw)
        a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), w.lat('dmu'))
        if s:
            return spec(w.I, 'qgpv_eqlat_lwa', *a, ns, n, A, num(-1))
        return pkg(w.I, W + 'qgpv_eqlat_lwa', *a, planet_radius=A, **k)

    @case('P20', 'qgpv_eqlat_lwa_ncforce' + _n, W + 'qgpv_eqlat_lwa_ncforce')
    def _(w, s, kw=_kw):
        k, ns, n = _lim(kw)
        a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), w.lat('dmu'))
        f = w.field2('force')
        if s:
            return spec(w.I, 'qgpv_eqlat_lwa', *a, ns, n, A, num(-1)) + (spec(w.I, 'qgpv_sigma', *a, ns, n, A, f),)
        return pkg(w.I, W + 'qgpv_eqlat_lwa_ncforce', a[0], a[1], f, a[2], a[3], planet_radius=A, **k)

    for _v, _f in ((0, 0), (1, 0), (0, 1), (1, 1)):
        @case('P20', 'qgpv_eqlat_lwa_options%s%s%s' % (', vgrad' if _v else '', ', forcing' if _f else '', _n),
              W + 'qgpv_eqlat_lwa_options')
        def _(w, s, kw=_kw, v=_v, f=_f):
            k, ns, n = _lim(kw)
            a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), w.lat('dmu'))
            if s:
                q, l = spec(w.I, 'qgpv_eqlat_lwa', *a, ns, n, A, num(-1))
                r = {'qref': q, 'lwa_result': l}
                if v:
                    r['brac_result'] = spec(w.I, 'hemispheric_bracket', *a[:3], ns, n, A, w.field2('vgrad'))
                if f:
                    r['capsigma'] = spec(w.I, 'qgpv_sigma', *a, ns, n, A, w.field2('force'))
                return r
            if v:
                k['vgrad'] = w.field2('vgrad')
            if f:
                k['ncforce'] = w.field2('force')
            return pkg(w.I, W + 'qgpv_eqlat_lwa_options', *a, planet_radius=A, **k)

    @case('P20', 'theta_lwa' + _n, W + 'theta_lwa')
    def _(w, s, kw=_kw):
        k, ns, n = _lim(kw)
        a = (w.lat('ylat'), w.field2('vort'), w.field2('area'), w.lat('dmu'))
        if s:
            return spec(w.I, 'qgpv_eqlat_lwa', *a, ns, n, A, num(1))
        return pkg(w.I, W + 'theta_lwa', *a, planet_radius=A, **k)


for _n, _ns in (('', None), (' with a domain', NS)):
    @case('P20', 'qgpv_input_qref_to_compute_lwa' + _n, W + 'qgpv_input_qref_to_compute_lwa')
    def _(w, s, ns=_ns):
        if s:
            n = M if ns is None else ns
            I = w.I
            q = I.read(w.lat('q'))
            qs = I.newarr((n,), q)
            qn = I.newarr((n,), T.subst(q, {T._IXS[0]: ix(0) + w.nlat - n}))
            return spec(I, 'hemispheric_lwa', w.field2('vort'), qs, qn, w.lat('dmu'), n)
        k = {} if ns is None else {'nlat_s': ns}
        return pkg(w.I, W + 'qgpv_input_qref_to_compute_lwa', w.lat('ylat'), w.lat('q'), w.field2('vort'),
                   w.field2('area'), w.lat('dmu'), **k)


def baro_object(w, **kw):
    xlon = w.I.newarr((NLON,), ix(0) * 360 / NLON)
    cls = fun(w.I, 'falwa.barotropic_field', 'BarotropicField')
    return w.I.construct(cls, [xlon, w.lat('ylat'), w.field2('vort')], dict(planet_radius=A, **kw))


BF = (('', {}), (' partitioned', {'return_partitioned_lwa': True}), (' with resolution', {'n_partitions': NND}),
      (' with given geometry', {'area': 1, 'dphi': 1}))
ORDERS = (('', ('equivalent_latitudes', 'lwa')), (', lwa first', ('lwa', 'equivalent_latitudes')),
          (', twice', ('lwa', 'lwa', 'equivalent_latitudes', 'equivalent_latitudes')))
for _n, _kw in BF:
    for _o, _order in ORDERS:
        if _o and _kw.get('area'):
            continue

        @case('P20', 'BarotropicField' + _n + _o, 'barotropic_field.BarotropicField')
        def _(w, s, kw=_kw, order=_order):
            part = kw.get('return_partitioned_lwa', False)
            if s:
                area, dmu = spec(w.I, 'baro_geometry', w.lat('ylat'), NLON, A)
                if kw.get('area'):
                    area = w.field2('area')
                    d, y = w.I.read(w.lat('dmu')), w.I.read(w.lat('ylat'))
                    dmu = w.I.newarr((w.nlat,), A * T.fn('abs', T.fn('cos', y * sym('pi') / 180)) * d)
                q, l = baro_lwa(w, kw.get('n_partitions', w.nlat), A, dmu, area, part)
                return {'equivalent_latitudes': q, 'lwa': l}
            k = dict(kw)
            if kw.get('area'):
                k.update(area=w.field2('area'), dphi=w.lat('dmu'))
            o = baro_object(w, **k)
            r = {}
            for n in order:
                r[n] = oop.attr(w.I, o, n)
            return r


# ------------------------------------------------------------------ the comparison
def items(I, r):
    if isinstance(r, dict):
        return [(k, v) for k, v in sorted(r.items())]
    if isinstance(r, tuple):
        return [('result %d' % i, v) for i, v in enumerate(r)]
    d = pyabs.dict_items(I, r) if hasattr(pyabs, 'dict_items') else None
    if d is not None:
        return sorted(d)
    from sa.pyval import DictV
    if isinstance(r, DictV):
        return sorted((k, v) for k, v in I.h[r.id].items())
    return [('result', r)]


def run_case(prop, name, parity, seed, tier):
    loc, f, pars, sizes, params, skip = CASES[prop][name]
    I, J = world.interp(), oop.spec_interp()
    label = '%s (%s latitudes)' % (name, 'odd' if parity else 'even')
    mod, fn = loc.rsplit('.', 1)
    w = F.funcloc(I, I.h[I.load_module('falwa.' + mod).nsid].get(fn))
    if w == '?':
        w = 'src/falwa/%s.py %s' % (mod, fn)
    out = []
    try:
        r = items(I, f(World(I, parity), None))
    except (PyRaise, pyabs.Dead) as e:
        return [rec(label, BAD, w, 'raises %s' % F._exc(e)), meta(I)]
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return [rec(label, OPEN, w, '%s' % e), meta(I)]
    r = [(k, oop.snapshot(I, v)) for k, v in r]
    s = [(k, oop.snapshot(J, v)) for k, v in items(J, f(World(J, parity), True))]
    if [k for k, _ in r] != [k for k, _ in s]:
        return [rec(label, BAD, w, 'results %s instead of %s' % ([k for k, _ in r], [k for k, _ in s])), meta(I)]
    for x in I.top_exits:
        if x[0] is not T.TRUE:
            pass
    base = [dict(SIZES, **sizes)]
    if tier != 'quick':
        base += [dict(base[0], m=6, nlon=5, nnd=9, ntime=4, ns=5, kmax=6), dict(base[0], m=8, nlon=7, nnd=4, kmax=8)]
    seeds = (seed, seed + 1) if tier == 'quick' else tuple(seed + 10 * i for i in range(6))
    for (k, x), (_, y) in zip(r, s):
        key = '%s: %s' % (label, k)
        if not isinstance(y, C.Side):
            out.append(rec(key, PROVED if x is y or x == y else BAD, w, '' if x == y else 'returns %r' % (x,), 0))
            continue
        if not isinstance(x, C.Side):
            out.append(rec(key, OPEN if isinstance(x, Unk) else BAD, w, 'returns %r' % (x,)))
            continue
        res = None
        n = 0
        for sz in base:
            ma, mb = oop.meanings(I, J)
            x.meaning, y.meaning = ma, mb
            evs = {}
            for sd in seeds:
                for i, mm in ((0, ma), (1, mb)):
                    e = C.evaluator(mm, sd, sz, dict(PARAMS, **params), FIELDS)
                    e.parity = parity
                    evs[(sd, i)] = e
            res = C.compare(x, y, evs=evs, seeds=seeds, limit=250 if tier == 'quick' else 600, skip=skip)
            n += res.npoints
            if res.status == 'proved':
                break
            if res.status != 'agree':
                break
        st = {'proved': PROVED, 'agree': AGREE, 'differ': VBAD, 'open': OPEN}[res.status]
        out.append(rec(key, st, w, res.detail, n))
    for ex in exits(I):
        out.append(rec('%s: raises under a condition' % label, BAD, w, ex))
    out.append(meta(I))
    return out


def exits(I):
    return []


def meta(I):
    return rec('meta', 'meta', detail={'functions': len(I.funcs_seen), 'calls': I.ncalls, 'statements': I.nstmts,
                                       'unknown': list(I.unknown)[:5], 'names': ['%s.%s' % q for q in I.funcs_seen]})


def run(rep, prop, minimum):
    rep.level = 'translation_validation'
    rep.rule = ('the closed-form term of each result of a stand-alone function, obtained by abstract interpretation, '
                'denotes the same function of the arguments as the reference formula in spec/ops.py')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS
    rep.minimum = minimum
    rep.run([(run_case, (prop, n, p, rep.seed, rep.tier)) for n, c in CASES[prop].items() for p in c[2]], limit=600)
    rep.recs = F.meta(rep, rep.recs)
