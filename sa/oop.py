"""The field object and its reference in the abstract world."""
from . import world, evlib, fort, compare as C, terms as T, pyabs
from .pyval import *          # noqa: F401,F403
from .pyval import Arr, Obj, PyRaise, Unk, DictV
from .terms import sym, ref, ix, lift, num, fn, ONE, ZERO
from .ranges import Ctx, declare_param
from .world import M, NLON, KMAX

NLEV = sym('nlev', True)
declare_param(NLEV, 4)
P = {n: sym(n) for n in ('dz', 'h', 'cp', 'R', 'omega', 'a', 'tol', 'rjac')}
MAXIT = sym('maxit', True)
declare_param(MAXIT, 1)
NPART = sym('npart', True)
declare_param(NPART, 3)


class Config:
    def __init__(self, cls='QGFieldNH18', odd=True, nh=False, levels=False, ncforce=False, kmax=None, npart=False,
                 jb=None):
        self.cls, self.odd, self.nh, self.levels, self.ncforce = cls, odd, nh, levels, ncforce
        self.kmax = lift(kmax) if kmax else KMAX
        self.npart = npart
        self.jb = jb

    @property
    def scheme(self):
        return 'NHN22' if self.cls == 'QGFieldNHN22' else 'NH18'

    def label(self):
        return '%s,%s latitudes,%s%s%s' % (
            self.cls, 'odd' if self.odd else 'even', 'northern hemisphere only' if self.nh else 'global',
            ',levels as given' if self.levels else '', ',with forcing' if self.ncforce else '')

    @property
    def nlat(self):
        return 2 * M + 1 if self.odd else 2 * M


def array(I, name, shape, tag=None):
    shape = tuple(lift(s) for s in shape)
    return I.newarr(shape, ref(T.base('in', (name,), shape), *[ix(i) for i in range(len(shape))]), tag)


def inputs(I, cfg, tags=False, names=('u', 'v', 't')):
    """xlon, ylat, plev, u, v, t"""
    t = (lambda n: 'input ' + n) if tags else (lambda n: None)
    nl = cfg.kmax if cfg.levels else NLEV
    xlon = I.newarr((NLON,), ix(0) * 360 / NLON, t('xlon'))
    ylat = I.newarr((cfg.nlat,), (ix(0) - M) * 90 / M if cfg.odd else (2 * ix(0) + 1 - 2 * M) * 90 / (2 * M),
                    t('ylat'))
    if cfg.levels:
        plev = I.newarr((nl,), 1000 * fn('exp', -ix(0) * P['dz'] / P['h']), t('plev'))
    else:
        plev = array(I, 'plev', (nl,), t('plev'))
    fs = [array(I, n, (nl, cfg.nlat, NLON), t(n)) for n in names]
    return [xlon, ylat, plev] + fs


def construct(I, cfg, args=None, **over):
    mod = I.load_module('falwa.oopinterface')
    cls = I.h[mod.nsid].get(cfg.cls)
    if cls is None:
        raise AnchorLost('class %s' % cfg.cls)
    kw = dict(scale_height=P['h'], cp=P['cp'], dry_gas_constant=P['R'], omega=P['omega'], planet_radius=P['a'],
              maxit=MAXIT, tol=P['tol'], rjac=P['rjac'], northern_hemisphere_results_only=cfg.nh,
              data_on_evenly_spaced_pseudoheight_grid=cfg.levels)
    if not cfg.levels:
        kw.update(kmax=cfg.kmax, dz=P['dz'])
    if cfg.npart:
        kw['npart'] = NPART
    if cfg.jb is not None and cfg.cls == 'QGFieldNHN22':
        kw['eq_boundary_index'] = num(cfg.jb)
    kw.update(over)
    kw = {k: v for k, v in kw.items() if v is not DROP}
    return I.construct(cls, args if args is not None else inputs(I, cfg), kw)


DROP = object()


class AnchorLost(Exception):
    pass


def call(I, o, name, *args, **kw):
    """call a method; exits raised under a condition stay in I.top_exits"""
    return I.call(I.getattr_(o, name), list(args), kw)


def attr(I, o, name):
    return I.force(I.getattr_(o, name))


INTERP = ['qgpv', 'interpolated_u', 'interpolated_v', 'interpolated_theta']
REFS = ['qref', 'uref', 'ptref']
BARO = ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
        'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'flux_vector_lambda_baro', 'flux_vector_phi_baro',
        'lwa_baro', 'u_baro', 'ncforce_baro', 'lwa']
LAYER = ['ua1', 'ua2', 'ep1', 'ep2', 'ep3', 'stretch_term', 'lwa']
ONLY = ['lwa_baro', 'u_baro', 'lwa']


def run(I, cfg, args=None, stages=('interp', 'ref', 'baro', 'layer', 'only'), forcing=None, **over):
    """drive a field object through its stages; {stage/name: value} plus the object"""
    out = {}
    o = construct(I, cfg, args, **over)
    out['object'] = o

    def grab(stage, names):
        for n in names:
            try:
                out[stage + '/' + n] = snapshot(I, attr(I, o, n))
            except (PyRaise, pyabs.Dead) as e:
                out[stage + '/' + n] = e
            except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
                out[stage + '/' + n] = Unk(str(e))
    nc = None
    if cfg.ncforce:
        nc = forcing if forcing is not None else array(I, 'ncforce', (cfg.kmax, cfg.nlat, NLON))
    kw = {'ncforce': nc} if nc is not None else {}
    for st in stages:
        try:
            if st == 'interp':
                out['tuple/interp'] = snapshot(I, call(I, o, 'interpolate_fields'))
                grab(st, INTERP + ['static_stability'])
            elif st == 'ref':
                out['tuple/ref'] = snapshot(I, call(I, o, 'compute_reference_states'))
                grab(st, REFS)
            elif st == 'baro':
                out['tuple/baro'] = snapshot(I, call(I, o, 'compute_lwa_and_barotropic_fluxes', **kw))
                grab(st, BARO)
            elif st == 'layer':
                call(I, o, 'compute_layerwise_lwa_fluxes', **kw)
                grab(st, LAYER)
                s = attr(I, o, 'layerwise_flux_terms_storage')
                for n in ('astar1', 'astar2', 'ncforce'):
                    v = I.getattr_(s, n)
                    out['layer/' + n] = snapshot(I, I.np.permute(I, v, (2, 1, 0)) if isinstance(v, Arr) else v)
            elif st == 'only':
                call(I, o, 'compute_lwa_only')
                grab(st, ONLY)
                s = attr(I, o, 'layerwise_flux_terms_storage')
                for n in ('astar1', 'astar2'):
                    v = I.getattr_(s, n)
                    out['only/' + n] = snapshot(I, I.np.permute(I, v, (2, 1, 0)) if isinstance(v, Arr) else v)
            elif st == 'heating':
                q = array(I, 'heating', (NLEV if not cfg.levels else cfg.kmax, cfg.nlat, NLON))
                out['heating/ncforce'] = snapshot(I, call(I, o, 'compute_ncforce_from_heating_rate', q))
        except (PyRaise, pyabs.Dead) as e:
            out['error/' + st] = e
            break
        except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
            out['open/' + st] = e
            break
    for n in ('height', 'ylat', 'ylat_ref_states', 'dphi', 'dlambda', 'xlon', 'prefactor'):
        try:
            out['grid/' + n] = snapshot(I, attr(I, o, n))
        except (PyRaise, pyabs.Dead, pyabs.GiveUp) as e:
            out['grid/' + n] = e
    return out


def snapshot(I, v):
    """freeze array contents"""
    if isinstance(v, Arr):
        if v.sel or v.flat:
            return Unk('selection')
        return C.Side(v.shape, I.read(v))
    if isinstance(v, T.Poly):
        return C.Side((), v)
    if isinstance(v, tuple):
        return tuple(snapshot(I, x) for x in v)
    return v


# ------------------------------------------------------------------ reference
def spec_interp():
    rs, ks = fort.load_kernels(world.SPEC)
    I = pyabs.Interp(world.SPEC, Ctx(), ks, 'hnspec')
    I.routines = rs
    I.kernel_files = {'kernels': sorted(ks)}
    I.top_exits = []
    return I


def spec_run(I, cfg, stages=('interp', 'ref', 'flux', 'only', 'heating'), forcing=None, args=None):
    mod = I.load_module('hnspec.model')
    ns = I.h[mod.nsid]
    if any(e for e in getattr(I, 'import_errors', [])):
        raise AnchorLost('specification does not load: %r' % I.import_errors)
    xlon, ylat, plev, u, v, t = args or inputs(I, cfg)
    k = cfg.kmax
    p = P
    jb = num((5 if cfg.jb is None else cfg.jb) if cfg.scheme == 'NHN22' else 0)
    s = I.call(ns['stage1'], [u, v, t, ylat, plev, cfg.odd, cfg.levels, k, p['dz'], p['h'], p['cp'], p['R'],
                              p['omega'], p['a'], cfg.scheme, jb], {})
    npart = NPART if cfg.npart else 2 * M + 1
    out = {}
    sd = I.h[s.id]
    out['grid/height'] = snapshot(I, sd['z'])
    if cfg.scheme == 'NH18':
        out['interp/static_stability'] = snapshot(I, sd['st_n'])
    elif cfg.nh:
        out['interp/static_stability'] = snapshot(I, sd['st_n'])
    else:
        out['interp/static_stability'] = (snapshot(I, sd['st_s']), snapshot(I, sd['st_n']))
    dzv = sd['dz']
    r = I.call(ns['stage2'], [s, cfg.scheme, cfg.nh, jb, k, npart, MAXIT, p['tol'], p['rjac'], p['h'], p['cp'], p['R'],
                              p['omega'], p['a'], NLON], {})
    nc = None
    if cfg.ncforce:
        nc = forcing if forcing is not None else array(I, 'ncforce', (k, cfg.nlat, NLON))
    if 'flux' in stages:
        o = I.call(ns['results'], [s, r, ylat, cfg.odd, cfg.nh, nc, jb, k, p['h'], p['cp'], p['R'], p['omega'],
                                   p['a'], NLON], {})
        for n, v in I.h[o.id].items():
            out[n] = snapshot(I, I.force(v))
    if 'only' in stages:
        o = I.call(ns['lwa_only'], [s, r, ylat, cfg.odd, cfg.nh, jb, k, p['h'], p['cp'], p['R'], p['omega'], p['a']],
                   {})
        for n, v in I.h[o.id].items():
            out[n] = snapshot(I, I.force(v))
    if 'heating' in stages:
        q = array(I, 'heating', (NLEV if not cfg.levels else k, cfg.nlat, NLON))
        out['heating/ncforce'] = snapshot(I, I.call(ns['heating_forcing'], [
            q, s, ylat, cfg.odd, k, p['h'], p['omega']], {}))
    return out


def meanings(I, J, opaque=evlib.OPAQUE, invariant=()):
    """readings of kernel applications for the package and for the reference; both consider the same arguments"""
    a = evlib.Meaning(I.routines, I.kernels, Ctx(), opaque, invariant)
    b = evlib.Meaning(J.routines, J.kernels, Ctx(), opaque, invariant)
    for n in set(I.kernels) & set(J.kernels):
        ra, rb = a.read_args(n), b.read_args(n)
        r = (ra & rb) | {x for x in ra if x == 'is_nhem'}
        a.reads[n] = b.reads[n] = r
    return a, b
