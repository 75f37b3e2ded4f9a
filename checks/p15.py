"""Covariance of all results under a change of the units of length, time and temperature."""
import random
from sa import world, oop, compare as C, evlib, evalt, terms as T, pyabs, fort
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk
from . import formulas as F, relate as R, ops

# factors of length, time and temperature: powers of two, so that no rounding error arises
UNITS = [(2.0 ** 3, 2.0 ** -7, 2.0 ** 17), (2.0 ** -9, 2.0 ** 4, 2.0 ** -2), (2.0 ** 21, 2.0 ** 5, 2.0 ** 3)]
L, TI, TH = (1, 0, 0), (0, 1, 0), (0, 0, 1)


def dim(length=0, time=0, temp=0):
    return (length, time, temp)


NONE, SPEED, RATE, STAB, FLUX, TEND = dim(), dim(1, -1), dim(0, -1), dim(1 - 2, 0, 1), dim(2, -2), dim(1, -2)
CONST = {'dz': L, 'h': L, 'a': L, 'omega': RATE, 'cp': dim(2, -2, -1), 'R': dim(2, -2, -1), 'tol': NONE, 'rjac': NONE}
VALUES = {'dz': 1100.0, 'h': 6800.0, 'a': 5.1e6, 'omega': 9.3e-5, 'cp': 950.0, 'R': 310.0, 'tol': 1e9, 'rjac': 0.95}   # a tolerance that ends the iteration
INPUT = {'u': SPEED, 'v': SPEED, 't': TH, 'plev': NONE, 'ncforce': dim(0, -2), 'heating': dim(0, -1, 1)}
OBS = {
    'qgpv': RATE, 'interpolated_u': SPEED, 'interpolated_v': SPEED, 'interpolated_theta': TH, 'static_stability': STAB,
    'qref': RATE, 'uref': SPEED, 'ptref': TH, 'adv_flux_f1': FLUX, 'adv_flux_f2': FLUX, 'adv_flux_f3': FLUX,
    'convergence_zonal_advective_flux': TEND, 'divergence_eddy_momentum_flux': TEND, 'meridional_heat_flux': TEND,
    'flux_vector_lambda_baro': FLUX, 'flux_vector_phi_baro': FLUX, 'lwa_baro': SPEED, 'u_baro': SPEED,
    'ncforce_baro': TEND, 'lwa': SPEED, 'ua1': FLUX, 'ua2': FLUX, 'ep1': FLUX, 'ep2': FLUX, 'ep3': FLUX,
    'stretch_term': TEND, 'astar1': SPEED, 'astar2': SPEED, 'layer/ncforce': TEND, 'heating/ncforce': dim(0, -2),
    'height': L, 'ylat': NONE, 'ylat_ref_states': NONE, 'dphi': NONE, 'dlambda': NONE, 'xlon': NONE, 'prefactor': L,
}


def factor(d, unit):
    f = 1.0
    for k, u in zip(d, unit):
        f *= u ** k
    return f


def scaled(f, s):
    return lambda ev, idx: s * f(ev, idx)


CFG = {
    'a': dict(ncforce=True), 'e': dict(cls='QGFieldNHN22', ncforce=True), 'h': dict(levels=True),
    'i': dict(cls='QGFieldNHN22', levels=True, nh=True), 'd': dict(odd=False, nh=True),
}
MORE = {'c': dict(odd=False, ncforce=True), 'g': dict(cls='QGFieldNHN22', odd=False), 'n': dict(nh=True, levels=True, npart=True)}


def of(n):
    st, q = n.split('/')
    q = q.split('.')[0]
    return OBS.get(st + '/' + q, OBS.get(q))


def field_job(key, seed, tier):
    cfg = oop.Config(**(CFG.get(key) or MORE[key]))
    I = world.interp()
    try:
        r = R.flat(oop.run(I, cfg, stages=('interp', 'ref', 'baro', 'layer', 'heating')))
        r2 = R.flat(oop.run(I, cfg, stages=('interp', 'ref', 'only')))
        r.update({k: v for k, v in r2.items() if k.startswith(('only/', 'error/only', 'open/only'))})
    except PyRaise as e:
        return [rec('%s/construct' % cfg.label(), BAD, '', 'construction fails: %s' % R._exc(e))]
    out = []
    for ui, unit in enumerate(UNITS[:1] if tier == 'quick' else UNITS):
        p2 = {n: v * factor(CONST[n], unit) for n, v in VALUES.items()}
        f2 = {n: scaled(C.FIELDS[n], factor(d, unit)) for n, d in INPUT.items()}
        f1 = {n: C.FIELDS[n] for n in INPUT}
        lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(seed + ui,), levels=(3,), params=(dict(VALUES), p2),
                       fields=(f1, f2))
        for n in sorted(r):
            st = n.split('/')[0]
            if st in ('object', 'tuple', 'error', 'open'):
                if st in ('error', 'open') and not ui:
                    out.append(rec('%s:%s' % (cfg.label(), n), BAD if st == 'error' else OPEN, '', str(r[n])))
                continue
            w, k, v = R.where(I, cfg, n.split('.')[0]), '%s:%s' % (cfg.label(), n), r[n]
            if ui:
                k += ' (units %d)' % ui
            d = of(n)
            if v is None or not isinstance(v, C.Side):
                if st == 'grid' and isinstance(v, (int, float)):
                    continue
                out.append(R.unusable(k, w, v, r, st))
                continue
            if d is None:
                out.append(rec(k, OPEN, w, 'no dimension recorded'))
                continue
            s, t, np_ = lad.compare(v, v, scale=factor(d, unit), limit=120 if tier == 'quick' else 400, tol=1e-9)
            out.append(rec(k + ' follows the units', s, w, t, np_))
    out.append(R.meta_rec(I))
    return out


# ------------------------------------------------------------------ which constants a result uses
def uses_job(key, seed, tier):
    """every constant the reference of an observable involves influences the observable (kernels as functionals)"""
    cfg = F.CONFIGS[key]
    I, J = world.interp(), oop.spec_interp()
    try:
        r = R.flat(oop.run(I, cfg, stages=('interp', 'ref', 'baro', 'layer', 'heating')))
    except PyRaise:
        return []                                  # reported by the comparison of units
    s = R.flat(oop.spec_run(J, cfg, stages=('flux', 'heating')))
    ms = oop.meanings(I, J, 'all')
    sizes = R.sizes_for(cfg)
    cache = {}

    def ev(side, const):
        if (side, const) not in cache:
            p = dict(VALUES)
            if const:
                p[const] *= 1.21
            cache[side, const] = C.evaluator(ms[side], seed, sizes, p, dict(C.FIELDS))
        return cache[side, const]

    def deps(side, v):
        got, n = set(), 0
        try:
            sh = [ev(side, None).int(q, {}) for q in v.shape]
            for idx in C.points(sh, 24, random.Random(seed)):
                b = {T._IXS[i]: y for i, y in enumerate(idx)}
                v0 = C._val(ev(side, None), v.elem, b)
                for c in CONST:
                    if c not in got:
                        n += 1
                        if evalt.differ(v0, C._val(ev(side, c), v.elem, b), 1e-9):
                            got.add(c)
        except (evalt.Undecided, RecursionError, OverflowError) as e:
            return None, n
        return got, n
    out = []
    for n in sorted(s):
        x, y = r.get(n), s[n]
        if not isinstance(x, C.Side) or not isinstance(y, C.Side):
            continue
        w = R.where(I, cfg, n.split('.')[0])
        (dx, n1), (dy, n2) = deps(0, x), deps(1, y)
        k = '%s:%s uses the constants of its definition' % (cfg.label(), n)
        if dx is None or dy is None:
            out.append(rec(k, OPEN, w, 'not evaluated'))
            continue
        miss = sorted(dy - dx)
        out.append(rec(k, VBAD if miss else AGREE, w, 'does not depend on %s' % ', '.join(miss) if miss else '', n1 + n2))
    out.append(R.meta_rec(I))
    return out


# ------------------------------------------------------------------ which constants a kernel uses
def kernel_job(name, seed, tier):
    """every constant the reference kernel uses influences the kernel of the package"""
    rs, ks, _ = world.kernels()
    rs2, ks2 = fort.load_kernels(world.SPEC)
    if name not in ks or set(ks[name].r.args) != set(ks2[name].r.args):
        return []                              # decided by the field objects
    r = ks[name].r
    w = '%s:%s %s' % (F.rel(r.path), getattr(r, 'line', '?'), name)
    ints = {a: (T.lift(b) if not isinstance(b, T.Cond) else b) for a, b in F.KERNELS[name][0].items()}
    try:
        outs = [k.analyse(q, ints, F.Ctx()).outs for k, q in ((ks[name], rs), (ks2[name], rs2))]
    except (fort.Unsupported, T.TooBig, T.DivZero) as e:
        return [rec('constants of kernel ' + name, OPEN, w, str(e))]
    sizes = dict(F.KSIZES[0])
    if name == 'compute_reference_states':
        sizes.update(m=sizes['m'] - 6, maxits=2, nlon=3)
    base = F._kp(name, sizes)
    if 'eps' in r.args:
        base['D:%s:%d' % (name, list(r.args).index('eps'))] = 1e9
    consts = [(a, 'D:%s:%d' % (name, i)) for i, a in enumerate(r.args) if a.lower() in NAMES]
    out = []

    def values(os, par):
        mean = evlib.Meaning(rs if os is outs[0] else rs2, {}, C.Ctx(), set())
        ev = C.evaluator(mean, seed, sizes, par, {})
        v = {}
        for o, x in os.items():
            shape = [ev.int(q, {}) for q in x.shape] if isinstance(x, fort.ArrVal) else []
            e = x.elem if isinstance(x, fort.ArrVal) else x
            for idx in C.points(shape, 24 if name in F.HIST else 120, random.Random(seed)):
                try:
                    v[o, idx] = C._val(ev, e, {T._IXS[i]: y for i, y in enumerate(idx)})
                except (evalt.Undecided, RecursionError, OverflowError):
                    pass
        return v
    ref0 = [values(o, dict(base)) for o in outs]
    val = {}
    for a, s_ in consts:
        # another value of this constant alone
        e = C.evaluator(evlib.Meaning(rs, {}, C.Ctx(), set()), seed, sizes, dict(base), {})
        v0 = e.poly(T.sym(s_), {})
        new = [values(o, dict(base, **{s_: v0 * 1.37})) for o in outs]
        dep = []
        for x, y in zip(ref0, new):
            dep.append({o for (o, i) in x if (o, i) in y and evalt.differ(x[o, i], y[o, i], 1e-9)})
        n = len(ref0[0]) + len(ref0[1])
        for o in sorted(dep[1]):
            ok = o in dep[0] or o not in outs[0]
            out.append(rec('kernel %s.%s uses %s' % (name, o, a), AGREE if ok else BAD, w,
                           '' if ok else 'the result does not depend on the argument', n))
    return out


NAMES = {'a', 'om', 'omega', 'h', 'r', 'rr', 'cp', 'dz', 'dlambda', 'dphi', 'rkappa', 'hh', 'aa', 'rlat'}

# ------------------------------------------------------------------ stand-alone functions
VORT2 = {'vort': RATE, 'area': dim(2), 'dmu': L, 'vgrad': dim(-1, -1), 'force': dim(0, -2), 'ylat': NONE, 'q': RATE,
         'a': L, 'u': SPEED, 'v': SPEED, 'clat': NONE, 'dlam': NONE, 'dphi': NONE, 'tol': NONE, 'f': SPEED,
         'omega': RATE, 'h': L, 'height': L, 'vort3': RATE, 'theta': TH, 't0n': TH, 't0s': TH, 'statn': STAB,
         'stats': STAB, 'theta2': TH, 'area1': dim(2), 'dz': L, 'decay': NONE, 'g': TH, 'mult': NONE, 'va': SPEED,
         'vb': TH}
RESULT = {
    'static_stability': {'result 0': TH, 'result 1': TH, 'result 2': STAB, 'result 3': STAB},
    'compute_qgpv_givenvort': {'result 0': RATE, 'result 1': NONE},
    'zonal_convergence': RATE, 'meridional_divergence': RATE, 'curl_2d': RATE, 'z_derivative_of_prod': NONE,
    'eqvlat_fawa': {'result 0': RATE, 'result 1': SPEED}, 'eqvlat_vgrad': {'result 0': RATE, 'result 1': VORT2['vgrad']},
    'lwa': {'result 0': SPEED, 'result 1': TEND}, 'barotropic_eqlat_lwa': {'result 0': RATE, 'result 1': SPEED},
    'barotropic_input_qref_to_compute_lwa': SPEED, 'eqvlat_hemispheric': RATE,
    'eqvlat_bracket_hemispheric': {'result 0': RATE, 'result 1': VORT2['vgrad']},
    'qgpv_eqlat_lwa': {'result 0': RATE, 'result 1': SPEED},
    'qgpv_eqlat_lwa_ncforce': {'result 0': RATE, 'result 1': SPEED, 'result 2': TEND},
    'qgpv_eqlat_lwa_options': {'qref': RATE, 'lwa_result': SPEED, 'brac_result': VORT2['vgrad'], 'capsigma': TEND},
    'theta_lwa': {'result 0': RATE, 'result 1': SPEED}, 'qgpv_input_qref_to_compute_lwa': SPEED,
    'BarotropicField': {'equivalent_latitudes': RATE, 'lwa': SPEED}, 'calculate_covariance': dim(1, -1, 1),
}


def op_job(prop, name, parity, seed, tier):
    loc, f, pars, sizes, params, skip = ops.CASES[prop][name]
    if 'default' in name and 'resolution' not in name or name == 'compute_qgpv_givenvort':
        return []                              # the constants are not given
    I = world.interp()
    label = '%s (%s latitudes)' % (name, 'odd' if parity else 'even')
    mod, fn = loc.rsplit('.', 1)
    w = F.funcloc(I, I.h[I.load_module('falwa.' + mod).nsid].get(fn))
    if w == '?':
        w = 'src/falwa/%s.py %s' % (mod, fn)
    dims = RESULT.get(fn)
    given = dict(VORT2, dmu=NONE) if 'given geometry' in name else VORT2
    try:
        r = [(k, oop.snapshot(I, v)) for k, v in ops.items(I, f(ops.World(I, parity), None))]
    except (PyRaise, pyabs.Dead) as e:
        return [rec(label, BAD, w, 'raises %s' % F._exc(e)), ops.meta(I)]
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return [rec(label, OPEN, w, str(e)), ops.meta(I)]
    out = []
    mean = evlib.Meaning(I.routines, I.kernels, C.Ctx(), set())
    for k, x in r:
        key = '%s: %s follows the units' % (label, k)
        if not isinstance(x, C.Side):
            continue
        d = dims.get(k) if isinstance(dims, dict) else dims
        if d is None:
            out.append(rec(key, OPEN, w, 'no dimension recorded'))
            continue
        st, t, n = AGREE, '', 0
        for ui, unit in enumerate(UNITS[:1] if tier == 'quick' else UNITS):
            evs = []
            for u in (None, unit):
                fields, par = {}, {}
                for q, g in ops.FIELDS.items():
                    fields[q] = g if u is None else scaled(g, factor(given.get(q, INPUT.get(q, NONE)), u))
                for q, v in dict(ops.PARAMS, **dict(params, a=5.1e6, omega=9.3e-5, h=6800.0, dz=1100.0)).items():
                    par[q] = v if u is None else v * factor(VORT2[q], u)
                for q in ('q', 't0n', 't0s', 'vort3', 'f', 'g', 'mult', 'va', 'vb'):
                    if q not in fields:
                        g = (lambda ev, idx, q=q: 4 * evalt.hrand(ev.seed, 'in', q, idx) - 2)
                        fields[q] = g if u is None else scaled(g, factor(VORT2[q], u))
                if u is not None:          # the area reads the radius
                    fields['area'] = (lambda ev, idx, u=u: ops._area(ev, idx))
                e = C.evaluator(mean, seed + ui, dict(ops.SIZES, **sizes), par, fields)
                e.parity = parity
                evs.append(e)
            st, t, c = compare(evs[0], evs[1], x, factor(d, unit), 200 if tier == 'quick' else 600, seed, skip)
            n += c
            if st != AGREE:
                break
        out.append(rec(key, st, w, t, n))
    out.append(ops.meta(I))
    return out


def compare(ea, eb, x, scale, limit, seed, skip):
    n = 0
    try:
        sh = [ea.int(s, {}) for s in x.shape]
        for idx in C.points(sh, limit, random.Random(seed)):
            if skip is not None and skip(idx, sh):
                continue
            b = {T._IXS[i]: y for i, y in enumerate(idx)}
            va, vb = C._val(ea, x.elem, b) * scale, C._val(eb, x.elem, b)
            n += 1
            if (va == va) != (vb == vb):
                return VBAD, 'at %s the value is %.9g, expected %.9g' % (idx, vb, va), n
            if evalt.differ(va, vb, 1e-9):
                if C.ill_conditioned(ea, eb, x.elem, x.elem, b, b, va / scale, vb, abs(va - vb)):
                    continue
                return VBAD, 'at %s the value is %.9g, expected %.9g' % (idx, vb, va), n
    except (evalt.Undecided, RecursionError, OverflowError) as e:
        return OPEN, str(e), n
    return (AGREE if n else OPEN), '', n


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term of each result is homogeneous: inputs and constants expressed in other units of length, time '
                'and temperature give the same result in those units; every constant the definition of a kernel '
                'result involves influences it')
    rep.explanation = ('The stages and the stand-alone functions are interpreted on symbolic inputs and constants, all '
                       'kernels unfolded; the terms are evaluated in two systems of units that differ by powers of '
                       'two, so that agreement is exact.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + [
        'the smoothing spline of the static stability is homogeneous (its smoothing parameter is 1 K)',
        'pressure is in hPa with the reference pressure 1000 hPa']
    rep.minimum = 250
    jobs = [(field_job, (k, rep.seed, rep.tier)) for k in (CFG if rep.tier == 'quick' else dict(CFG, **MORE))]
    jobs += [(uses_job, (k, rep.seed, rep.tier)) for k in 'aehi']
    jobs += [(kernel_job, (n, rep.seed, rep.tier)) for n in F.KERNELS]
    for p in ('P20', 'P21'):
        jobs += [(op_job, (p, n, x, rep.seed, rep.tier)) for n, c in ops.CASES[p].items() for x in c[2]]
    rep.run(jobs, limit=800)
    rep.recs = F.meta(rep, rep.recs)
