"""Reference formulas of the quasi-geometric local wave activity diagnostics.

This module is never executed.  It is read by the abstract interpreter, which
turns it into terms to which the terms of the package are compared.  Arrays are
ordered (level, latitude, longitude); the analysis grid has an odd number of
latitudes with the equator in the middle.
"""
import math
import numpy as np
from scipy.interpolate import interp1d, UnivariateSpline
from hnspec.kernels import compute_qgpv, compute_qgpv_direct_inv, compute_reference_states, \
    compute_qref_and_fawa_first, matrix_b4_inversion, matrix_after_inversion, upward_sweep, \
    compute_flux_dirinv_nshem, compute_lwa_only_nhn22


def f_order(x):
    """(level, lat, lon) -> (lon, lat, level); (level, lat) -> (lat, level)"""
    return np.swapaxes(x, 0, x.ndim - 1)


c_order = f_order


def analysis_latitudes(ylat, has_equator):
    if has_equator:
        return ylat
    return np.linspace(-90., 90., ylat.size + 1)


def to_analysis(x, ylat, lat, has_equator):
    if has_equator:
        return x
    return interp1d(ylat, x, axis=1, fill_value='extrapolate')(lat)


def to_heights(x, z_in, z):
    return interp1d(z_in, x, axis=0, kind='linear', bounds_error=False, fill_value='extrapolate')(z)


def domain_average(theta, clat, rows):
    """area weighted average over the given latitude rows of a hemisphere, per level"""
    weight = clat[rows]
    zonal = np.mean(theta[:, rows, :], axis=2)
    return (zonal * weight[np.newaxis, :]).sum(axis=1) / weight.sum()


def stage1(u_in, v_in, t_in, ylat, plev, has_equator, same_levels, kmax, dz, h, cp, rgas, omega, a, scheme, jb):
    """interpolation to the analysis grid, potential temperature, static stability and QGPV; the domain of a
    hemisphere starts jb rows away from the equator"""
    lat = analysis_latitudes(ylat, has_equator)
    nlat = lat.size
    eq = (nlat + 1) // 2                       # number of rows of a hemisphere, equator included
    z_in = -h * np.log(plev / 1000.)
    if same_levels:
        z = z_in
        dz = z_in[1] - z_in[0]
    else:
        z = np.arange(kmax) * dz
    clat = np.abs(np.cos(lat * np.pi / 180.))
    theta_in = t_in * np.exp(z_in[:, np.newaxis, np.newaxis] * rgas / (cp * h))
    u0 = to_analysis(u_in, ylat, lat, has_equator)
    v0 = to_analysis(v_in, ylat, lat, has_equator)
    th0 = to_analysis(theta_in, ylat, lat, has_equator)
    t_s = domain_average(th0, clat, slice(0, eq - jb))
    t_n = domain_average(th0, clat, slice(nlat - eq + jb, nlat))
    fit_s = UnivariateSpline(x=z_in, y=t_s)
    fit_n = UnivariateSpline(x=z_in, y=t_n)
    t0_s, t0_n = fit_s(z), fit_n(z)
    st_s, st_n = fit_s.derivative()(z), fit_n.derivative()(z)
    if same_levels:
        u, v, th = u0, v0, th0
    else:
        u, v, th = to_heights(u0, z_in, z), to_heights(v0, z_in, z), to_heights(th0, z_in, z)
    if scheme == 'NH18':
        t0_n = t0_s = (t0_s + t0_n) / 2
        st_n = st_s = (st_s + st_n) / 2
        q, vort = compute_qgpv(f_order(u), f_order(v), f_order(th), z, t0_n, st_n, a, omega, dz, h, rgas, cp)
    else:
        q, vort = compute_qgpv_direct_inv(eq, f_order(u), f_order(v), f_order(th), z, t0_s, t0_n, st_s, st_n, a,
                                          omega, dz, h, rgas, cp)
    return {'lat': lat, 'nlat': nlat, 'eq': eq, 'z_in': z_in, 'z': z, 'dz': dz, 'clat': clat, 'u': u, 'v': v,
            'theta': th, 'q': c_order(q), 'vort': c_order(vort), 't0_s': t0_s, 't0_n': t0_n, 'st_s': st_s,
            'st_n': st_n}


def mirror(x):
    """reflect the latitudes of (level, lat, lon)"""
    return x[:, ::-1, :]


def ref_nh18(q, u, th, stat, eq, npart, maxit, a, omega, dz, tol, h, dphi, dlambda, rgas, cp, rjac):
    return compute_reference_states(
        pv=f_order(q), uu=f_order(u), pt=f_order(th), stat=stat, jd=eq, npart=npart, maxits=maxit, a=a, om=omega,
        dz=dz, eps=tol, h=h, dphi=dphi, dlambda=dlambda, r=rgas, cp=cp, rjac=rjac)


def ref_nhn22(q, u, vort, th, t0, stat, eq, nlat, jb, kmax, a, omega, dz, h, dphi, dlambda, rgas, cp):
    jd = eq - jb
    qref, ubar, tbar, fawa, ckref, tjk, sjk = compute_qref_and_fawa_first(
        pv=f_order(q), uu=f_order(u), vort=f_order(vort), pt=f_order(th), tn0=t0, nd=eq, nnd=nlat, jb=jb, jd=jd, a=a,
        omega=omega, dz=dz, h=h, dphi=dphi, dlambda=dlambda, rr=rgas, cp=cp)
    for k in range(kmax - 1, 1, -1):
        qjj, djj, cjj, rj = matrix_b4_inversion(
            k=k, jmax=nlat, jb=jb, z=np.arange(kmax) * dz, statn=stat, qref=qref, ckref=ckref, sjk=sjk, a=a, om=omega,
            dz=dz, h=h, rr=rgas, cp=cp)
        matrix_after_inversion(k=k, qjj=np.linalg.inv(qjj), djj=djj, cjj=cjj, rj=rj, sjk=sjk, tjk=tjk)
    tref, qdummy, uref = upward_sweep(
        jmax=nlat, jb=jb, sjk=sjk, tjk=tjk, ckref=ckref, tb=t0, qref_over_cor=qref, a=a, om=omega, dz=dz, h=h,
        rr=rgas, cp=cp)
    return qref / (2. * omega), uref, tref


def pad(x, eq, jb):
    """rows equatorward of the boundary carry no reference wind / temperature"""
    out = np.zeros((eq, x.shape[1]))
    out[jb:, :] = x
    return out


def stage2(s, scheme, nh_only, jb, kmax, npart, maxit, tol, rjac, h, cp, rgas, omega, a, nlon):
    """hemispheric reference states: (lat, level), from the equator to the pole"""
    eq, nlat, dz = s['eq'], s['nlat'], s['dz']
    dphi = np.pi / (nlat - 1)
    dlambda = 2 * np.pi / nlon
    if scheme == 'NH18':
        qn, un, tn, itn = ref_nh18(s['q'], s['u'], s['theta'], s['st_n'], eq, npart, maxit, a, omega, dz, tol, h,
                                   dphi, dlambda, rgas, cp, rjac)
        r = {'qn': qn, 'un': un, 'tn': tn}
        if not nh_only:
            qs, us, ts, its = ref_nh18(-mirror(s['q']), mirror(s['u']), mirror(s['theta']), s['st_s'], eq, npart,
                                       maxit, a, omega, dz, tol, h, dphi, dlambda, rgas, cp, rjac)
            r['qs'] = qs
            r['us'] = us
            r['ts'] = ts
    else:
        qn, un, tn = ref_nhn22(s['q'], s['u'], s['vort'], s['theta'], s['t0_n'], s['st_n'], eq, nlat, jb, kmax, a,
                               omega, dz, h, dphi, dlambda, rgas, cp)
        r = {'qn': qn, 'un': pad(un, eq, jb), 'tn': pad(tn, eq, jb)}
        if not nh_only:
            qs, us, ts = ref_nhn22(-mirror(s['q']), mirror(s['u']), -mirror(s['vort']), mirror(s['theta']),
                                   s['t0_s'], s['st_s'], eq, nlat, jb, kmax, a, omega, dz, h, dphi, dlambda, rgas, cp)
            r['qs'] = qs
            r['us'] = pad(us, eq, jb)
            r['ts'] = pad(ts, eq, jb)
    planetary = 2 * omega * np.sin(s['lat'] * np.pi / 180.)
    # northern rows carry +f, southern rows -f: the southern state is the mirror image
    r['pv_n'] = r['qn'] * planetary[eq - 1:, np.newaxis]
    if not nh_only:
        r['pv_s'] = -r['qs'] * planetary[eq - 1::-1, np.newaxis]
    return r


def globe(south, north, eq):
    """join hemispheric fields (lat from the equator to the pole first): south pole ... north pole;
    the equator row belongs to the southern half"""
    return np.concatenate([south[::-1], north[1:]], axis=0)


def whole(r, key_s, key_n, sign, eq, nh_only):
    if nh_only:
        return c_order(r[key_n])
    return c_order(globe(sign * r[key_s], r[key_n], eq))


def ref_global(s, r, nh_only):
    """qref, uref, ptref on (level, lat)"""
    eq = s['eq']
    planetary = 2 * s['omega'] * np.sin(s['lat'] * np.pi / 180.)
    if nh_only:
        return c_order(r['qn'] * planetary[eq - 1:, np.newaxis]), c_order(r['un']), c_order(r['tn'])
    # stored states keep the southern rows with the sign of the mirrored hemisphere
    return (c_order(np.concatenate([r['qs'][::-1], r['qn'][1:]], axis=0) * planetary[:, np.newaxis]),
            c_order(globe(r['us'], r['un'], eq)), c_order(globe(r['ts'], r['tn'], eq)))


def hemi_flux(q, u, v, th, nc, t0, qref, uref, tref, eq, jb, kmax, prefac, h, cp, rgas, omega, a, dz):
    """one hemisphere, oriented as a northern one"""
    names = ['astar1', 'astar2', 'nc', 'ua1', 'ua2', 'ep1', 'ep2', 'ep3', 'ep4']
    out = compute_flux_dirinv_nshem(
        pv=f_order(q), uu=f_order(u), vv=f_order(v), pt=f_order(th), ncforce=f_order(nc), tn0=t0, qref=qref,
        uref=uref[jb:], tref=tref[jb:], jb=jb, is_nhem=True, a=a, om=omega, dz=dz, h=h, rr=rgas, cp=cp, prefac=prefac)
    d = {}
    for i in range(9):
        d[names[i]] = out[i]
    return d


def column_mean(x, z, dz, h):
    """density weighted vertical average over the levels between the lowest and the highest;
    level axis last"""
    n = z.size
    w = np.exp(-z[1:n - 1] / h)
    norm = 0.
    for k in range(1, n - 1):
        norm = norm + math.exp(-k * dz / h)
    return np.sum(x[..., 1:n - 1] * w, axis=x.ndim - 1) / norm


def norm_factor(z, dz, h):
    norm = 0.
    for k in range(1, z.size - 1):
        norm = norm + math.exp(-k * dz / h) * dz
    return norm


def both_fluxes(s, r, nc, nh_only, jb, kmax, h, cp, rgas, omega, a):
    eq, dz = s['eq'], s['dz']
    prefac = norm_factor(s['z'], dz, h)
    pv_n, un, tn = r['pv_n'], r['un'], r['tn']
    if not nh_only:
        # one equator row serves both hemispheres: the southern one
        pv_n = np.concatenate([-r['pv_s'][:1], pv_n[1:]], axis=0)
        un = np.concatenate([r['us'][:1], un[1:]], axis=0)
        tn = np.concatenate([r['ts'][:1], tn[1:]], axis=0)
    n = hemi_flux(s['q'], s['u'], s['v'], s['theta'], nc, s['t0_n'], pv_n, un, tn, eq, jb, kmax,
                  prefac, h, cp, rgas, omega, a, dz)
    if nh_only:
        return n, None
    m = hemi_flux(-mirror(s['q']), mirror(s['u']), -mirror(s['v']), mirror(s['theta']), mirror(nc), s['t0_s'],
                  r['pv_s'], r['us'], r['ts'], eq, jb, kmax, prefac, h, cp, rgas, omega, a, dz)
    # back to the southern hemisphere: north-south derivatives and momentum fluxes change sign and the
    # poleward and equatorward neighbours exchange roles; diabatic forcing is odd
    t = dict(m)
    t['ep2'] = -m['ep3']
    t['ep3'] = -m['ep2']
    t['nc'] = -m['nc']
    return n, t


def join3(t, n, key, eq):
    """(lon, lat, ...) hemispheric results -> south pole to north pole"""
    if t is None:
        return n[key]
    return np.concatenate([t[key][:, ::-1], n[key][:, 1:]], axis=1)


def back(x, s, ylat, has_equator, nh_only, axis, full):
    """analysis grid -> latitudes of the input"""
    if has_equator:
        return x
    lat, eq = s['lat'], s['eq']
    if nh_only and not full:
        return interp1d(lat[eq - 1:], x, axis=axis, bounds_error=False,
                        fill_value='extrapolate')(ylat[ylat.size // 2:])
    return interp1d(lat, x, axis=axis, bounds_error=False, fill_value='extrapolate')(ylat)


def density_derivative(g, f, z, dz, h, st_n, st_s, eq, kmax):
    """f exp(z/h) d/dz [exp(-z/h) g / static stability]: centred differences, one-sided at the lowest and highest
    level; each hemisphere uses its own static stability, the equator row their mean"""
    nlat = g.shape[1]
    stat = np.zeros((kmax, nlat))
    stat[:, :eq - 1] = st_s[:, np.newaxis]
    stat[:, eq:] = st_n[:, np.newaxis]
    stat[:, eq - 1] = (st_n + st_s) / 2
    p = np.exp(-z / h)[:, np.newaxis, np.newaxis] * g / stat[:, :, np.newaxis]
    d = np.zeros(g.shape)
    d[1:kmax - 1] = (p[2:] - p[:kmax - 2]) / (2. * dz)
    d[0] = (p[1] - p[0]) / dz
    d[kmax - 1] = (p[kmax - 1] - p[kmax - 2]) / dz
    return d * (f[np.newaxis, :] * np.exp(z / h)[:, np.newaxis])[:, :, np.newaxis]


def results(s, r, ylat, has_equator, nh_only, nc_in, jb, kmax, h, cp, rgas, omega, a, nlon):
    """every quantity the field object reports, keyed stage/name"""
    eq, nlat, z, dz, lat = s['eq'], s['nlat'], s['z'], s['dz'], s['lat']
    dphi = np.pi / (nlat - 1)
    dlambda = 2 * np.pi / nlon
    rows = slice(eq - 1, nlat) if nh_only else slice(0, nlat)
    clat = s['clat'][rows]
    o = {}
    for name, key in [('qgpv', 'q'), ('interpolated_u', 'u'), ('interpolated_v', 'v'), ('interpolated_theta', 'theta')]:
        o['interp/' + name] = back(s[key], s, ylat, has_equator, nh_only, 1, True)
    s['omega'] = omega
    qref, uref, ptref = ref_global(s, r, nh_only)
    o['ref/qref'] = back(qref, s, ylat, has_equator, nh_only, 1, False)
    o['ref/uref'] = back(uref, s, ylat, has_equator, nh_only, 1, False)
    o['ref/ptref'] = back(ptref, s, ylat, has_equator, nh_only, 1, False)
    if nc_in is None:
        nc = np.zeros((kmax, nlat, nlon))
    else:
        nc = to_analysis(nc_in, ylat, lat, has_equator)
    n, t = both_fluxes(s, r, nc, nh_only, jb, kmax, h, cp, rgas, omega, a)
    baro = {}
    lay = {}
    for key in ['astar1', 'astar2', 'nc', 'ua1', 'ua2', 'ep1', 'ep2', 'ep3']:
        lay[key] = join3(t, n, key, eq)
        baro[key] = column_mean(lay[key], z, dz, h).T
    heat = join3(t, n, 'ep4', eq).T
    zonal = baro['ua1'] + baro['ua2'] + baro['ep1']
    b = {}
    b['adv_flux_f1'] = baro['ua1']
    b['adv_flux_f2'] = baro['ua2']
    b['adv_flux_f3'] = baro['ep1']
    b['meridional_heat_flux'] = heat
    b['ncforce_baro'] = baro['nc']
    b['flux_vector_lambda_baro'] = zonal
    b['lwa_baro'] = baro['astar1'] + baro['astar2']
    b['u_baro'] = column_mean(f_order(s['u'][:, rows, :]), z, dz, h).T
    b['divergence_eddy_momentum_flux'] = (baro['ep2'] - baro['ep3']) / (2 * a * dphi * clat[:, np.newaxis])
    east = np.roll(zonal, -1, axis=1)
    west = np.roll(zonal, 1, axis=1)
    b['convergence_zonal_advective_flux'] = np.where(
        clat[:, np.newaxis] > 1.e-5, -(east - west) / (2 * a * clat[:, np.newaxis] * dlambda), 0.)
    phi = -(s['u'][:, rows, :] - uref[:, :, np.newaxis]) * s['v'][:, rows, :] * clat[np.newaxis, :, np.newaxis]
    b['flux_vector_phi_baro'] = column_mean(f_order(phi), z, dz, h).T
    for name in b:
        o['baro/' + name] = back(b[name], s, ylat, has_equator, nh_only, 0, False)
    lwa3 = lay['astar1'] + lay['astar2']
    o['baro/lwa'] = back(c_order(np.abs(lwa3)), s, ylat, has_equator, nh_only, 1, False)
    o['layer/lwa'] = back(c_order(lwa3), s, ylat, has_equator, nh_only, 1, False)
    for key in ['ua1', 'ua2', 'ep1', 'ep2', 'ep3']:
        o['layer/' + key] = back(c_order(lay[key]), s, ylat, has_equator, nh_only, 1, False)
    o['layer/astar1'] = c_order(lay['astar1'])
    o['layer/astar2'] = c_order(lay['astar2'])
    o['layer/ncforce'] = c_order(lay['nc'])
    pt_full = np.zeros((kmax, nlat))
    pt_full[:, rows] = ptref
    flux = s['v'] * (s['theta'] - pt_full[:, :, np.newaxis]) * s['clat'][np.newaxis, :, np.newaxis]
    f = 2 * omega * np.sin(lat * np.pi / 180.)
    st = -density_derivative(flux, f, z, dz, h, s['st_n'], s['st_s'], eq, kmax)
    o['layer/stretch_term'] = back(st[:, rows, :], s, ylat, has_equator, nh_only, 1, False)
    return o


def lwa_only(s, r, ylat, has_equator, nh_only, jb, kmax, h, cp, rgas, omega, a):
    eq, dz, z = s['eq'], s['dz'], s['z']
    prefac = norm_factor(z, dz, h)
    bn, un, an1, an2 = compute_lwa_only_nhn22(
        pv=f_order(s['q']), uu=f_order(s['u']), qref=r['pv_n'], jb=jb, is_nhem=True, a=a, om=omega, dz=dz, h=h,
        rr=rgas, cp=cp, prefac=prefac)
    n = {'b': bn, 'u': un, 'l': np.abs(an1 + an2), 'a1': np.abs(an1), 'a2': np.abs(an2)}
    t = None
    if not nh_only:
        bs, us, as1, as2 = compute_lwa_only_nhn22(
            pv=f_order(-mirror(s['q'])), uu=f_order(mirror(s['u'])), qref=r['pv_s'], jb=jb, is_nhem=True, a=a,
            om=omega, dz=dz, h=h, rr=rgas, cp=cp, prefac=prefac)
        t = {'b': bs, 'u': us, 'l': np.abs(as1 + as2), 'a1': np.abs(as1), 'a2': np.abs(as2)}
    o = {}
    o['only/lwa_baro'] = back(join3(t, n, 'b', eq).T, s, ylat, has_equator, nh_only, 0, False)
    o['only/u_baro'] = back(join3(t, n, 'u', eq).T, s, ylat, has_equator, nh_only, 0, False)
    o['only/lwa'] = back(c_order(join3(t, n, 'l', eq)), s, ylat, has_equator, nh_only, 1, False)
    o['only/astar1'] = c_order(join3(t, n, 'a1', eq))
    o['only/astar2'] = c_order(join3(t, n, 'a2', eq))
    return o


def heating_forcing(heating, s, ylat, has_equator, kmax, h, omega):
    """nonconservative forcing of potential vorticity by a heating rate given on the input grid"""
    lat, z = s['lat'], s['z']
    g = to_heights(to_analysis(heating, ylat, lat, has_equator), s['z_in'], z)
    f = 2 * omega * np.sin(lat * np.pi / 180.)
    x = density_derivative(g, f, z, s['dz'], h, s['st_n'], s['st_s'], s['eq'], kmax)
    return back(x, s, ylat, has_equator, False, 1, True)
