"""Reference formulas of the stand-alone functions (read by the abstract interpreter, never executed)."""
import numpy as np

PI = np.pi


# ------------------------------------------------------------------ utilities
def static_stability(height, area, theta, s_et, n_et):
    """area-weighted hemispheric mean potential temperature and its vertical gradient"""
    zonal = np.mean(theta, axis=2) if theta.ndim == 3 else theta
    weight = np.mean(area, axis=1) if area.ndim == 2 else area
    nlat = theta.shape[1]
    kmax = theta.shape[0]
    out = []
    for lo, hi in ((nlat - n_et, nlat), (0, s_et)):
        w = weight[lo:hi]
        out.append((zonal[:, lo:hi] * w[np.newaxis, :]).sum(axis=1) / w.sum())
    k = np.arange(kmax)
    up = np.minimum(k + 1, kmax - 1)
    dn = np.maximum(k - 1, 0)
    for t0 in (out[0], out[1]):
        out.append((t0[up] - t0[dn]) / (height[up] - height[dn]))
    return tuple(out)


def qgpv_givenvort(omega, nlat, nlon, kmax, z, ylat, avort, theta, t0_n, t0_s, stat_n, stat_s, nlat_s, h):
    """stretching term (potential temperature anomaly over static stability) times f plus absolute vorticity; the
    latitudes between the hemispheric domains have no anomaly"""
    j = np.arange(nlat)[np.newaxis, :, np.newaxis]
    south = (j < nlat_s) * 1.
    north = (j >= nlat - nlat_s) * 1.
    rho = np.exp(-z / h)[:, np.newaxis, np.newaxis]
    anom = rho * (north * (theta - t0_n[:, np.newaxis, np.newaxis]) / stat_n[:, np.newaxis, np.newaxis] +
                  south * (theta - t0_s[:, np.newaxis, np.newaxis]) / stat_s[:, np.newaxis, np.newaxis])
    k = np.arange(kmax)
    up = np.minimum(k + 1, kmax - 1)
    dn = np.maximum(k - 1, 0)
    stretch = (anom[up, :, :] - anom[dn, :, :]) / (z[up] - z[dn])[:, np.newaxis, np.newaxis] / rho
    f = 2. * omega * np.sin(ylat * PI / 180.)
    return avort + stretch * f[np.newaxis, :, np.newaxis], stretch


def zonal_convergence(field, clat, dlambda, a, tol):
    nlat, nlon = field.shape
    i = np.arange(nlon)
    east = field[:, (i + 1) % nlon]
    west = field[:, (i - 1) % nlon]
    c = clat[:, np.newaxis]
    return np.where(np.abs(c) > tol, -(east - west) / (2. * dlambda * a * c), 0.)


def meridional_divergence(field, clat, dphi, a, tol):
    nlat, nlon = field.shape
    g = field * clat[:, np.newaxis]
    j = np.arange(nlat)
    n = np.minimum(j + 1, nlat - 1)
    s = np.maximum(j - 1, 0)
    d = (g[n, :] - g[s, :]) / ((n - s)[:, np.newaxis] * dphi)
    c = clat[:, np.newaxis]
    return np.where(np.abs(c) > tol, d / (a * c), 0.)


def curl_2d(u, v, clat, dlambda, dphi, a):
    """relative vorticity; the first and last latitude have none"""
    nlat, nlon = u.shape
    i = np.arange(nlon)
    j = np.arange(nlat)
    n = np.minimum(j + 1, nlat - 1)
    s = np.maximum(j - 1, 0)
    g = u * clat[:, np.newaxis]
    dv = (v[:, (i + 1) % nlon] - v[:, (i - 1) % nlon]) / (2. * dlambda)
    du = (g[n, :] - g[s, :]) / (2. * dphi)
    inside = ((j > 0) & (j < nlat - 1))[:, np.newaxis]
    return np.where(inside, (dv - du) / (a * clat[:, np.newaxis]), 0.)


def z_derivative_of_prod(stat_n, stat_s, kmax, eq, dz, decay, g, mult):
    """multiplier * d/dz(decay * g / static stability); one-sided at the lowest and highest level"""
    nlat = g.shape[1]
    j = np.arange(nlat)[np.newaxis, :]
    sn, ss = stat_n[:, np.newaxis], stat_s[:, np.newaxis]
    stat = np.where(j < eq - 1, ss, np.where(j == eq - 1, 0.5 * (ss + sn), sn))
    x = decay[:, np.newaxis, np.newaxis] * g / stat[:, :, np.newaxis]
    k = np.arange(kmax)
    up = np.minimum(k + 1, kmax - 1)
    dn = np.maximum(k - 1, 0)
    return (x[up, :, :] - x[dn, :, :]) / ((up - dn)[:, np.newaxis, np.newaxis] * dz) * mult[:, :, np.newaxis]


def covariance(a, b):
    n = a.shape[0]
    da = a - a.mean(axis=0)[np.newaxis, :, :]
    db = b - b.mean(axis=0)[np.newaxis, :, :]
    return (da * db).sum(axis=0) / (n - 1)


# ------------------------------------------------------------------ equivalent latitude and wave activity
def eqvlat(ylat, vort, area, n, a):
    """Q(y): the value enclosing the area south of latitude y; box counting with n contour values"""
    lo, hi = vort.min(), vort.max()
    bins = lo + np.arange(n) * (hi - lo) / (n - 1)
    below = (vort[np.newaxis, :, :] < bins[:, np.newaxis, np.newaxis])
    enclosed = np.where(below, area[np.newaxis, :, :], 0.).sum(axis=2).sum(axis=1)
    lat = np.arcsin(enclosed / (2. * PI * a ** 2) - 1.) * 180. / PI
    return np.interp(ylat, lat, bins), lat, bins


def eqvlat_fawa(ylat, vort, area, n, a):
    qref, lat, bins = eqvlat(ylat, vort, area, n, a)
    nlat = vort.shape[0]
    below = (vort[np.newaxis, :, :] < bins[:, np.newaxis, np.newaxis])
    enclosed = np.where(below, (area * vort)[np.newaxis, :, :], 0.).sum(axis=2).sum(axis=1)
    inside = np.interp(ylat, lat, enclosed)
    row = np.mean(vort, axis=1) * area.sum(axis=1)
    seg = 0.5 * (row[1:] + row[:-1])                     # between rows j and j + 1
    j = np.arange(nlat)[:, np.newaxis]
    north = np.where(np.arange(nlat - 1)[np.newaxis, :] >= j, seg[np.newaxis, :], 0.).sum(axis=1)
    return qref, -(north[1:] + inside[1:]) / (2. * PI * a)


def eqvlat_vgrad(ylat, vort, area, n, a, vgrad):
    """mean of vgrad along the contours"""
    qref, lat, bins = eqvlat(ylat, vort, area, n, a)
    k = np.arange(n)[:, np.newaxis, np.newaxis]
    lower = bins[np.maximum(np.arange(n) - 1, 0)][:, np.newaxis, np.newaxis]
    v = vort[np.newaxis, :, :]
    inbin = (k > 0) & (v >= lower) & (v < bins[:, np.newaxis, np.newaxis])
    total = np.where(inbin, area[np.newaxis, :, :], 0.).sum(axis=2).sum(axis=1)
    acc = np.where(inbin, (area * vgrad)[np.newaxis, :, :], 0.).sum(axis=2).sum(axis=1)
    mean = np.where(total == 0., 0., acc / np.where(total == 0., 1., total))
    i = np.arange(n)
    up = np.minimum(i + 1, n - 1)
    dn = np.maximum(i - 1, 0)
    brac = np.where((i > 0) & (i < n - 1), 0.5 * (mean[up] + mean[dn]), 0.)
    return qref, np.interp(ylat, lat, brac)


def lwa(vort, qref, dmu):
    """cyclonic and anticyclonic wave activity: the displaced surplus south and deficit north of each latitude; no
    contour is displaced past the last latitude"""
    nlat = vort.shape[0]
    e = vort[np.newaxis, :, :] - qref[:, np.newaxis, np.newaxis]       # (contour, latitude, longitude)
    j = np.arange(nlat)[:, np.newaxis, np.newaxis]
    p = np.arange(nlat)[np.newaxis, :, np.newaxis]
    w = dmu[np.newaxis, :, np.newaxis]
    inner = j < nlat - 1
    anti = np.where(inner & (p > j) & (e < 0.), -e * w, 0.).sum(axis=1)
    cyc = np.where(inner & (p <= j) & (e > 0.), e * w, 0.).sum(axis=1)
    return anti, cyc


def bigsigma(vort, qref, dmu, force):
    nlat = vort.shape[0]
    e = vort[np.newaxis, :, :] - qref[:, np.newaxis, np.newaxis]
    j = np.arange(nlat)[:, np.newaxis, np.newaxis]
    p = np.arange(nlat)[np.newaxis, :, np.newaxis]
    fw = (force * dmu[:, np.newaxis])[np.newaxis, :, :]
    inner = j < nlat - 1
    return (np.where(inner & (p <= j) & (e > 0.), fw, 0.) - np.where(inner & (p > j) & (e < 0.), fw, 0.)).sum(axis=1)


# ------------------------------------------------------------------ wrappers
def hemispheric_eqvlat(ylat, vort, area, ns, n, a, sign):
    """(southern rows, northern rows) of Q; the north is analysed as a mirrored south"""
    s = eqvlat(ylat[:ns], vort[:ns, :], area[:ns, :], n, a)[0]
    m = sign * vort[::-1, :]
    t = eqvlat(ylat[:ns], m[:ns, :], area[:ns, :], n, a)[0]
    return s, sign * t[::-1]


def stack(s, x, nlat):
    """rows of both hemispheres; zero in between"""
    ns = s.shape[0]
    j = np.arange(nlat)
    lo = np.minimum(j, ns - 1)
    hi = np.maximum(j - (nlat - ns), 0)
    if s.ndim == 1:
        return np.where(j >= nlat - ns, x[hi], np.where(j < ns, s[lo], 0.))
    c = j[:, np.newaxis]
    return np.where(c >= nlat - ns, x[hi, :], np.where(c < ns, s[lo, :], 0.))


def hemispheric_lwa(vort, qs, qn, dmu, ns):
    nlat = vort.shape[0]
    a, b = lwa(vort[:ns, :], qs, dmu[:ns])
    c, d = lwa(vort[nlat - ns:, :], qn, dmu[nlat - ns:])
    return stack(a + b, c + d, nlat)


def hemispheric_sigma(vort, qs, qn, dmu, ns, force):
    nlat = vort.shape[0]
    a = bigsigma(vort[:ns, :], qs, dmu[:ns], force[:ns, :])
    b = bigsigma(vort[nlat - ns:, :], qn, dmu[nlat - ns:], force[nlat - ns:, :])
    return stack(a, b, nlat)


def hemispheric_bracket(ylat, vort, area, ns, n, a, vgrad):
    s = eqvlat_vgrad(ylat[:ns], vort[:ns, :], area[:ns, :], n, a, vgrad[:ns, :])[1]
    m, g = -vort[::-1, :], -vgrad[::-1, :]
    t = eqvlat_vgrad(ylat[:ns], m[:ns, :], area[:ns, :], n, a, g[:ns, :])[1]
    return stack(s, -t[::-1], vort.shape[0])


def eqvlat_hemispheric(ylat, vort, area, ns, n, a):
    s, x = hemispheric_eqvlat(ylat, vort, area, ns, n, a, -1.)
    return stack(s, x, vort.shape[0])


def qgpv_eqlat_lwa(ylat, vort, area, dmu, ns, n, a, sign):
    s, x = hemispheric_eqvlat(ylat, vort, area, ns, n, a, sign)
    return stack(s, x, vort.shape[0]), hemispheric_lwa(vort, s, x, dmu, ns)


def qgpv_sigma(ylat, vort, area, dmu, ns, n, a, force):
    s, x = hemispheric_eqvlat(ylat, vort, area, ns, n, a, -1.)
    return hemispheric_sigma(vort, s, x, dmu, ns, force)


def baro_geometry(ylat, nlon, a):
    """grid cell area and meridional length element of a uniform grid"""
    nlat = ylat.size
    dphi = PI / (nlat - 1) * np.ones(nlat)
    c = np.cos(ylat * PI / 180.)
    area = 2. * PI * a ** 2 * (c * dphi)[:, np.newaxis] / nlon * np.ones((nlat, nlon))
    return area, a * np.abs(c) * dphi
