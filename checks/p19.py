"""Time-integrated budgets and mirrored hemispheres."""
import itertools
from sa import world, oop, compare as C, terms as T, xrmodel
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import Obj, Unk
from sa.ranges import declare_param
from sa.terms import ref, ix, num, sub, add, mul, ZERO, ONE, lift
from . import formulas as F, relate as R
from .xr import Xr, fix

NT = T.sym('nt', True)
declare_param(NT, 2)
NZ = T.sym('nz', True)
declare_param(NZ, 2)
NY = T.sym('ny', True)
declare_param(NY, 2)
SEC = xrmodel.SEC
M, NLON = world.M, world.NLON
SIZES = dict(C.BASE_SIZES, nt=9, nz=11, ny=12)
FILE = 'src/falwa/xarrayinterface.py '


class Case:
    def __init__(self, label, seed, tier):
        self.I = world.interp()
        self.xr = Xr(self.I)
        self.label, self.out, self.seed, self.tier = label, [], seed, tier

    def add(self, what, ok, where, detail='', n=1):
        self.out.append(rec('%s: %s' % (self.label, what), ok, FILE + where, detail, n))

    def equal(self, what, where, got, shape, elem):
        got = self.xr.side(self.xr.data(got)) if isinstance(got, Obj) else oop.snapshot(self.I, got)
        if isinstance(got, Unk):
            return self.add(what, OPEN, where, str(got))
        if not isinstance(got, C.Side):
            return self.add(what, BAD, where, 'no array: %r' % (got,))
        r = C.compare(got, C.Side(tuple(lift(s) for s in shape), elem), seeds=(self.seed, self.seed + 7),
                      sizes=SIZES, limit=300, params={'second': 1.25, 'time resolution': 0.3})
        self.add(what, {'proved': PROVED, 'agree': AGREE, 'differ': VBAD}.get(r.status, OPEN), where, r.detail,
                 r.npoints or 1)

    def names(self, where, o, want, exact=True):
        d, c = self.xr.names(o)
        for n in want:
            self.add('variable %s' % n, PROVED if n in d or n in c else BAD, where,
                     '' if n in d or n in c else 'missing')
        extra = [n for n in d if n not in want]
        self.add('variables', BAD if exact and extra else PROVED, where, 'additional: %s' % extra if extra else '')

    def dims(self, what, where, o, want):
        d = self.xr.dims(o)
        self.add(what + ' dimensions', PROVED if tuple(d) == tuple(want) else (OPEN if isinstance(d, Unk) else BAD),
                 where, '' if tuple(d) == tuple(want) else '%s instead of %s' % (d, want))


# ------------------------------------------------------------------ budget
TERMS = ('convergence_zonal_advective_flux', 'divergence_eddy_momentum_flux', 'meridional_heat_flux')
BUDGET = {
    # time name, dimensions of the variables, variable names given
    'a': ('time', ('time', 'ylat', 'xlon'), False), 'b': ('date', ('number', 'date', 'ylat', 'xlon'), False),
    'c': ('valid_time', ('ylat', 'xlon', 'valid_time'), True), 'd': ('t0', ('t0', 'ylat', 'xlon'), True),
    'e': ('datetime', ('datetime',), False), 'f': ('time', ('time', 'number', 'ylat', 'xlon'), False),
}


def budget(key, seed, tier):
    tname, dims, mapped = BUDGET[key]
    c = Case('integrate_budget(%s%s)' % (' x '.join(dims), ', names given' if mapped else ''), seed, tier)
    I, xr = c.I, c.xr
    w = 'integrate_budget'
    size = {tname: NT, 'ylat': NY, 'xlon': NLON, 'number': num(2)}
    tb = T.base('in', ('time',), (NT,))
    time = lambda i: mul(ref(tb, i), SEC)
    coords = {tname: I.newarr((NT,), time(ix(0)))}
    for d in dims:
        if d != tname:
            coords[d] = I.newarr((size[d],), ref(T.base('in', ('coordinate ' + d,), (size[d],)), ix(0)))
    shape = tuple(size[d] for d in dims)
    names = {'lwa_baro': 'lwa_baro'}
    names.update({n: n for n in TERMS})
    if mapped:
        names = {n: 'my_' + n for n in names}
    k = dims.index(tname)
    bases = {n: T.base('in', (n,), shape) for n in names}
    var = {}
    for n, out in names.items():
        var[out] = xr.array(I.newarr(shape, ref(bases[n], *[ix(i) for i in range(len(shape))])), dims, coords)
    # the dataset of the flux stage has more variables; one of them without the time dimension
    var['u_baro'] = xr.array(I.newarr(shape, ref(T.base('in', ('u_baro',), shape), *[
        ix(i) for i in range(len(shape))])), dims, coords)
    if mapped:                       # names taken by other quantities: the ones given take precedence
        var['lwa_baro'] = xr.array(I.newarr(shape, ref(T.base('in', ('decoy',), shape), *[
            ix(i) for i in range(len(shape))])), dims, coords)
    ds = xr.dataset(var, {'kmax': num(49), 'source': 'x'})
    args = [ds]
    if mapped:
        m = dict(names)
        if tname == 't0':
            m['time'] = tname
        args.append(I.newdict(m))
    kind, r, cond = R.attempt(I, lambda: I.call(xr.fn('integrate_budget'), args, {}))
    if kind != 'value' or not isinstance(r, Obj):
        c.add('result', BAD if kind == 'raise' or kind == 'value' and not isinstance(r, Unk) else OPEN, w, '%s' % (r,))
        return c.out
    if cond:
        c.add('result', BAD, w, 'raises %s under a condition' % cond[0].value.name)
    rest = tuple(d for d in dims if d != tname)
    rshape = tuple(size[d] for d in rest)

    def at(n, t):
        idx = [ix(i) for i in range(len(rest))]
        return ref(bases[n], *(idx[:k] + [t] + idx[k:]))
    last = sub(NT, ONE)
    change = sub(at('lwa_baro', last), at('lwa_baro', ZERO))
    want = {'delta_lwa': change}
    b = T.fresh_lv('b')
    res = change
    for n in TERMS:
        q = T.bsum(b, ZERO, sub(NT, num(2)), T.div(mul(sub(ref(tb, add(b, ONE)), ref(tb, b)), add(
            at(n, b), at(n, add(b, ONE)))), num(2)))
        want['integrated_' + n] = q
        res = sub(res, q)
    want['residual'] = res
    c.names(w, r, list(want))
    got = {}
    for n, e in want.items():
        kind, v, _ = R.attempt(I, lambda: I.getitem(r, n))
        if kind != 'value' or not isinstance(v, Obj):
            if not (kind == 'raise' and v.startswith('KeyError')):
                c.add(n, BAD if kind == 'raise' else OPEN, w, '%s' % (v,))
            continue
        got[n] = v
        c.dims(n, w, v, rest)
        if tuple(xr.dims(v)) == rest:
            c.equal(n, w, v, rshape, e)
    # closure of the reported terms themselves
    if len(got) == len(want) and all(tuple(xr.dims(v)) == rest for v in got.values()):
        s = [xr.side(xr.data(got[n])) for n in want]
        if all(isinstance(x, C.Side) for x in s):
            tot = s[-1].elem
            for x in s[1:-1]:
                tot = add(tot, x.elem)
            c.equal('closure', w, got['delta_lwa'], rshape, tot)
    for d in rest:
        c.equal('coordinate ' + d, w, I.getitem(r, d), (size[d],), I.read(coords[d]))
    c.equal('coordinate ' + tname, w, I.getitem(r, tname), (NT,), time(ix(0)))
    at_ = I.h[I.getattr_(r, 'attrs').id]
    c.equal('integration_seconds', w, I.force(at_.get('integration_seconds')), (), sub(ref(tb, last), ref(tb, ZERO)))
    for n in ('integration_start', 'integration_stop'):
        c.add(n, PROVED if n in at_ else BAD, w)
    c.add('attributes of the input', PROVED if at_.get('source') == 'x' and 'kmax' in at_ else BAD, w)
    c.out.append(R.meta_rec(I))
    return c.out


def budget_refused(seed, tier):
    """a missing term must not go unnoticed"""
    out = []
    for miss in ('lwa_baro', 'time') + TERMS:
        for mapped in (False, True):
            c = Case('integrate_budget without %s%s' % (miss, ', its name given' if mapped else ''), seed, tier)
            I, xr = c.I, c.xr
            names = [n for n in ('lwa_baro',) + TERMS if n != miss]
            td = 'time' if miss != 'time' else 'step'
            coords = {td: I.newarr((NT,), mul(ref(T.base('in', ('time',), (NT,)), ix(0)), SEC))} if td == 'time' else {}
            ds = xr.dataset({n: xr.array(oop.array(I, n, (NT, NY)), (td, 'ylat'), coords) for n in names})
            args = [ds] + ([I.newdict({miss: 'nowhere'})] if mapped else [])
            kind, r, cond = R.attempt(I, lambda: I.call(xr.fn('integrate_budget'), args, {}))
            ok = OPEN if kind == 'open' or isinstance(r, Unk) else (PROVED if kind == 'raise' else BAD)
            c.add('refused', ok, 'integrate_budget', '' if ok == PROVED else '%s' % (r,))
            out += c.out
    return out


# ------------------------------------------------------------------ mirroring
MIRROR = {}
for _i, (_h, _d, _yn, _vn, _mp) in enumerate(itertools.product(
        ('north', 'south'), (False, True), ('lat', 'ylat', 'latitude', 'phi'), ('v', 'V', 'vwnd', None), (0, 1))):
    if _yn == 'phi' or _vn == 'vwnd':
        if not _mp:
            continue
    MIRROR['%02d' % _i] = (_h, _d, _yn, _vn, _mp)


def mirror(key, seed, tier):
    hemi, desc, yname, vname, mapped = MIRROR[key]
    c = Case('hemisphere_to_globe(%s, %s %s, wind %s%s)' % (
        hemi, yname, 'descending' if desc else 'ascending', vname, ', names given' if mapped else ''), seed, tier)
    I, xr = c.I, c.xr
    w = 'hemisphere_to_globe'
    n = add(M, ONE)
    dist = lambda i: sub(M, i) if (hemi == 'north') == desc else i      # rows from the equator at index i
    sign = 1 if hemi == 'north' else -1
    lat = I.newarr((n,), T.div(mul(num(90 * sign), dist(ix(0))), M))
    lev = I.newarr((NZ,), ref(T.base('in', ('coordinate lev',), (NZ,)), ix(0)))
    lon = I.newarr((NLON,), T.div(mul(num(360), ix(0)), NLON))
    tim = I.newarr((num(2),), mul(ref(T.base('in', ('time',), (num(2),)), ix(0)), SEC))
    coords = {yname: lat, 'lev': lev, 'lon': lon, 'time': tim}
    size = {yname: n, 'lev': NZ, 'lon': NLON, 'time': num(2)}
    # variables on several dimensions in several orders
    shapes = {'u': ('time', 'lev', yname, 'lon'), 't': (yname, 'lon'), 'qprofile': ('lev', yname), 'zs': (yname,),
              'p0': ('lev', 'lon'), 'index': ('time',)}
    if vname:
        shapes[vname] = ('lev', yname, 'lon')
    if mapped and vname == 'vwnd':
        shapes['v'] = (yname,)       # another quantity under the usual name
    var = {}
    for q, ds_ in shapes.items():
        sh = tuple(size[d] for d in ds_)
        var[q] = xr.array(I.newarr(sh, ref(T.base('in', ('var ' + q,), sh), *[ix(i) for i in range(len(sh))])), ds_,
                          {d: coords[d] for d in ds_})
    ds = xr.dataset(var, {'title': 'x'})
    args = [ds]
    if mapped:
        m = {'ylat': yname}
        if vname:
            m['v'] = vname
        args.append(I.newdict(m))
    kind, r, cond = R.attempt(I, lambda: I.call(xr.fn('hemisphere_to_globe'), args, {}))
    if kind != 'value' or not isinstance(r, Obj):
        c.add('result', BAD if kind == 'raise' or kind == 'value' and not isinstance(r, Unk) else OPEN, w, '%s' % (r,))
        return c.out
    if cond:
        c.add('result', BAD, w, 'raises %s under a condition' % cond[0].value.name)
    c.names(w, r, list(shapes) + [yname])
    rows = add(mul(num(2), M), ONE)
    # row j of the globe lies at j - M rows from the equator in the direction of the axis of the input
    off = sub(ix(0), M)
    asc = 1 if not desc else -1
    c.equal('coordinate ' + yname, w, I.getitem(r, yname), (rows,), T.div(mul(num(90 * asc), off), M))
    for d in ('lev', 'lon', 'time'):
        c.equal('coordinate ' + d, w, I.getitem(r, d), (size[d],), I.read(coords[d]))
    for q, ds_ in shapes.items():
        kind, v, _ = R.attempt(I, lambda: I.getitem(r, q))
        if kind != 'value' or not isinstance(v, Obj):
            c.add(q, BAD if kind == 'raise' else OPEN, w, '%s' % (v,))
            continue
        c.dims(q, w, v, ds_)
        if tuple(xr.dims(v)) != tuple(ds_):
            continue
        sh = tuple(size[d] for d in ds_)
        b = T.base('in', ('var ' + q,), sh)
        idx = [ix(i) for i in range(len(sh))]
        if yname not in ds_:
            c.equal(q, w, v, sh, ref(b, *idx))
            continue
        k = ds_.index(yname)
        o = sub(ix(k), M)
        given = T.c_ge(o) if (hemi == 'north') == (not desc) else T.c_ge(T.neg(o))   # rows of the given hemisphere
        far = T.ite(T.c_ge(o), o, T.neg(o))
        src = sub(M, far) if (hemi == 'north') == desc else far
        e = ref(b, *(idx[:k] + [src] + idx[k + 1:]))
        if q == vname:
            e = T.ite(given, e, T.neg(e))
        c.equal(q, w, v, tuple(rows if d == yname else size[d] for d in ds_), e)
    at_ = I.h[I.getattr_(r, 'attrs').id]
    c.add('attributes of the input', PROVED if at_.get('title') == 'x' else BAD, w)
    # the input is left as it was
    for q, ds_ in list(shapes.items()) + [(yname, (yname,))]:
        sh = tuple(size[d] for d in ds_)
        e = ref(T.base('in', ('var ' + q,), sh), *[ix(i) for i in range(len(sh))]) if q != yname else \
            T.div(mul(num(90 * sign), dist(ix(0))), M)
        c.equal('input %s is left unchanged' % q, w, I.getitem(ds, q), sh, e)
    c.out.append(R.meta_rec(I))
    return c.out


def mirror_refused(seed, tier):
    """without the equator there is nothing to mirror at"""
    out = []
    for hemi, desc in itertools.product((1, -1), (False, True)):
        c = Case('hemisphere_to_globe without equator (%s, %s)' % (
            'north' if hemi > 0 else 'south', 'descending' if desc else 'ascending'), seed, tier)
        I, xr = c.I, c.xr
        d = sub(M, ix(0)) if (hemi > 0) == desc else ix(0)
        lat = I.newarr((M + 1,), num(10 * hemi) + T.div(mul(num(80 * hemi), d), M))
        ds = xr.dataset({'u': xr.array(oop.array(I, 'u', (M + 1, NLON)), ('lat', 'lon'), {'lat': lat})})
        kind, r, cond = R.attempt(I, lambda: I.call(xr.fn('hemisphere_to_globe'), [ds], {}))
        refused = kind == 'raise'
        c.add('refused', PROVED if refused else (OPEN if kind == 'open' or isinstance(r, Unk) else BAD),
              'hemisphere_to_globe', '' if refused else '%s' % (r,))
        out += c.out
    for yn, mp in (('y', None), ('lat', {'ylat': 'latitude'})):
        c = Case('hemisphere_to_globe without latitude (%s)' % yn, seed, tier)
        I, xr = c.I, c.xr
        lat = I.newarr((M + 1,), T.div(mul(num(90), ix(0)), M))
        ds = xr.dataset({'u': xr.array(oop.array(I, 'u', (M + 1, NLON)), (yn, 'lon'), {yn: lat})})
        kind, r, cond = R.attempt(I, lambda: I.call(xr.fn('hemisphere_to_globe'), [ds] + (
            [I.newdict(mp)] if mp else []), {}))
        c.add('refused', PROVED if kind == 'raise' else (OPEN if kind == 'open' or isinstance(r, Unk) else BAD),
              'hemisphere_to_globe', '%s' % (r,))
        out += c.out
    return out


def run(rep):
    rep.level = 'proof'
    rep.rule = ('each reported term equals its definition: change between last and first time, trapezoidal integrals in '
                'seconds, residual; each row of the globe equals the row of the input at the same distance from the '
                'equator, with the sign of the meridional wind changed on the created hemisphere only')
    rep.explanation = ('Both functions are interpreted over symbolic labelled arrays of any length; time differences '
                       'are multiples of a symbolic second.')
    rep.trusted = F.TRUSTED + ['spec/xarray_model.py describes xarray']
    rep.assumptions = ['coordinate values are unique along their axis', 'equally spaced latitudes from the equator to '
                       'the pole', 'floating-point arithmetic is read as real arithmetic']
    rep.minimum = 300
    jobs = [(budget, (k, rep.seed, rep.tier)) for k in BUDGET] + [(mirror, (k, rep.seed, rep.tier)) for k in MIRROR]
    jobs += [(budget_refused, (rep.seed, rep.tier)), (mirror_refused, (rep.seed, rep.tier))]
    rep.run(jobs, limit=600)
    rep.recs = F.meta(rep, rep.recs)
