"""What the plotting, gap filling and file helpers display, keep and save."""
from sa import world, oop, compare as C, evalt, terms as T, pyabs, recorder, report
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk, Arr, ListV
from sa.recorder import Token
from sa.terms import sym, num, ix
from sa.ranges import declare_param
from . import formulas as F, ops
from .xr import Xr, fix

NX, NY, NP = sym('nx', True), sym('ny', True), sym('npoints', True)
NT = sym('ntime', True)
for _s, _n in ((NX, 5), (NY, 4), (NP, 2), (NT, 12)):
    declare_param(_s, _n)
SIZES = dict(C.BASE_SIZES, nx=6, ny=5, npoints=3, ntime=13)


def _index(n):
    return lambda ev, idx: float(int(n(ev) * 0.999 * evalt.hrand(ev.seed, 'land', n(ev), idx)))


FIELDS = dict(C.FIELDS, xland=_index(lambda ev: ev.sizes['nx']), yland=_index(lambda ev: ev.sizes['ny']))
LOW = dict(FIELDS, u=lambda ev, idx: -3.0 + evalt.hrand(ev.seed, 'u', idx), v=lambda ev, idx: -4.0 + 5 * evalt.hrand(
    ev.seed, 'v', idx))
HIGH = dict(FIELDS, u=lambda ev, idx: 3.0 + evalt.hrand(ev.seed, 'u', idx), v=lambda ev, idx: 4.0 - 5 * evalt.hrand(
    ev.seed, 'v', idx))
PARAMS = {'factor': 0.37, 'lw': 13.0}
FACTOR, WIDTH = sym('factor'), sym('lw')
T.declare_positive(FACTOR)
DRAW = ('contourf', 'contour', 'pcolormesh', 'imshow', 'pcolor', 'tricontourf')


class Bad(Exception):
    pass


class Case:
    """one call of a helper with its recorded effects"""

    def __init__(self, name, loc):
        self.name, self.loc = name, loc
        self.I, self.J = world.interp(), oop.spec_interp()
        self.files = {}
        self.log = recorder.install(self.I, self.files)
        self.out = []
        self.made = {}

    # values
    def f(self, name, *shape):
        if name not in self.made:
            self.made[name] = (oop.array(self.I, name, shape, 'input ' + name), oop.array(self.J, name, shape))
        return self.made[name][0]

    def ref(self, fn, *args):
        """the reference applied to inputs given by name, and to plain values"""
        a = [self.made[x][1] if isinstance(x, str) and x in self.made else x for x in args]
        m = self.J.load_module('hnspec.plots')
        r = self.J.call(self.J.h[m.nsid][fn], a, {})
        return [oop.snapshot(self.J, x) for x in self.J.items(r)] if isinstance(r, ListV) else oop.snapshot(self.J, r)

    def inp(self, name):
        return oop.snapshot(self.J, self.made[name][1])

    # records
    def say(self, key, ok, detail='', where=None, n=0):
        st = ok if isinstance(ok, str) else (PROVED if ok else VBAD)
        self.out.append(rec('%s: %s' % (self.name, key), st, where or self.loc, detail if st not in (PROVED, AGREE)
                            else '', n))

    def equal(self, key, got, want, where=None):
        if isinstance(got, (int, float)) and not isinstance(got, bool):
            got = C.Side((), T.lift(got))
        if isinstance(got, (list, tuple)) and isinstance(want, C.Side) and want.shape:
            got = oop.snapshot(self.I, self.I.plain(self.I.newlist([x.elem if isinstance(x, C.Side) else x
                                                                    for x in got])))
        if isinstance(got, (Unk, Token)):
            return self.say(key, OPEN, 'not understood: %r' % (got,), where)
        if not isinstance(want, C.Side) or not isinstance(got, C.Side):
            return self.say(key, got == want, '%r instead of %r' % (got, want), where)
        r = None
        n = 0
        for sd, fs in ((1, FIELDS), (2, LOW), (3, HIGH)):
            e = tuple(C.evaluator(m, sd, SIZES, PARAMS, fs) for m in self.meanings())
            got.meaning, want.meaning = self.meanings()
            r = C.compare(got, want, evs={(sd, 0): e[0], (sd, 1): e[1]}, seeds=(sd,), limit=100)
            n += r.npoints
            if r.status != 'agree':
                break
        self.say(key, {'proved': PROVED, 'agree': AGREE, 'differ': VBAD, 'open': OPEN}[r.status], r.detail, where, n)

    def meanings(self):
        if not hasattr(self, '_m'):
            self._m = oop.meanings(self.I, self.J)
        return self._m

    def call(self, where, *args, **kw):
        mod, name = where.rsplit('.', 1)
        f = ops.fun(self.I, 'falwa.' + mod, name)
        self.loc = F.funcloc(self.I, f) if F.funcloc(self.I, f) != '?' else self.loc
        return self.I.call(f, list(args), kw)

    # effects
    def calls(self, *names):
        return [c for c in self.log if c.name in names]

    def unchanged(self):
        bad = [e for e in self.I.effects if isinstance(e[0], str) and e[0].startswith('input ')]
        self.say('the arrays given are not modified', not bad, 'writes into %s at %s' % (
            bad[0][0], bad[0][2]) if bad else '')

    def certain(self):
        for c in self.log:
            if any(x is not T.TRUE for x in c.guard):
                raise pyabs.GiveUp('a call under a condition on values: %s' % c.name)


def place(c):
    """(axes, position) of a drawing call"""
    ax = c.owner
    t = ax
    if isinstance(t, Token) and t.made is not None:
        m = t.made
        if m.name == 'subplots':
            return ax, t.index
        if m.name in ('add_subplot', 'subplot'):
            a = m.arg(2)
            if a is None and m.args:
                g = m.args[0]
                i = g.index if isinstance(g, Token) else g
                return ax, _int(i[-1] if isinstance(i, tuple) else i)
            return ax, _int(a)
    return ax, None


def _int(v):
    if isinstance(v, C.Side):
        v = v.elem
    c = getattr(v, 'const', None)
    return int(c) if c is not None else None


def panels(w):
    ds = w.calls(*DRAW)
    if any(d.name != 'contourf' for d in ds):
        raise pyabs.GiveUp('drawn by %s' % ', '.join(sorted({d.name for d in ds})))
    pos = [place(d)[1] for d in ds]
    if None not in pos and len(set(pos)) == len(pos):
        ds = [d for _, d in sorted(zip(pos, ds), key=lambda p: p[0])]
    return ds


def drawn(c):
    """x, y, z, levels of a contour call"""
    n = len(c.args)
    if n in (1, 2) and 'x' not in c.kw:
        return None, None, c.args[0], c.arg(1, 'levels')
    return c.arg(0), c.arg(1), c.arg(2), c.arg(3, 'levels')


def on(w, ax, *names):
    """calls of methods of an axes object, or of pyplot when there is one panel only"""
    single = len(panels(w)) == 1
    return [c for c in w.log if c.name in names and (c.owner is ax or single and getattr(c.owner, 'kind', '').endswith(
        'pyplot'))]


def label(w, ax, what):
    """the last value given to a text property of an axes object"""
    r = None
    for c in on(w, ax, 'set_' + what, what, 'set'):
        if c.name == 'set':
            if what in c.kw:
                r = c.kw[what]
        else:
            r = c.arg(0, 'label', what)
    return r


def longitude_shift(w, c):
    """the longitude at which drawn data longitude 0 appears, relative to the map: none for plain axes"""
    t = c.kw.get('transform')
    ax = c.owner
    if t is None:
        m = ax.made if isinstance(ax, Token) else None
        t = m.kw.get('projection') if m is not None else None
        if t is None and m is not None and 'subplot_kw' in m.kw and isinstance(m.kw['subplot_kw'], dict):
            t = m.kw['subplot_kw'].get('projection')
        if t is None:
            return 0
    return crs_shift(t)


def crs_shift(t):
    if not isinstance(t, Token) or t.made is None or t.made.name != 'PlateCarree':
        raise pyabs.GiveUp('map projection')
    a = t.made.arg(0, 'central_longitude')
    return 0 if a is None else _int(a) if _int(a) is not None else a


def saved(w, name):
    s = w.calls('savefig')
    got = [c.arg(0, 'fname') for c in s]
    w.say('the figure is saved under the name given', got == ([name] if name else []),
          'saved as %r instead of %r' % (got, name), s[0].loc and None if s else None)
    draws = w.calls(*DRAW)
    for c in s:
        k = w.log.index(c)
        w.say('the figure is complete when it is saved', all(w.log.index(d) < k for d in draws) and not any(
            x.name == 'show' and w.log.index(x) < k for x in w.log), 'saved before everything is drawn or after the '
            'figure has been shown')


def colour_bars(w, ps, need=True):
    bars = w.calls('colorbar')
    for i, p in enumerate(ps):
        mine = [b for b in bars if b.arg(0, 'mappable') is p.result]
        w.say('panel %d has the colour bar of its own contours' % (i + 1), len(mine) == 1 and
              (mine[0].kw.get('ax') is None or mine[0].kw['ax'] is p.owner or not isinstance(p.owner, Token)),
              '%d colour bars' % len(mine))


def texts(v):
    return v if isinstance(v, str) else None


# ------------------------------------------------------------------ cases
def two_fields(fname, opts):
    def run(w):
        a, b = w.f('u', NY, NX), w.f('v', NY, NX)
        x, y = w.f('xc', NX), w.f('ylatc', NY)
        w.call('plot_utils.' + fname, a, b, 'title of a', 'title of b', x, y, 'main title', **opts)
        w.certain()
        ps = panels(w)
        if len(ps) != 3:
            return w.say('three panels', False, '%d panels' % len(ps))
        factor = opts.get('diff_factor', num(1) / 100)
        for i, (p, nm, ti) in enumerate(zip(ps, ('u', 'v', None), ('title of a', 'title of b', None))):
            X, Y, Z, L = drawn(p)
            k = 'panel %d ' % (i + 1)
            w.equal(k + 'abscissa', X, w.inp('xc'))
            w.equal(k + 'ordinate', Y, w.inp('ylatc'))
            w.equal(k + 'field', Z, w.inp(nm) if nm else w.ref('difference', 'u', 'v'))
            n = L.shape[0] if isinstance(L, C.Side) and len(L.shape) == 1 else None
            if ti:
                if n is None:
                    w.say(k + 'colour scale', OPEN if isinstance(L, (Unk, Token)) else VBAD, 'levels %r' % (L,))
                else:
                    w.equal(k + 'colour scale', L, w.ref('common_scale', 'u', 'v', n))
                w.say(k + 'title', texts(label(w, p.owner, 'title')) == ti, 'title %r' % (label(w, p.owner, 'title'),))
            elif factor is None:
                w.say(k + 'automatic colour scale', L is None or isinstance(L, C.Side) and not L.shape,
                      'levels are given')
            elif n is None:
                w.say(k + 'colour scale', OPEN if isinstance(L, (Unk, Token)) else VBAD, 'levels %r' % (L,))
            else:
                w.equal(k + 'colour scale', L, w.ref('difference_scale', 'u', 'v', factor, n))
            w.say(k + 'longitudes are those of the data', longitude_shift(w, p) == 0, 'shifted by %r degrees' % (
                longitude_shift(w, p),))
            if 'cmap' in opts:
                w.say(k + 'colour map', p.kw.get('cmap') == opts['cmap'], 'colour map %r' % (p.kw.get('cmap'),))
        axes = [p.owner for p in ps]
        w.say('panels are different axes', len({id(x) for x in axes}) == 3, 'panels share their axes')
        w.say('main title', [c.arg(0, 't') for c in w.calls('suptitle')] == ['main title'],
              '%r' % [c.args for c in w.calls('suptitle')])
        colour_bars(w, ps)
        saved(w, opts.get('savefig_fname', 'default.png'))
        w.unchanged()
    return run


def lonlat_file(opts):
    def run(w):
        I = w.I
        names = {'lat': opts.get('latitude_name', 'latitude'), 'lon': opts.get('longitude_name', 'longitude')}

        def data(I):
            x = Xr(I)
            co = {'time': oop.array(I, 'times', (NT,)), names['lat']: oop.array(I, 'ylatc', (NY,)),
                  names['lon']: oop.array(I, 'xc', (NX,))}
            dims = ('time', names['lat'], names['lon'])
            return x.dataset({n: x.array(oop.array(I, n, (NT, NY, NX)), dims, co) for n in ('u', 'v')})
        w.files['some file.nc'] = data
        w.f('u', NT, NY, NX), w.f('xc', NX), w.f('ylatc', NY)
        w.call('plot_utils.plot_lon_lat_field', 'some file.nc', 'u', **opts)
        w.certain()
        ps = panels(w)
        if len(ps) != 1:
            return w.say('one panel', False, '%d panels' % len(ps))
        X, Y, Z, L = drawn(ps[0])
        w.equal('abscissa', X, w.inp('xc'))
        w.equal('ordinate', Y, w.inp('ylatc'))
        w.equal('field', Z, w.ref('pick', 'u', opts.get('tstep', num(10))))
        w.say('shown', len(w.calls('show')) == 1 and w.log.index(w.calls('show')[0]) > w.log.index(ps[0]),
              'not shown after drawing')
    return run


def plotter(w, cls, *args, **kw):
    c = ops.fun(w.I, 'falwa.plot_utils', cls)
    w.loc = 'src/falwa/plot_utils.py %s' % cls
    return w.I.construct(c, list(args), kw)


def single(w, ylab, xlab, title, cmap, levels, z):
    ps = panels(w)
    if len(ps) != 1:
        w.say('one panel', False, '%d panels' % len(ps))
        return None
    X, Y, Z, L = drawn(ps[0])
    for k, v, n, ax in (('abscissa', X, 'xc', 0), ('ordinate', Y, 'ylatc', 1)):
        if isinstance(v, C.Side) and len(v.shape) == 2:
            w.equal(k, v, w.ref('mesh', 'xc', 'ylatc')[ax])
        else:
            w.equal(k, v, w.inp(n))
    w.equal('field', Z, w.inp(z))
    w.equal('number of levels', L, C.Side((), levels))
    w.say('colour map', ps[0].kw.get('cmap') == cmap, 'colour map %r' % (ps[0].kw.get('cmap'),))
    ax = ps[0].owner
    w.say('label of the abscissa', label(w, ax, 'xlabel') == xlab, '%r' % (label(w, ax, 'xlabel'),))
    w.say('label of the ordinate', label(w, ax, 'ylabel') == ylab, '%r' % (label(w, ax, 'ylabel'),))
    t = label(w, ax, 'title')
    w.say('title', OPEN if isinstance(t, Unk) or isinstance(t, str) and '<?>' in t else isinstance(t, str) and title[0] in t and title[1] in t and
          t.index(title[0]) < t.index(title[1]), '%r' % (t,))
    colour_bars(w, ps)
    return ps[0]


def equator_line(w, ax, name, arg, wanted, width):
    ls = on(w, ax, name)
    w.say('the equator is %scovered' % ('' if wanted else 'not '), (len(ls) > 0) == bool(wanted),
          '%d lines' % len(ls))
    for c in ls if wanted else ():
        w.equal('position of the line over the equator', c.arg(0, arg), C.Side((), num(0)))
        wd = c.kw.get('lw', c.kw.get('linewidth'))
        w.equal('width of the line over the equator', wd, C.Side((), T.lift(width)))


def lonlat_plotter(ctor, call):
    def run(w):
        z = w.f('u', NY, NX)
        xland, yland = w.f('xland', NP), w.f('yland', NP)
        lon, lat = w.f('lonticks', num(4)), w.f('latticks', num(5))
        o = plotter(w, 'LatLonMapPlotter', (num(6), num(3)), 'upper title', w.f('xc', NX), w.f('ylatc', NY), xland,
                    yland, lon, lat, **ctor)
        for rep in (0, 1):                  # the second call shows the second variable
            zn = 'uv'[rep]
            w.log[:] = []
            oop.call(w.I, o, 'plot_and_save_variable', w.f(zn, NY, NX), 'some map', 'variable %d' % rep, **call)
            w.certain()
            old, w.name = w.name, w.name + ', call %d' % (rep + 1)
            p = single(w, ctor.get('y_axis_title', 'Latitude[deg]'), ctor.get('x_axis_title', 'Longitude[deg]'),
                       ('upper title', 'variable %d' % rep), 'some map', T.lift(call.get('num_level', 30)), zn)
            if p is not None:
                w.say('longitudes are those of the data', longitude_shift(w, p) == 0, 'shifted by %r degrees' % (
                    longitude_shift(w, p),))
                land = on(w, p.owner, 'scatter', 'plot')
                w.say('masked points are marked', len(land) == 1, '%d calls' % len(land))
                for c in land[:1]:
                    w.equal('longitudes of the masked points', c.arg(0, 'x'), w.ref('pick', 'xc', w.made['xland'][1]))
                    w.equal('latitudes of the masked points', c.arg(1, 'y'), w.ref('pick', 'ylatc', w.made['yland'][1]))
                equator_line(w, p.owner, 'axhline', 'y', ctor.get('exclude_equator', True),
                             ctor.get('white_space_width', 20))
                for nm, inp in (('set_xticks', 'lonticks'), ('set_yticks', 'latticks')):
                    ts = on(w, p.owner, nm)
                    if len(ts) != 1:
                        w.say(nm[4:], OPEN, '%d calls' % len(ts))
                        continue
                    w.equal(nm[4:], ts[0].arg(0, 'ticks'), w.inp(inp))
                    crs = ts[0].kw.get('crs')
                    if crs is not None:
                        w.say(nm[4:] + ' are in degrees of the data', crs_shift(crs) == 0, 'shifted')
            saved(w, call.get('save_path', 'figure.png'))
            w.name = old
        w.unchanged()
    return run


def height_plotter(ctor, call):
    def run(w):
        o = plotter(w, 'HeightLatPlotter', (num(6), num(3)), 'upper title', w.f('xc', NX), w.f('ylatc', NY),
                    (num(-80), num(80)), **ctor)
        for rep in (0, 1):
            zn = 'uv'[rep]
            w.log[:] = []
            oop.call(w.I, o, 'plot_and_save_variable', w.f(zn, NY, NX), 'some map', 'variable %d' % rep,
                     'f%d.png' % rep, **call)
            w.certain()
            old, w.name = w.name, w.name + ', call %d' % (rep + 1)
            p = single(w, ctor.get('y_axis_title', 'Pseudoheight[m]'), ctor.get('x_axis_title', 'Latitude[deg]'),
                       ('upper title', 'variable %d' % rep), 'some map', T.lift(call.get('num_level', 30)), zn)
            if p is not None:
                equator_line(w, p.owner, 'axvline', 'x', ctor.get('exclude_equator', True),
                             ctor.get('white_space_width', 20))
                ls = on(w, p.owner, 'set_xlim', 'xlim')
                if len(ls) != 1:
                    w.say('range of the abscissa', OPEN if ls else VBAD, '%d calls' % len(ls))
                else:
                    a = ls[0].args
                    a = list(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else [
                        ls[0].arg(0, 'left', 'xmin'), ls[0].arg(1, 'right', 'xmax')]
                    w.say('range of the abscissa', [_int(x) for x in a] == [-80, 80], '%r' % (a,))
            saved(w, 'f%d.png' % rep)
            w.name = old
        w.unchanged()
    return run


# gaps
def mask_of(w, v):
    """(data, mask) of a masked array token"""
    if isinstance(v, Token) and v.made is not None and v.made.name in ('masked_invalid', 'masked_where', 'array',
                                                                       'masked_array', 'MaskedArray'):
        c = v.made
        if c.name == 'masked_invalid':
            return c.arg(0, 'a'), None
        if c.name == 'masked_where':
            return c.arg(1, 'a'), c.arg(0, 'condition')
        return c.arg(0, 'data'), c.arg(1, 'mask')
    return None


def gaps(missing, opts):
    def run(w):
        I = w.I
        lib = I.np.library(I, 'numpy').attrs
        a = w.f('u', num(3), num(4))
        sa = oop.snapshot(I, a)
        base = T.base('in', ('u',), a.shape)

        def holed(e):
            """whether a value is missing: one of the values it depends on is"""
            cs = []

            def look(at):
                if at.kind == 'ref' and at.args[0] is base:
                    cs.append(T.c_and(T.c_eq(at.args[1] - 1), T.c_eq(at.args[2] - 2)))
                elif at.kind in ('sum', 'max', 'min', 'red', 'lam', 'apply', 'prod'):
                    raise pyabs.GiveUp('missing values in a %s' % at.kind)
            T.walk(e, look)
            return T.c_or(*cs) if missing and cs else T.FALSE
        hole = holed(sa.elem)

        def isnan(I, args, kw):
            return I.map(lambda x: holed(I.nume(x)), I.plain(args[0]))

        def nan_to_num(I, args, kw):
            v = kw.get('nan', T.ZERO)
            return I.map(lambda x: T.ite(holed(I.nume(x)), v, I.nume(x)), I.plain(args[0]))
        B = recorder.npmodel.Builtin
        lib['isnan'] = B('isnan', isnan)
        lib['isfinite'] = B('isfinite', lambda I, x, k: I.map(lambda c: T.c_not(c), isnan(I, x, k)))
        lib['nan_to_num'] = B('nan_to_num', nan_to_num)
        ma = Token(w.log, 'numpy.ma')
        lib['ma'] = ma
        r = w.call('preprocessing.gridfill_each_level', a, **opts)
        w.certain()
        fills = [c for c in w.log if c.name in ('fill', 'fill_cube')]
        if not missing:
            got = oop.snapshot(I, r)
            w.equal('a complete field is returned as it is', got, sa)
        else:
            if len(fills) != 1:
                return w.say('missing values are filled', OPEN if isinstance(r, Unk) else VBAD, '%d calls of the '
                             'filling routine' % len(fills))
            c = fills[0]
            t = r
            while isinstance(t, Token) and t.made is not None and t.made is not c and t.name in ('filled', 'copy'):
                t = t.owner
            w.say('the filled field is returned', isinstance(t, Token) and t.made is c and t.index == 0,
                  'returns %r' % (r,))
            dm = mask_of(w, c.arg(0, 'grids'))
            if dm is None:
                w.say('the field to be filled', OPEN, '%r' % (c.arg(0, 'grids'),))
            else:
                w.equal('the field to be filled', dm[0], sa)
                if dm[1] is not None:
                    w.say('exactly the missing values are filled', OPEN if not isinstance(dm[1], C.Side) else
                          dm[1].elem is hole, 'another mask')
            for i, (n, v) in enumerate((('xdim', 1), ('ydim', 0))):
                w.equal(n, c.arg(i + 1, n), C.Side((), num(v)))
            w.say('longitudes are cyclic', c.arg(6, 'cyclic') is True or _int(c.arg(6, 'cyclic')) == 1,
                  '%r' % (c.arg(6, 'cyclic'),))
            w.equal('number of iterations', c.arg(7, 'itermax'), C.Side((), T.lift(opts.get('itermax', 1000))))
            w.say('verbosity', c.kw.get('verbose', False) == opts.get('verbose', False), '%r' % (c.kw.get('verbose'),))
        w.unchanged()
    return run


def timeslices(steps):
    def run(w):
        I = w.I
        def data(I):
            x = Xr(I)
            co = {'time': oop.array(I, 'times', (NT,)), 'latitude': oop.array(I, 'ylatc', (NY,)),
                  'longitude': oop.array(I, 'xc', (NX,))}
            dims = ('time', 'latitude', 'longitude')
            v = {n: x.array(oop.array(I, n, (NT, NY, NX)), dims, co, attrs={'units': 'unit of ' + n})
                 for n in ('u', 'v')}
            v['height'] = x.array(oop.array(I, 'hgt', (NY, NX)), dims[1:], {k: co[k] for k in dims[1:]})
            return x.dataset(v, {'source': 'somewhere'})
        w.files['large.nc'] = data
        kw = {} if steps is None else {'timeslice': I.newlist([num(s) for s in steps])}
        w.call('netcdf_utils.extract_one_timeslice', 'large.nc', 'small.nc', **kw)
        w.certain()
        ss = w.calls('to_netcdf')
        w.say('one file is written', len(ss) == 1, '%d files' % len(ss))
        for c in ss[:1]:
            w.say('name of the file', c.arg(0, 'path') == 'small.nc', '%r' % (c.arg(0, 'path'),))
            if set(c.kw) - {'path', 'mode', 'format', 'engine'}:
                w.say('what is written', OPEN, 'options %s' % sorted(c.kw))
            x, full = Xr(I), data(I)
            vs, cs = x.names(c.owner)
            w.say('all variables are kept', sorted(vs) == ['height', 'u', 'v'], '%s' % sorted(vs))
            w.say('all coordinates are kept', sorted(cs) == ['latitude', 'longitude', 'time'], '%s' % sorted(cs))
            ks = list(steps or [0])
            for n in sorted(set(vs) & {'height', 'u', 'v'}) + sorted(set(cs) & {'latitude', 'longitude', 'time'}):
                v, f = I.getitem(c.owner, n), I.getitem(full, n)
                d, got, src = x.dims(f), x.side(x.data(v)), x.side(x.data(f))
                w.say('%s: dimensions' % n, tuple(x.dims(v)) == tuple(d), '%r' % (x.dims(v),))
                if tuple(x.dims(v)) != tuple(d):
                    continue
                if 'time' in d:
                    if isinstance(got, C.Side):
                        w.equal('%s: number of times' % n, C.Side((), got.shape[0]), C.Side((), num(len(ks))))
                    for i, k in enumerate(ks):
                        w.equal('%s: time %d' % (n, i), fix(got, (i,)) if isinstance(got, C.Side) and got.shape else
                                got, fix(src, (k,)))
                else:
                    w.equal('%s: values' % n, got, src)
                w.say('%s: attributes' % n, recorder.snap(I, I.getattr_(v, 'attrs')) == recorder.snap(I, I.getattr_(
                    f, 'attrs')), '%r' % (recorder.snap(I, I.getattr_(v, 'attrs')),))
            w.say('global attributes are kept', recorder.snap(I, I.getattr_(c.owner, 'attrs')) == {
                'source': 'somewhere'}, '%r' % (recorder.snap(I, I.getattr_(c.owner, 'attrs')),))
    return run


P = 'src/falwa/plot_utils.py '
CASES = {}
for _f in ('compare_two_fields', 'compare_two_fields_on_map'):
    for _n, _o in (('defaults', {}), ('colour range given', {'diff_factor': FACTOR, 'savefig_fname': 'x.png'}),
                   ('automatic colour range', {'diff_factor': None}), ('not saved', {'savefig_fname': None}),
                   ('colour map given', {'cmap': 'some map', 'figsize': (num(9), num(3))})):
        CASES['%s, %s' % (_f, _n)] = (P + _f, two_fields(_f, _o))
for _n, _o in (('defaults', {}), ('time step', {'tstep': num(3)}), ('first step', {'tstep': num(0)}),
               ('names', {'latitude_name': 'y', 'longitude_name': 'x', 'zonal_axis': num(1)})):
    CASES['plot_lon_lat_field, ' + _n] = (P + 'plot_lon_lat_field', lonlat_file(_o))
for _n, _c, _k in (('defaults', {}, {}), ('equator shown', {'exclude_equator': False}, {'save_path': None}),
                   ('options', {'white_space_width': WIDTH, 'x_axis_title': 'abscissa', 'y_axis_title': 'ordinate'},
                    {'num_level': num(12), 'save_path': 'y.png'})):
    CASES['LatLonMapPlotter, ' + _n] = (P + 'LatLonMapPlotter', lonlat_plotter(_c, _k))
    _k = {k: v for k, v in _k.items() if k != 'save_path'}
    CASES['HeightLatPlotter, ' + _n] = (P + 'HeightLatPlotter', height_plotter(_c, _k))
for _m in (False, True):
    for _n, _o in (('defaults', {}), ('options', {'itermax': num(77), 'verbose': True})):
        CASES['gridfill_each_level, %s, %s' % ('with gaps' if _m else 'complete', _n)] = (
            'src/falwa/preprocessing.py gridfill_each_level', gaps(_m, _o))
for _n, _s in (('first', None), ('one', (4,)), ('several', (7, 2, 3))):
    CASES['extract_one_timeslice, ' + _n] = ('src/falwa/netcdf_utils.py extract_one_timeslice', timeslices(_s))


def job(name):
    loc, f = CASES[name]
    w = Case(name, loc)
    try:
        f(w)
    except (PyRaise, pyabs.Dead) as e:
        w.out.append(rec('%s: works' % name, BAD, w.loc, 'raises %s' % F._exc(e)))
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        w.out.append(rec('%s: works' % name, OPEN, w.loc, '%s' % e))
    for e in w.I.top_exits:
        if e.kind == 'raise':
            w.out.append(rec('%s: works' % name, BAD, w.loc, 'raises %s under a condition' % F._exc(e.value)))
    w.out.append(ops.meta(w.I))
    return w.out


def run(rep):
    rep.level = 'other'
    rep.rule = ('the calls a helper makes of the plotting, filling and file libraries carry the terms of the data it was '
                'given: each panel, scale, label, mask and file is that of the documentation')
    rep.explanation = ('Each helper is interpreted for symbolic fields with every option; calls of matplotlib, cartopy, '
                       'gridfill and of xarray\'s file functions are recorded with the abstract values of their '
                       'arguments and compared with reference formulas (spec/plots.py).')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['the plotting libraries draw what they are given']
    rep.minimum = 150
    rep.run([(job, (n,)) for n in CASES], limit=200)
    rep.recs = F.meta(rep, rep.recs)
