"""Exits and shapes of every stage and accessor in every option combination."""
from sa import world, oop, terms as T, pyabs, compare as C
from sa.ranges import declare_param
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk, Arr, NTuple
from sa.terms import lift, num, ix, sub
from sa.world import M, NLON, KMAX
from . import formulas as F, relate as R, ops
from .p07 import NIT

K3 = ('k', 'j', 'i')
GLOBAL3, REF2, BARO2, LAYER3 = ('k', 'J', 'i'), ('k', 'j'), ('j', 'i'), ('k', 'j', 'i')
SHAPE = {}
for _n in oop.INTERP:
    SHAPE['interp/' + _n] = GLOBAL3
for _n in oop.REFS:
    SHAPE['ref/' + _n] = REF2
for _n in oop.BARO:
    SHAPE['baro/' + _n] = LAYER3 if _n == 'lwa' else BARO2
for _n in oop.LAYER:
    SHAPE['layer/' + _n] = LAYER3
for _n in oop.ONLY:
    SHAPE['only/' + _n] = LAYER3 if _n == 'lwa' else BARO2
TUPLE = {
    'interp': [('QGPV', GLOBAL3), ('U', GLOBAL3), ('V', GLOBAL3), ('Theta', GLOBAL3)],
    'ref': [('Qref', REF2), ('Uref', REF2), ('PTref', REF2)],
    'baro': [(n, LAYER3 if n == 'lwa' else BARO2) for n in (
        'adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
        'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa')],
}
METHOD = {'interp': 'interpolate_fields', 'ref': 'compute_reference_states',
          'baro': 'compute_lwa_and_barotropic_fluxes', 'layer': 'compute_layerwise_lwa_fluxes',
          'only': 'compute_lwa_only', 'heating': 'compute_ncforce_from_heating_rate'}
LISTS = {'interp': oop.INTERP, 'ref': oop.REFS, 'baro': oop.BARO, 'layer': oop.LAYER, 'only': oop.ONLY}
ORDERS = ['interp ref baro layer only heating', 'interp ref layer baro', 'interp ref only layer', 'interp heating ref only',
          'interp ref baro', 'interp ref layer only baro']


def zero(I, p):
    return p is T.ZERO or (I.ctx.prove(p) and I.ctx.prove(T.neg(p)))


class Options:
    def __init__(self, cls, odd, nh, levels, forcing, kind):
        self.cfg = oop.Config('QGFieldNH18' if cls == 'QGField' else cls, odd=odd, nh=nh, levels=levels)
        self.cls, self.forcing, self.kind = cls, forcing, kind
        self.label = '%s,%s%s%s' % (self.cfg.label().replace(self.cfg.cls, cls),
                                    'forcing' if forcing else 'no forcing', ',' if kind else '', kind)

    def lats(self):
        """(number of reported latitudes, first reported row)"""
        c = self.cfg
        if not c.nh:
            return c.nlat, T.ZERO
        return (M + 1 if c.odd else M), M

    def dims(self, names):
        n, _ = self.lats()
        return tuple(lift({'k': self.cfg.kmax, 'j': n, 'J': self.cfg.nlat, 'i': NLON}[x]) for x in names)


def job(opts, order):
    op = Options(*opts)
    cfg = op.cfg
    I = world.interp()
    I.kernel_hook = lambda k, n: NIT if n == 'num_of_iter' else None
    out = []

    def add(what, ok, w, d=''):
        out.append(rec('%s [%s]: %s' % (op.label, order, what), ok, w, d, 1))

    def where(n):
        return R.where(I, cfg, 'x/' + n)

    def shape(n, v, names, w):
        want = op.dims(names)
        if isinstance(v, Unk):
            add('%s has shape %s' % (n, names), OPEN, w, str(v))
            return
        if not isinstance(v, Arr):
            add('%s has shape %s' % (n, names), BAD, w, 'is %s' % type(v).__name__)
            return
        if v.sel or v.flat:
            add('%s has shape %s' % (n, names), OPEN, w, 'selection')
            return
        if len(v.shape) == len(want) and all(a is b or zero(I, sub(a, b)) for a, b in zip(v.shape, want)):
            add('%s has shape %s' % (n, names), PROVED, w)
        else:
            add('%s has shape %s' % (n, names), VBAD, w, 'shape is %s' % (v.shape,))

    args = oop.inputs(I, cfg)
    over = {'maxit': NIT + oop.MAXIT} if cfg.scheme == 'NH18' else {}
    if op.kind == 'boundary':
        over['eq_boundary_index'] = num(3)
    elif op.kind == 'npart':
        over['npart'] = oop.NPART
    elif op.kind == 'warn':
        over['raise_error_for_nonconvergence'] = False
    elif op.kind == 'defaults':
        over = dict(maxit=over.get('maxit', oop.MAXIT), scale_height=oop.DROP, cp=oop.DROP, dry_gas_constant=oop.DROP,
                    omega=oop.DROP, planet_radius=oop.DROP, tol=oop.DROP, rjac=oop.DROP)
        if not cfg.levels:
            over['dz'] = oop.DROP
    c2 = oop.Config(cfg.cls, odd=cfg.odd, nh=cfg.nh, levels=cfg.levels)
    c2.cls = op.cls
    kind, o, cond = R.attempt(I, lambda: oop.construct(I, c2, args, **over))
    if kind != 'value':
        add('construction', OPEN if kind == 'open' else BAD, where('__init__'), str(o))
        return out + [R.meta_rec(I)]
    add('construction', PROVED, where('__init__'))
    stages = order.split()
    for st in stages:
        m = METHOD[st]
        a, kw = [], {}
        if st == 'heating':
            a = [oop.array(I, 'heating', (oop.NLEV if not cfg.levels else cfg.kmax, cfg.nlat, NLON))]
        if st in ('baro', 'layer') and op.forcing:
            nl = 2 * M + 1 if op.forcing == 'analysis' else cfg.nlat
            kw['ncforce'] = oop.array(I, 'ncforce', (cfg.kmax, nl, NLON))
        if op.kind == 'no tuple' and st in ('interp', 'ref', 'baro'):
            kw['return_named_tuple'] = False
        if op.kind == 'deprecated' and st in ('ref', 'baro'):
            kw['northern_hemisphere_results_only'] = True
        kind, v, cond = R.attempt(I, lambda: oop.call(I, o, m, *a, **kw))
        w = where(m)
        if kind == 'open':
            add('%s returns' % m, OPEN, w, v)
            break
        if kind == 'raise' or cond:
            add('%s returns' % m, BAD, w, 'raises %s' % (v if kind == 'raise' else '%s: %s under a condition' % (
                cond[0].value.name, cond[0].value.msg)))
            break
        add('%s returns' % m, PROVED, w)
        if st == 'heating':
            shape('the forcing of the heating rate', I.force(v), GLOBAL3, w)
        if st in TUPLE:
            if op.kind == 'no tuple':
                add('%s returns nothing' % m, PROVED if v is None else BAD, w)
            else:
                names = TUPLE[st]
                v = I.force(v)
                items = list(I.items(v)) if isinstance(v, (NTuple, tuple)) else None
                if items is None or len(items) < len(names):
                    add('%s returns %d results' % (m, len(names)), BAD if not isinstance(v, Unk) else OPEN, w)
                else:
                    for (n, names_), x in zip(names, items):
                        if isinstance(v, NTuple):
                            kind, x, _ = R.attempt(I, lambda: I.getattr_(v, n))
                            if kind != 'value':
                                add('%s has the field %s' % (m, n), BAD, w, str(x))
                                continue
                        shape('%s.%s' % (m, n), I.force(x), names_, w)
        for n in LISTS.get(st, []):
            kind, v, cond = R.attempt(I, lambda: oop.attr(I, o, n))
            if kind == 'open':
                add('%s returns' % n, OPEN, where(n), v)
            elif kind == 'raise' or cond:
                add('%s returns' % n, BAD, where(n), 'raises %s' % (v if kind == 'raise' else cond[0].value.name))
            else:
                shape(n, v, SHAPE['%s/%s' % (st, n)], where(n))
        if st == 'interp':
            kind, v, cond = R.attempt(I, lambda: oop.attr(I, o, 'static_stability'))
            parts = v if isinstance(v, tuple) else (v,)
            want = 2 if cfg.scheme == 'NHN22' and not cfg.nh else 1
            w = where('static_stability')
            if kind != 'value' or len(parts) != want:
                add('static stability is %d profile(s)' % want, OPEN if kind == 'open' else BAD, w, str(v))
            else:
                for x in parts:
                    shape('static_stability', I.force(x), ('k',), w)
    # coordinates reported with the results
    n, first = op.lats()
    ix0 = T._IXS[0]
    lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(1,), levels=(0,))
    ylat, xlon = args[1], args[0]
    coords = [('ylat', cfg.nlat, I.read(ylat)), ('xlon', NLON, I.read(xlon)),
              ('ylat_ref_states', n, T.subst_any(I.read(ylat), {ix0: ix(0) + first}))]
    if not cfg.levels and op.kind != 'defaults':
        coords.append(('height', cfg.kmax, ix(0) * oop.P['dz']))
    for name, size, term in coords:
        kind, v, cond = R.attempt(I, lambda: oop.attr(I, o, name))
        w = where(name)
        if kind != 'value' or not isinstance(v, Arr):
            add('coordinate %s' % name, OPEN if kind == 'open' else BAD, w, str(v))
            continue
        size = lift(size)
        if len(v.shape) != 1 or not zero(I, sub(v.shape[0], size)):
            add('coordinate %s has length %s' % (name, size), VBAD, w, 'shape is %s' % (v.shape,))
            continue
        add('coordinate %s has length %s' % (name, size), PROVED, w)
        if term is None:
            continue
        s, d, np_ = lad.compare(C.Side((size,), term), oop.snapshot(I, v), limit=60)
        out.append(rec('%s [%s]: coordinate %s has the values of the input grid' % (op.label, order, name), s, w, d,
                       np_))
    if o is not None:
        kind, v, cond = R.attempt(I, lambda: oop.call(I, o, 'get_latitude_dim'))
        v = lift(I.force(v)) if kind == 'value' and not isinstance(v, Unk) else v
        ok = kind == 'value' and isinstance(v, T.Poly) and zero(I, sub(v, lift(cfg.nlat)))
        add('get_latitude_dim is the number of input latitudes', PROVED if ok else BAD, where('get_latitude_dim'), str(v))
    out.append(R.meta_rec(I))
    return out


def op_job(prop, name, parity):
    loc, f, pars, sizes, params, skip = ops.CASES[prop][name]
    I = world.interp()
    label = '%s (%s latitudes) returns' % (name, 'odd' if parity else 'even')
    mod, fn = loc.rsplit('.', 1)
    w = F.funcloc(I, I.h[I.load_module('falwa.' + mod).nsid].get(fn))
    kind, v, cond = R.attempt(I, lambda: f(ops.World(I, parity), None))
    if kind == 'open':
        return [rec(label, OPEN, w, v), ops.meta(I)]
    if kind == 'raise' or cond:
        return [rec(label, BAD, w, 'raises %s' % (v if kind == 'raise' else '%s: %s under a condition' % (
            cond[0].value.name, cond[0].value.msg))), ops.meta(I)]
    return [rec(label, PROVED, w, '', 1), ops.meta(I)]


def run(rep):
    rep.level = 'proof'
    rep.rule = ('every path through the stage or accessor ends in a return, and the shape of the returned array equals '
                'the symbolic shape of the documented axes')
    rep.explanation = ('Stages and accessors are interpreted with symbolic sizes for every option combination; all exits '
                       'are collected and shapes are compared as polynomials in the sizes.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['converging reference-state iterations (the others are decided under P07)',
                                       'rejections in the constructor are decided under P17']
    rep.minimum = 300
    jobs = []
    for cls in ('QGFieldNH18', 'QGFieldNHN22', 'QGField'):
        for odd in (True, False):
            for nh in (False, True):
                for levels in (False, True):
                    if cls == 'QGField' and (levels or not odd):
                        continue
                    for k, fc in enumerate((None, 'input', 'analysis')):
                        if fc == 'analysis' and odd:
                            continue
                        jobs.append((job, ((cls, odd, nh, levels, fc, ''), ORDERS[0])))
                    for od in ORDERS[1:]:
                        jobs.append((job, ((cls, odd, nh, levels, None, ''), od)))
                for kind in ('no tuple', 'npart', 'defaults', 'deprecated') + (
                        ('boundary',) if cls == 'QGFieldNHN22' else ('warn',)):
                    jobs.append((job, ((cls, odd, nh, False, None, kind), ORDERS[0])))
    for p in ('P20', 'P21'):
        jobs += [(op_job, (p, n, x)) for n, c in ops.CASES[p].items() for x in c[2]]
    rep.run(jobs, limit=600)
    rep.recs = F.meta(rep, rep.recs)
