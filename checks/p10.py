"""Local wave activity is never negative."""
import random
from sa import world, oop, compare as C, evlib, evalt, terms as T, pyabs, signs
from sa.ranges import Ctx
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk
from . import formulas as F, relate as R, ops

WAVE = {'lwa', 'lwa_baro', 'astar1', 'astar2'}
CFG = {k: F.CONFIGS[k] for k in 'abcdefghikl'}
OPS = {'lwa': None, 'barotropic_eqlat_lwa': ('result 1',), 'barotropic_input_qref_to_compute_lwa': None,
       'qgpv_eqlat_lwa': ('result 1',), 'qgpv_eqlat_lwa_ncforce': ('result 1',), 'theta_lwa': ('result 1',),
       'qgpv_eqlat_lwa_options': ('lwa_result',), 'qgpv_input_qref_to_compute_lwa': None, 'BarotropicField': ('lwa',)}
POS = [oop.P[n] for n in ('dz', 'h', 'cp', 'R', 'omega', 'a')]
FIELDS = ('dmu', 'area', 'area1')


def decide(pr, side, evs, limit, seed):
    """(status, detail, points)"""
    ctx = Ctx()
    for i, s in enumerate(side.shape):
        ctx = ctx.with_range(T.ix(i), T.ZERO, T.sub(s, T.ONE))
    try:
        if pr.nonneg(side.elem, ctx):
            return PROVED, '', 0
    except (T.TooBig, T.DivZero, RecursionError):
        pass
    n, vals = 0, []
    for ev in evs:
        try:
            sh = [ev.int(s, {}) for s in side.shape]
            for idx in C.points(sh, limit, random.Random(seed)):
                vals.append((C._val(ev, side.elem, {T._IXS[i]: x for i, x in enumerate(idx)}), idx))
                n += 1
        except (evalt.Undecided, RecursionError, OverflowError) as e:
            return OPEN, str(e), n
    big = max([abs(v) for v, i in vals if v == v and abs(v) != float('inf')] or [0.0])
    bad = [(v, i) for v, i in vals if v < -1e-9 * big]
    if bad:
        return VBAD, 'at %s the value is %.6g' % (bad[0][1], bad[0][0]), n
    if not n or all(v != v for v, i in vals):
        return OPEN, 'undefined everywhere', n
    return AGREE, 'never negative at the sampled points', n


def field_job(key, seed, tier):
    cfg = CFG[key]
    I = world.interp()
    try:
        r = R.flat(oop.run(I, cfg, stages=('interp', 'ref', 'baro', 'layer')))
        r2 = R.flat(oop.run(I, cfg, stages=('interp', 'ref', 'only')))
        r.update({k: v for k, v in r2.items() if k.startswith(('only/', 'error/only', 'open/only'))})
    except PyRaise as e:
        return [rec('%s/construct' % cfg.label(), BAD, '', 'construction fails: %s' % R._exc(e))]
    pr = signs.Prover([p.single().id for p in POS], I.kernels, I.routines)
    mean = evlib.Meaning(I.routines, I.kernels, C.Ctx(), set(evlib.OPAQUE))
    evs = [C.evaluator(mean, seed + i, R.sizes_for(cfg), {}, dict(C.FIELDS)) for i in range(2)]
    out = []
    for n in sorted(r):
        st, q = (n + '/').split('/')[:2]
        q = q.split('.')[0]
        if q not in WAVE or st in ('error', 'open', 'object', 'tuple', 'grid'):
            continue
        w, k, v = R.where(I, cfg, n.split('.')[0]), '%s:%s is never negative' % (cfg.label(), n), r[n]
        if not isinstance(v, C.Side):
            out.append(R.unusable(k, w, v, r, st))
            continue
        s, d, np_ = decide(pr, v, evs, 150 if tier == 'quick' else 600, seed)
        out.append(rec(k, s, w, d, np_))
    out.append(R.meta_rec(I))
    return out


def op_job(name, parity, seed, tier):
    loc, f, pars, sizes, params, skip = ops.CASES['P20'][name]
    I = world.interp()
    label = '%s (%s latitudes)' % (name, 'odd' if parity else 'even')
    mod, fn = loc.rsplit('.', 1)
    w = F.funcloc(I, I.h[I.load_module('falwa.' + mod).nsid].get(fn))
    if w == '?':
        w = 'src/falwa/%s.py %s' % (mod, fn)
    try:
        r = [(k, oop.snapshot(I, v)) for k, v in ops.items(I, f(ops.World(I, parity), None))]
    except (PyRaise, pyabs.Dead) as e:
        return [rec(label, BAD, w, 'raises %s' % F._exc(e)), ops.meta(I)]
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return [rec(label, OPEN, w, str(e)), ops.meta(I)]
    pr = signs.Prover([p.single().id for p in POS + [ops.A]], I.kernels, I.routines, FIELDS, ('ylat',))
    mean = evlib.Meaning(I.routines, I.kernels, C.Ctx(), set())
    evs = []
    for i in range(2):
        e = C.evaluator(mean, seed + i, dict(ops.SIZES, **sizes), dict(ops.PARAMS, **params), ops.FIELDS)
        e.parity = parity
        evs.append(e)
    out = []
    for k, x in r:
        if OPS[fn] is not None and k not in OPS[fn] or OPS[fn] is None and k not in ('result', 'result 0'):
            continue
        key = '%s: %s is never negative' % (label, k)
        if not isinstance(x, C.Side):
            out.append(rec(key, OPEN if isinstance(x, Unk) else BAD, w, 'returns %r' % (x,)))
            continue
        s, d, np_ = decide(pr, x, evs, 200 if tier == 'quick' else 600, seed)
        out.append(rec(key, s, w, d, np_))
    out.append(ops.meta(I))
    return out


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term of each wave activity is nonnegative: gated summands have the sign of their gate, weights and '
                'cosines of latitudes are nonnegative on the index ranges')
    rep.explanation = ('Sign analysis of the closed-form terms by structure (products, gates with their condition as a '
                       'fact, sums over common ranges); the potential vorticity and the reference state are '
                       'arbitrary.  A term the rules do not cover is searched for a negative value at random points '
                       'of the term algebra.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['latitudes ascend; area and length elements given by the user are not negative',
                                       'physical constants and the level spacing are positive']
    rep.minimum = 60
    jobs = [(field_job, (k, rep.seed, rep.tier)) for k in CFG]
    jobs += [(op_job, (n, x, rep.seed, rep.tier)) for n, c in ops.CASES['P20'].items()
             if c[0].rsplit('.', 1)[1] in OPS for x in c[2]]
    rep.run(jobs, limit=600)
    rep.recs = F.meta(rep, rep.recs)
