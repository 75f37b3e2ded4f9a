"""Influence of never assigned memory on reported values."""
import random
from sa import world, oop, compare as C, evalt, evlib, terms as T, pyabs
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk
from . import formulas as F, relate as R, ops

CFG = {
    'a': dict(), 'd': dict(odd=False, nh=True), 'e': dict(cls='QGFieldNHN22'), 'f': dict(cls='QGFieldNHN22', nh=True),
    'h': dict(levels=True), 'b': dict(nh=True), 'c': dict(odd=False), 'g': dict(cls='QGFieldNHN22', odd=False),
    'i': dict(cls='QGFieldNHN22', levels=True), 'j': dict(ncforce=True),
}
QUICK = 'adefhj'
# outputs of the potential-vorticity kernels that have no value by definition (f2py returns zeros)
EDGE = {('compute_qgpv', 'pv'), ('compute_qgpv_direct_inv', 'pv')}


def cell(idx, shape):
    if shape is None or not idx:
        return ''
    out = []
    for i, s in zip(idx, shape):
        out.append('first' if i == 0 else 'last' if i == s - 1 else 'inner')
    return ','.join(out)


class Memory:
    """contents of unassigned memory: zero except for the chosen classes of cells"""

    def __init__(self, seed, only=None, fill='a'):
        self.seed, self.only, self.fill, self.seen = seed, only, fill, set()

    def __call__(self, kind, args, idx, shape):
        k = (kind, args[0].split('/')[-1] if kind != 'undef' else args[0], str(args[1]), cell(idx, shape))
        if kind == 'unset' and (k[1], k[2]) in EDGE and idx[-1] in (0, shape[-1] - 1):
            return 0.0
        self.seen.add(k)
        if self.only is not None and k not in self.only:
            return 0.0
        return (evalt.hrand(self.seed, self.fill, kind, args, idx) - 0.5) * 20


def evaluators(I, sizes, seed, params=None, fields=None, parity=None):
    mean = evlib.Meaning(I.routines, I.kernels, C.Ctx(), set())

    def ev(only, fill):
        e = C.evaluator(mean, seed, sizes, params or {}, dict(fields or C.FIELDS))
        e.parity = parity
        e.unset_random = Memory(seed, only, fill)
        return e
    return ev


def influences(make, side, limit, seed, cache):
    """(status, detail, points, {class: example point})"""
    if 'base' not in cache:
        cache['base'] = (make(set(), 'a'), make(None, 'b'), make(None, 'c'))
    e0, ea, eb = cache['base']
    rnd = random.Random(seed)
    try:
        sh = [e0.int(x, {}) for x in side.shape]
    except evalt.Undecided as e:
        return OPEN, str(e), 0, {}
    hit, n = {}, 0
    for idx in C.points(sh, limit, rnd):
        b = {T._IXS[i]: x for i, x in enumerate(idx)}
        try:
            v = [C._val(e, side.elem, b) for e in (e0, ea, eb)]
        except evalt.Undecided as e:
            return OPEN, str(e), n, {}
        except (RecursionError, OverflowError) as e:
            return OPEN, type(e).__name__, n, {}
        n += 1
        if any(evalt.differ(v[0], x, 1e-9) for x in v[1:]):
            for k in sorted(ea.unset_random.seen | eb.unset_random.seen):
                if k in hit:
                    continue
                c = cache.get(k) or cache.setdefault(k, make({k}, 'd'))
                try:
                    if evalt.differ(v[0], C._val(c, side.elem, b), 1e-9):
                        hit[k] = idx
                except evalt.Undecided:
                    pass
            if not hit:
                hit[('several', '', '', '')] = idx
    return (VBAD if hit else AGREE), '', n, hit


def text(k):
    kind, a, n, c = k
    if kind == 'several':
        return 'unassigned memory'
    if kind == 'undef':
        return '%s %s%s' % (a, n.split('%')[-1] if a != 'np.empty' else n.replace('(\'', '').replace('\')', '').replace('\', ', ' '), '(%s)' % c if c else '')
    return '%s %s%s' % (a, n, '(%s)' % c if c else '')


def flatten(d):
    for n, s in d.items():
        if isinstance(s, tuple):
            yield from flatten({'%s.%d' % (n, i): x for i, x in enumerate(s)})
        else:
            yield n, s


def field_job(key, seed, tier):
    cfg = oop.Config(**CFG[key])
    I = world.interp()
    r = oop.run(I, cfg, stages=('interp', 'ref', 'baro', 'layer', 'only', 'heating'))
    out, cache = [], {}
    sizes = R.sizes_for(cfg)
    make = evaluators(I, sizes, seed)
    hits = {}
    for n, s in flatten(R.flat(r)):
        if n == 'object':
            continue
        w = R.where(I, cfg, n)
        k = '%s: %s does not depend on unassigned memory' % (cfg.label(), n)
        if not isinstance(s, C.Side):
            if isinstance(s, (PyRaise, pyabs.Dead)):
                continue
            out.append(rec(k, OPEN, w, str(s)))
            continue
        st, d, np_, hit = influences(make, s, 80 if tier == 'quick' else 400, seed, cache)
        for c, idx in hit.items():
            hits.setdefault(c, (n, idx, w))
        if not hit:
            out.append(rec(k, st, w, d, np_))
    for c, (n, idx, w) in hits.items():
        out.append(rec('%s/%s' % (text(c).replace(' ', '/'), cfg.cls), VBAD, w,
                       '%s: %s%s depends on memory that is never assigned (%s)' % (cfg.label(), n, idx, text(c))))
    out.append(R.meta_rec(I))
    return out


def op_job(prop, name, parity, seed, tier):
    loc, f, pars, sizes, params, skip = ops.CASES[prop][name]
    I = world.interp()
    label = '%s (%s latitudes)' % (name, 'odd' if parity else 'even')
    mod, fn = loc.rsplit('.', 1)
    w = F.funcloc(I, I.h[I.load_module('falwa.' + mod).nsid].get(fn))
    try:
        r = [(k, oop.snapshot(I, v)) for k, v in ops.items(I, f(ops.World(I, parity), None))]
    except (PyRaise, pyabs.Dead):
        return [ops.meta(I)]                 # decided under P18 and P20/P21
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return [rec(label, OPEN, w, str(e)), ops.meta(I)]
    out, cache = [], {}
    make = evaluators(I, dict(ops.SIZES, **sizes), seed, dict(ops.PARAMS, **params), ops.FIELDS, parity)
    for k, x in r:
        key = '%s: %s does not depend on unassigned memory' % (label, k)
        if not isinstance(x, C.Side):
            out.append(rec(key, OPEN if isinstance(x, Unk) else PROVED, w, '' if not isinstance(x, Unk) else str(x)))
            continue
        st, d, n, hit = influences(make, x, 150 if tier == 'quick' else 500, seed, cache)
        if hit:
            c, idx = next(iter(hit.items()))
            d = 'the value at %s depends on memory that is never assigned (%s)' % (idx, text(c))
        out.append(rec(key, st, w, d, n))
    out.append(ops.meta(I))
    return out


def run(rep):
    rep.level = 'other'
    rep.rule = ('the term of each reported value, with all kernels unfolded, takes the same values whatever is put in '
                'the cells of local arrays, outputs and np.empty arrays that no assignment reaches')
    rep.explanation = ('Definite assignment: cells that are read before any assignment stay in the terms as symbols of '
                       'their own; terms are evaluated with different contents of these symbols.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['the potential vorticity of the lowest and highest level has no value and is '
                                       'reported as the zeros f2py puts into output arrays']
    rep.minimum = 150
    jobs = [(field_job, (k, rep.seed, rep.tier)) for k in (QUICK if rep.tier == 'quick' else CFG)]
    for p in ('P20', 'P21'):
        jobs += [(op_job, (p, n, x, rep.seed, rep.tier)) for n, c in ops.CASES[p].items() for x in c[2]]
    rep.run(jobs, limit=800)
    rep.recs = F.meta(rep, rep.recs)
