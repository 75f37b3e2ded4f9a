"""Every subscript of the compiled kernels lies inside its array."""
import random
from sa import world, oop, compare as C, evalt, fort, ranges, terms as T
from sa.report import rec, PROVED, AGREE, BAD, OPEN
from sa.ranges import Ctx
from . import formulas as F

CFG = {'a': dict(), 'b': dict(odd=False), 'c': dict(npart=True), 'd': dict(levels=True, nh=True),
       'e': dict(cls='QGFieldNHN22'), 'f': dict(cls='QGFieldNHN22', odd=False), 'g': dict(cls='QGFieldNHN22', jb=0),
       'h': dict(cls='QGFieldNHN22', jb=1), 'i': dict(cls='QGFieldNHN22', jb=3, odd=False),
       'j': dict(cls='QGFieldNHN22', jb=8), 'k': dict(cls='QGFieldNHN22', jb=2, nh=True, levels=True)}
QUICK = 'abcdefghi'
STAGES = ('interp', 'ref', 'baro', 'layer', 'only', 'heating')


def calls(key):
    """[(kernel, integer arguments, context)] of all kernel calls of a configuration"""
    cf = CFG[key]
    cfg = oop.Config(**cf)
    if cfg.cls == 'QGFieldNHN22':
        jb = 5 if cfg.jb is None else cfg.jb
        ranges.PARAM_MIN[world.M.single().id] = max(6, jb + 2)
    I = world.interp()
    oop.run(I, cfg, stages=STAGES)
    out, seen = [], set()
    for name, loc, g, argv, st, wh, cx in I.kcalls:
        ints = {n: v for n, v in st.items() if isinstance(v, T.Cond) or v.isint}
        fv = set()
        for v in ints.values():
            fv |= set(v.fv)
        key = (name,) + tuple(sorted((n, str(v)) for n, v in ints.items() if not (fv & set(v.fv))))
        if key in seen:
            continue
        seen.add(key)
        out.append((name, ints, Ctx({a: r for a, r in cx.ranges.items() if a in fv}, ())))
    return cfg, I, out


def label(cfg, name):
    return '%s%s: %s' % (cfg.label(), '' if cfg.jb is None else ',boundary index %d' % cfg.jb, name)


def constant(ev, idx):
    return 3.0


def undefined(ev, idx):
    return float('nan') if idx and idx[0] == 0 else 0.25 + evalt.hrand(ev.seed, 'part', idx)


DATA = {'any': None, 'uniform': constant, 'partly undefined': undefined}


def watch(I, k, ints, ctx, keys, cfg, seed, tier):
    """{key: None | text of a violating input}"""
    res = k.analyse(I.routines, ints, ctx, watch=keys)
    bad, n = {}, 0
    jb = 0 if cfg.cls != 'QGFieldNHN22' else 5 if cfg.jb is None else cfg.jb
    sizes = [{'m': max(6, jb + 2), 'nlon': 4, 'kmax': 5, 'nlev': 6, 'npart': 3, 'maxit': 2},
             {'m': max(7, jb + 4), 'nlon': 5, 'kmax': 6, 'nlev': 7, 'npart': 9, 'maxit': 2}]
    if tier != 'quick':
        sizes += [{'m': jb + 9, 'nlon': 6, 'kmax': 8, 'nlev': 5, 'npart': 21, 'maxit': 3}]
    params = F._kp(k.name, {'m': 6, 'nlon': 4}) if k.name in F.HIST else {}
    for s in sizes:
        if k.name in F.HIST:
            params = F._kp(k.name, s)
        for data, f in DATA.items():
            fields = {(k.name, str(p)): f for p in range(len(k.r.args))} if f else {}
            ev = C.evaluator(None, seed, s, params, fields, budget=4000000)
            ev.nanint = -2 ** 31
            for b in bindings(ctx, ev):
                for key in keys:
                    if key in bad:
                        continue
                    c = res.watch[key]
                    try:
                        if ev.cond(c, dict(b)):
                            bad[key] = '%s data, sizes %s' % (data, {x: y for x, y in s.items() if x in ('m', 'nlon', 'kmax')})
                    except evalt.Undecided:
                        continue
                    n += 1
    return bad, n


def bindings(ctx, ev):
    out = [{}]
    for a, (lo, hi) in ctx.ranges.items():
        out = [dict(b, **{}) for b in out]
        new = []
        for b in out:
            try:
                l, h = ev.int(lo, b), ev.int(hi, b)
            except evalt.Undecided:
                continue
            for x in sorted({l, l + 1, h}):
                if l <= x <= h:
                    nb = dict(b)
                    nb[a] = x
                    new.append(nb)
        out = new
    return out


def names(key):
    cfg, I, cs = calls(key)
    return [rec(key, 'called', n) for n in sorted({c[0] for c in cs})]


def job(key, name, seed, tier):
    cfg, I, cs = calls(key)
    out = []
    for nm, ints, ctx in cs:
        if nm != name:
            continue
        k = I.kernels[name]
        lab = label(cfg, name)
        w = '%s:%s %s' % (F.rel(k.r.path), getattr(k.r, 'line', '?'), name)
        try:
            res = k.analyse(I.routines, ints, ctx)
        except (fort.Unsupported, T.TooBig, T.DivZero) as e:
            out.append(rec(lab, OPEN, w, str(e)))
            continue
        keys = {}
        for o in res.bounds:
            keys.setdefault(o.key, []).append(o)
        loose = [q for q, os in keys.items() if not all(o.ok for o in os)]
        hit, n = {}, 0
        if loose:
            try:
                hit, n = watch(I, k, ints, ctx, loose, cfg, seed, tier)
            except (fort.Unsupported, T.TooBig, T.DivZero) as e:
                out.append(rec(lab, OPEN, w, str(e)))
        for q, os in keys.items():
            o = os[0]
            txt = '%s: %s of axis %d of %s' % (lab, o.kind, o.axis + 1, o.array)
            kk = '%s, access %d' % (txt, [x for x in keys if x[:4] == q[:4]].index(q) + 1)
            wh = '%s:%d %s' % (F.rel(I.routines[q[0]].path) if q[0] in I.routines else '?', o.line, q[0])
            if q not in loose:
                out.append(rec(kk, PROVED, wh, '', len(os)))
            elif q in hit:
                u = [x for x in os if not x.ok][0]
                out.append(rec(kk, BAD, wh, '%s leaves its bounds for %s (extent %s)' % (
                    str(u.idx)[:120], hit[q], u.dim)))
            else:
                out.append(rec(kk, AGREE, wh, '', n))
    return out


def run(rep):
    rep.level = 'proof'
    rep.rule = ('for every array reference of every kernel, the range and linear analysis proves lower bound <= '
                'subscript <= upper bound and equal extents of array operands, for all sizes and all data; a reference '
                'that is not proved is followed as a condition through the loops of the kernel and evaluated')
    rep.explanation = ('Integer arguments of the kernels are those of the abstract run of the field objects; loop '
                       'variables range over their symbolic bounds; conditions of the enclosing branches are assumed.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['the boundary index leaves at least three latitude rows']
    rep.minimum = 900
    jobs = []
    found = rep.run([(names, (key,)) for key in (QUICK if rep.tier == 'quick' else CFG)], limit=300)
    rep.recs = [r for r in found if r['status'] != 'called']
    for r in found:
        if r['status'] == 'called':
            jobs.append((job, (r['key'], r['where'], rep.seed, rep.tier)))
    jobs.sort(key=lambda j: j[1][1] not in F.HIST)
    rep.run(jobs, limit=800)
