"""Comparison of the package's terms with the reference formulas (shared by several checks)."""
import os
from sa import world, oop, compare as C, evlib, fort, evalt, terms as T, pyabs, report
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk, PropV, FuncV
from sa.terms import sym, lift, num, ix, TRUE
from sa.ranges import Ctx
from sa.world import M, NLON, KMAX, NND

RULE = ('the closed-form term of a reported quantity, obtained by abstract interpretation of the Python and Fortran '
        'sources, denotes the same function of the inputs as the term of the reference formula')
TRUSTED = ['sa/ (parsers, abstract interpreter, term algebra)', 'spec/ (reference formulas)',
           'numpy/scipy transfer functions in sa/npmodel.py']
ASSUMPTIONS = ['real arithmetic: rounding is not modelled', 'f2py zero-fills intent(out) arrays',
               'sizes: at least 6 latitudes per hemisphere, 4 longitudes, 5 levels',
               'a term pair that differs in normal form is accepted when equal at random points of the term algebra']

SIZES = [dict(C.BASE_SIZES), dict(C.BASE_SIZES, m=8, nlon=5, kmax=7, nlev=9, nnd=10),
         dict(C.BASE_SIZES, m=9, nlon=6, kmax=8, nlev=11, nnd=7)]


def sizes_for(cfg, tier):
    out = []
    for s in SIZES[:1] if tier == 'quick' else SIZES:
        s = dict(s)
        if cfg.scheme == 'NHN22':
            s['m'] += 4              # leave rows between the boundary and the pole
        out.append(s)
    return out


CONFIGS = {
    'a': oop.Config(), 'b': oop.Config(nh=True, ncforce=True), 'c': oop.Config(odd=False, ncforce=True),
    'd': oop.Config(odd=False, nh=True), 'e': oop.Config('QGFieldNHN22', ncforce=True),
    'f': oop.Config('QGFieldNHN22', nh=True), 'g': oop.Config('QGFieldNHN22', odd=False),
    'h': oop.Config(levels=True, ncforce=True),
    'i': oop.Config('QGFieldNHN22', levels=True, nh=True, odd=False, ncforce=True),
    'j': oop.Config('QGFieldNHN22', kmax=6), 'k': oop.Config(npart=True), 'l': oop.Config('QGFieldNHN22', jb=4),
}
MORE = {
    'm': oop.Config(odd=False, levels=True), 'n': oop.Config(nh=True, levels=True, npart=True),
    'o': oop.Config('QGFieldNHN22', odd=False, nh=True), 'p': oop.Config('QGFieldNHN22', levels=True),
    'q': oop.Config('QGFieldNHN22', odd=False, levels=True, ncforce=True, jb=3), 'r': oop.Config(kmax=5, odd=False),
    's': oop.Config(odd=False, nh=True, ncforce=True, levels=True),
    't': oop.Config('QGFieldNHN22', nh=True, ncforce=True, jb=6),
}

STAGE_METHOD = {'interp': 'interpolate_fields', 'ref': 'compute_reference_states',
                'baro': 'compute_lwa_and_barotropic_fluxes', 'layer': 'compute_layerwise_lwa_fluxes',
                'only': 'compute_lwa_only', 'heating': 'compute_ncforce_from_heating_rate', 'grid': '__init__'}


def rel(path):
    return os.path.relpath(path, world.REPO) if path else '?'


def funcloc(I, f):
    if isinstance(f, PropV):
        f = f.fget
    if isinstance(f, FuncV):
        m = f.module
        return '%s:%d %s%s' % (rel(getattr(m, 'path', None) or os.path.join(
            world.SRC, (m.name.split('.')[-1] if m else '?') + '.py')), f.node.lineno,
            (f.cls.name + '.') if f.cls else '', f.name)
    return '?'


def where(I, cfg, obs):
    mod = I.load_module('falwa.oopinterface')
    cls = I.h[mod.nsid].get(cfg.cls)
    st, n = obs.split('/')[:2]
    out = []
    f = I.class_lookup(cls, n)
    if f is not None:
        out.append(funcloc(I, f))
    f = I.class_lookup(cls, STAGE_METHOD.get(st, '__init__'))
    if f is not None:
        out.append(funcloc(I, f))
    return ' <- '.join(out)


def pairs(r, s, names):
    for n in sorted(s):
        if not names(n):
            continue
        a, b = r.get(n), s[n]
        A = a if isinstance(a, tuple) else (a,)
        B = b if isinstance(b, tuple) else (b,)
        if len(A) != len(B):
            yield n, a, b, 'count'
            continue
        for i, (x, y) in enumerate(zip(A, B)):
            yield (n if len(A) == 1 else '%s.%d' % (n, i)), x, y, None


def decide(levels, x, y, evss, seeds, sizes, limit):
    """the decision ladder; x, y: Side"""
    res = None
    n = 0
    for lv, (ma, mb) in enumerate(levels):
        x.meaning, y.meaning = ma, mb
        res = C.compare(x, y, evs=evss[lv], limit=limit, seeds=seeds, sizes=sizes)
        n += res.npoints
        if res.status in ('proved', 'agree'):
            res.npoints = n
            return res, lv
    res.npoints = n
    return res, lv


def config_job(key, select, seed, tier, start=0, stages=('interp', 'ref', 'baro', 'layer', 'only', 'heating')):
    """compare every selected observable of one configuration with the reference"""
    cfg = (CONFIGS.get(key) or MORE[key])
    names = select if callable(select) else (lambda n: n.split('/')[0] in select)
    I, J = world.interp(), oop.spec_interp()
    try:
        r = oop.run(I, cfg, stages=tuple(s for s in stages if s != 'only'))
        if 'only' in stages:
            r2 = oop.run(I, cfg, stages=('interp', 'ref', 'only'))
            r.update({k: v for k, v in r2.items() if k.startswith(('only/', 'error/only', 'open/only'))})
    except PyRaise as e:
        return [rec('%s/construct' % key, BAD, rel(str(I.loc)), 'construction fails: %s %s' % (e.name, e.msg))]
    s = oop.spec_run(J, cfg, stages=tuple(['flux'] + (['only'] if 'only' in stages else []) +
                                          (['heating'] if 'heating' in stages else [])))
    out = []
    quick = tier == 'quick'
    seeds = (seed,) if quick else (seed, seed + 100)
    limit = 160 if quick else 500
    lvs = [oop.meanings(I, J, o) for o in ('all', evlib.OPAQUE, set())][start:]
    for si, sizes in enumerate(sizes_for(cfg, tier)):
        evss = [{} for _ in lvs]
        for n, x, y, err in pairs(r, s, names):
            k = '%s:%s' % (cfg.label(), n)
            if si:
                k += ':m=%d' % sizes['m']
            w = where(I, cfg, n.split('.')[0])
            st = n.split('/')[0]
            if err:
                out.append(rec(k, BAD, w, 'number of results'))
            elif isinstance(x, (PyRaise, pyabs.Dead)) or (x is None and 'error/' + st in r):
                e = x if x is not None else r['error/' + st]
                out.append(rec(k, BAD, w, 'raises %s' % _exc(e)))
            elif x is None and 'open/' + st in r or not isinstance(y, C.Side) or isinstance(x, Unk):
                out.append(rec(k, OPEN, w, str(r.get('open/' + st, x))))
            elif not isinstance(x, C.Side):
                if x is None and any(q.startswith(('error/', 'open/')) for q in r):
                    e = [q for q in r if q.startswith(('error/', 'open/'))][0]
                    out.append(rec(k, BAD if e.startswith('error') else OPEN, w, '%s %s' % (e, _exc(r[e]))))
                else:
                    out.append(rec(k, BAD, w, 'no array is reported: %r' % (x,)))
            else:
                res, lv = decide(lvs, x, y, evss, seeds, sizes, limit)
                st_ = {'proved': PROVED, 'agree': AGREE, 'differ': VBAD, 'open': OPEN}[res.status]
                d = res.detail
                if lv and st_ in (PROVED, AGREE):
                    d = 'with kernels unfolded'
                out.append(rec(k, st_, w, d, res.npoints))
    out.append(rec('meta', 'meta', detail=I))
    out[-1]['detail'] = {'functions': len(I.funcs_seen), 'calls': I.ncalls, 'statements': I.nstmts,
                         'unknown': list(I.unknown)[:5], 'names': ['%s.%s' % q for q in I.funcs_seen]}
    return out


def _exc(e):
    return '%s: %s' % (getattr(e, 'name', type(e).__name__), getattr(e, 'msg', e))


def meta(rep, recs):
    """take the bookkeeping records out of the list and accumulate them"""
    names, st, calls = set(), 0, 0
    rest = []
    for r in recs:
        if r['status'] == 'meta':
            names |= set(r['detail']['names'])
            st += r['detail']['statements']
            calls += r['detail']['calls']
        else:
            rest.append(r)
    rep.recs = [r for r in rep.recs if r['status'] != 'meta']
    names |= set(rep.info.get('function_names', []))
    rep.info['function_names'] = sorted(names)
    rep.info['functions'] = len(names)
    rep.info['statements_interpreted'] = rep.info.get('statements_interpreted', 0) + st
    rep.info['calls_interpreted'] = rep.info.get('calls_interpreted', 0) + calls
    return rest


# ------------------------------------------------------------------ kernels
K = sym('K', True)
MX = sym('maxits', True)
ND, NLAT = M + 1, 2 * M + 1
KERNELS = {
    'compute_qgpv': [dict(nlon=NLON, nlat=NLAT, kmax=KMAX)],
    'compute_qgpv_direct_inv': [dict(nlon=NLON, nlat=NLAT, kmax=KMAX, jd=ND)],
    'compute_lwa_only_nhn22': [dict(imax=NLON, jmax=NLAT, kmax=KMAX, nd=ND, jb=5, is_nhem=TRUE),
                               dict(imax=NLON, jmax=NLAT, kmax=KMAX, nd=ND, jb=0, is_nhem=TRUE)],
    'compute_flux_dirinv_nshem': [dict(imax=NLON, jmax=NLAT, kmax=KMAX, nd=ND, jb=5, jd=ND - 5, is_nhem=TRUE),
                                  dict(imax=NLON, jmax=NLAT, kmax=KMAX, nd=ND, jb=0, jd=ND, is_nhem=TRUE)],
    'compute_qref_and_fawa_first': [dict(imax=NLON, jmax=NLAT, kmax=KMAX, nd=ND, nnd=NLAT, jb=5, jd=ND - 5)],
    'matrix_after_inversion': [dict(k=K, kmax=KMAX, jd=ND - 5)],
    'matrix_b4_inversion': [dict(k=K, jmax=NLAT, kmax=KMAX, nd=ND, jb=5, jd=ND - 5)],
    'upward_sweep': [dict(jmax=NLAT, kmax=KMAX, nd=ND, jb=5, jd=ND - 5)],
    'compute_reference_states': [dict(nlon=NLON, nlat=NLAT, kmax=KMAX, jd=ND, npart=NND, maxits=MX)],
}
KSIZES = [{'m': 12, 'nlon': 4, 'kmax': 6, 'nnd': 7, 'K': 3, 'maxits': 2},
          {'m': 11, 'nlon': 5, 'kmax': 7, 'nnd': 8, 'K': 4, 'maxits': 3},
          {'m': 13, 'nlon': 4, 'kmax': 8, 'nnd': 6, 'K': 2, 'maxits': 5}]
HIST = {'compute_reference_states', 'compute_qref_and_fawa_first'}


def kparams(name, sizes):
    import math
    if name in HIST:
        return {'dphi': math.pi / (2 * sizes['m']), 'dlambda': 2 * math.pi / sizes['nlon']}
    return {}


def kernel_job(name, which, seed, tier):
    """compare one kernel with its reference for generic arguments"""
    rs, ks, _ = world.kernels()
    rs2, ks2 = fort.load_kernels(world.SPEC)
    if name not in ks:
        return [rec('kernel %s' % name, 'absent', detail='not in the sources')]
    r = ks[name].r
    w = '%s:%s %s' % (rel(r.path), getattr(r, 'line', '?'), name)
    ints = {a: (lift(b) if not isinstance(b, T.Cond) else b) for a, b in KERNELS[name][which].items()}
    tag = 'kernel %s%s' % (name, ('[jb=%s]' % ints['jb']) if 'jb' in ints else '')
    if list(ks[name].r.args) != list(ks2[name].r.args) and set(ks[name].r.args) != set(ks2[name].r.args):
        return [rec(tag, 'absent', w, 'argument list changed')]
    ctx = Ctx()
    try:
        a = ks[name].analyse(rs, ints, ctx)
    except (fort.Unsupported, T.TooBig, T.DivZero) as e:
        return [rec(tag, OPEN, w, str(e))]
    b = ks2[name].analyse(rs2, ints, ctx)
    out = []
    for o, y in b.outs.items():
        if o not in a.outs:
            out.append(rec(tag + '.' + o, 'absent', w, 'no such result'))
            continue
        x = a.outs[o]
        sx = C.Side(x.shape, x.elem) if isinstance(x, fort.ArrVal) else C.Side((), x)
        sy = C.Side(y.shape, y.elem) if isinstance(y, fort.ArrVal) else C.Side((), y)
        n, res = 0, None
        big = name in HIST
        for i, sizes in enumerate(KSIZES[:1] if tier == 'quick' else KSIZES):
            if name == 'compute_reference_states':
                sizes = dict(sizes, m=sizes['m'] - 5)
            res = C.compare(sx, sy, seeds=(seed + i,), sizes=sizes, params=_kp(name, sizes), fields={},
                            limit=400 if tier == 'quick' else 2000, prove=(i == 0 and name != 'compute_reference_states'))
            n += res.npoints
            if res.status in ('proved', 'differ', 'open'):
                break
        st = {'proved': PROVED, 'agree': AGREE, 'differ': VBAD, 'open': OPEN}[res.status]
        out.append(rec(tag + '.' + o, st, w, res.detail, n))
    return out


def _kp(name, sizes):
    p = kparams(name, sizes)
    # the parameter symbols of the kernel front end carry the routine and position
    rs, ks, _ = world.kernels()
    d = {}
    for n, v in p.items():
        if n in ks[name].r.args:
            d['D:%s:%d' % (name, ks[name].r.args.index(n))] = v
    return d


RERUN = {1: 'abcdefghijkl', 2: 'abefcgl'}


def settle(rep, kernel_names, select, configs, stages, seed, tier, level):
    """kernel lemmas, wiring with opaque kernels, and — where a lemma fails or a kernel is gone — the whole
    pipeline with the kernels unfolded (level: index into the decision ladder)"""
    jobs = [(kernel_job, (n, w, seed, tier)) for n in kernel_names for w in range(len(KERNELS[n]))]
    jobs += [(config_job, (k, select, seed, tier, 0, stages)) for k in configs]
    recs = rep.run(jobs, limit=800)
    rep.recs = []
    recs = meta(rep, recs)
    gone = [r for r in recs if r['status'] == 'absent']
    bad = [r for r in recs if r['status'] == BAD and r['key'].startswith('kernel ')]
    keep = [r for r in recs if r not in gone and r not in bad]
    if gone or bad:
        again = rep.run([(config_job, (k, select, seed + 7, tier, level, stages)) for k in RERUN[level] if k in configs], limit=800)
        rep.recs = []
        again = meta(rep, again)
        for r in again:
            r['key'] = 'unfolded ' + r['key']
        diff = [r for r in again if r['status'] == BAD]
        opn = [r for r in again if r['status'] == OPEN]
        keep += again
        if bad and (diff or (opn and not rep.doubts)):
            keep += bad
        elif bad and opn:
            for r in bad:
                r['status'] = OPEN
            keep += bad
        elif bad:
            for r in bad:
                r['status'] = AGREE
                r['detail'] = 'differs from the reference kernel, without effect on any reported quantity'
            keep += bad
    rep.recs = keep
    rep.info['kernels'] = len(kernel_names)
    rep.info['configurations'] = len(configs)
    return keep
