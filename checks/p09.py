"""Writes into the caller's arrays and into arrays handed out before."""
from sa import world, oop, compare as C, terms as T, pyabs
from sa.report import rec, PROVED, AGREE, BAD, OPEN
from sa.pyval import PyRaise, Unk, Arr, ListV, DictV, NTuple, Obj
from sa.terms import FALSE, c_and
from . import formulas as F, relate as R, ops, p08

CFG = {
    'a': dict(), 'b': dict(nh=True), 'c': dict(odd=False), 'd': dict(odd=False, nh=True),
    'e': dict(cls='QGFieldNHN22'), 'f': dict(cls='QGFieldNHN22', nh=True), 'g': dict(cls='QGFieldNHN22', odd=False),
    'h': dict(levels=True), 'i': dict(cls='QGFieldNHN22', levels=True), 'j': dict(odd=False, levels=True),
}
HISTORIES = ['A:i A:h A:r A:bf A:lg A:o', 'A:i A:r A:lf A:b B:i B:r B:bg B:lg', 'A:i A:r A:o A:b A:h A:l',
             'A:i A:r A:bf A:lf A:bg A:lg A:h A:r A:i']


def writes(I, start=0):
    """effects that can happen: (tag, location, functions)"""
    out = []
    for tag, cid, loc, guard, where in I.effects[start:]:
        g = c_and(*guard) if guard else T.TRUE
        if g is FALSE:
            continue
        out.append((tag, loc, where))
    return out


def place(I, loc, where):
    f = where[-1] if where else None
    w = F.funcloc(I, f) if f is not None else '?'
    return '%s (line %s)' % (w, getattr(loc, 'lineno', loc))


class Tagged(p08.World):
    def make(self, o):
        I, cfg = self.I, self.cfg
        names = {'A': ('u', 'v', 't'), 'B': ('u2', 'v2', 't2')}[o]
        self.objs[o] = oop.construct(I, cfg, oop.inputs(I, cfg, names=names, tags=True))
        return self.objs[o]

    def step(self, s):
        o, st = s.split(':')
        obj = self.objs.get(o) or self.make(o)
        I, cfg = self.I, self.cfg
        if st[0] == 'h':
            q = oop.array(I, 'heating' + o, (oop.NLEV if not cfg.levels else cfg.kmax, cfg.nlat, world.NLON),
                          'input heating_rate')
            return oop.call(I, obj, 'compute_ncforce_from_heating_rate', q)
        kw = {}
        if len(st) > 1:
            kw['ncforce'] = oop.array(I, 'forcing ' + st[1], (cfg.kmax, cfg.nlat, world.NLON), 'input ncforce')
        return oop.call(I, obj, p08.METHOD[st[0]], **kw)


def arrays(I, v, name, out):
    v = I.force(v)
    if isinstance(v, Arr):
        out.append((name, v))
    elif isinstance(v, (tuple, list)):
        for i, x in enumerate(v):
            arrays(I, x, '%s.%d' % (name, i), out)
    elif isinstance(v, NTuple):
        for i, x in enumerate(I.items(v)):
            arrays(I, x, '%s.%d' % (name, i), out)


def field_job(key, hist, seed, tier):
    cfg = oop.Config(**CFG[key])
    label = '%s after "%s"' % (cfg.label(), hist)
    wd = Tagged(cfg)
    I = wd.I
    handed = []
    out = []
    for k, s in enumerate(hist.split()):
        o, st = s.split(':')
        n0 = len(I.effects)
        m = 'compute_ncforce_from_heating_rate' if st[0] == 'h' else p08.METHOD[st[0]]
        w = R.where(I, cfg, 'grid/' + m)
        try:
            r = wd.step(s)
            got = []
            arrays(I, r, '%s of %s' % (m, o), got)
            for n in p08.OBS[st[0]]:
                if n.startswith('heating'):
                    continue
                try:
                    arrays(I, oop.attr(I, wd.objs[o], n.split('/')[1]), '%s of %s' % (n, o), got)
                except PyRaise:
                    pass
            if k == 0 or o == 'B':
                for n in ('ylat', 'ylat_ref_states', 'xlon', 'height', 'plev'):
                    try:
                        arrays(I, oop.attr(I, wd.objs[o], n), '%s of %s' % (n, o), got)
                    except PyRaise:
                        pass
        except PyRaise as e:
            return out + [rec('%s: %s' % (label, s), BAD, w, 'raises %s' % R._exc(e))]
        except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
            return out + [rec('%s: %s' % (label, s), OPEN, w, str(e))]
        bad = [x for x in writes(I, n0) if str(x[0]).startswith('input')]
        key_ = '%s: step %d %s writes into no argument' % (label, k, m)
        if bad:
            t, loc, stack = bad[0]
            out.append(rec(key_, BAD, place(I, loc, stack), 'writes into the %s' % t))
        else:
            out.append(rec(key_, PROVED, w, '', 1))
        for n, a in got:
            handed.append((k, n, a, oop.snapshot(I, a), st[0], o))
    lad = R.Ladder(I, sizes=R.sizes_for(cfg), seeds=(seed,), levels=(0, 2))
    for k, n, a, before, st, o in handed:
        kk = '%s: %s handed out in step %d is unchanged at the end' % (label, n, k)
        w = R.where(I, cfg, 'grid/' + n.split(' ')[0].split('/')[-1].split('.')[0])
        now = oop.snapshot(I, a)
        if not isinstance(before, C.Side):
            out.append(rec(kk, OPEN, w, str(before)))
            continue
        if now.elem is before.elem:
            out.append(rec(kk, PROVED, w, '', 1))
            continue
        s, d, np_ = lad.compare(before, now, limit=120)
        out.append(rec(kk, s, w, d, np_))
    out.append(R.meta_rec(I))
    return out


def op_job(prop, name, parity):
    loc, f, pars, sizes, params, skip = ops.CASES[prop][name]
    I = world.interp()
    label = '%s (%s latitudes) writes into no argument' % (name, 'odd' if parity else 'even')
    mod, fn = loc.rsplit('.', 1)
    w = F.funcloc(I, I.h[I.load_module('falwa.' + mod).nsid].get(fn))
    try:
        f(ops.World(I, parity, tags=True), None)
    except PyRaise as e:
        return [rec(label, BAD, w, 'raises %s' % F._exc(e)), ops.meta(I)]
    except (pyabs.Dead, pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return [rec(label, OPEN, w, str(e)), ops.meta(I)]
    bad = [x for x in writes(I) if str(x[0]).startswith('input')]
    if bad:
        return [rec(label, BAD, place(I, bad[0][1], bad[0][2]), 'writes into the %s' % bad[0][0]), ops.meta(I)]
    return [rec(label, PROVED, w, '', 1), ops.meta(I)]


def run(rep):
    rep.level = 'proof'
    rep.rule = ('no assignment in any interpreted path has an array of the caller as its target, and the contents of '
                'an array handed out by one stage are the same term after the later stages')
    rep.explanation = ('All stages, accessors and stand-alone functions are interpreted with the arguments marked; every '
                       'array write is recorded with the storage it reaches through views.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['numpy view/copy rules as in sa/npmodel.py']
    rep.minimum = 300
    jobs = [(field_job, (k, h, rep.seed, rep.tier)) for k in CFG for h in HISTORIES]
    for p in ('P20', 'P21'):
        jobs += [(op_job, (p, n, x)) for n, c in ops.CASES[p].items() for x in c[2]]
    rep.run(jobs, limit=800)
    rep.recs = F.meta(rep, rep.recs)
