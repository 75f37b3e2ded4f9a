"""Relational obligations: the terms of two runs of the field object are compared after a change of inputs,
configuration or call history."""
import random
from sa import world, oop, compare as C, evlib, evalt, terms as T, pyabs
from sa.report import rec, PROVED, AGREE, BAD, VBAD, OPEN
from sa.pyval import PyRaise, Unk
from sa.terms import ix, sub, num, lift, ONE, ZERO
from .formulas import where, _exc, CONFIGS, MORE

QG = {'compute_qgpv', 'compute_qgpv_direct_inv'}
ALL = 'all'


def opaque_sets(I):
    """decision ladder: kernels read as functionals first, then unfolded step by step"""
    every = set(I.kernels)
    return [ALL, every - QG, set(evlib.OPAQUE), set(), set(evlib.OPAQUE)]


ROWS = 4          # level 2 with the equator row of the reference wind unfolded


def equator_row(name, out, idx):
    return name == 'compute_reference_states' and len(idx) == 2 and idx[0] == 0


class Ladder:
    """evaluators for one pair of runs, per level and seed, shared by all comparisons of the pair"""

    def __init__(self, I, J=None, invariant=(), levels=(0, 1, 2), sizes=None, seeds=(1,), params=None, fields=None,
                 unset=None):
        self.I, self.J = I, J or I
        sets = opaque_sets(I)
        self.levels = [sets[i] for i in levels]
        self.partial = [equator_row if i == ROWS else None for i in levels]
        self.sizes, self.seeds, self.params, self.fields = sizes, seeds, params or ({}, {}), fields or ({}, {})
        self.invariant = invariant
        self.unset = unset
        self.cache = {}
        self.mean = {}

    def ev(self, lv, seed):
        k = (lv, seed)
        if k not in self.cache:
            op = self.levels[lv]
            if lv not in self.mean:
                if self.J is self.I:
                    m = evlib.Meaning(self.I.routines, self.I.kernels, C.Ctx(), op, self.invariant)
                    self.mean[lv] = (m, m)
                else:
                    self.mean[lv] = oop.meanings(self.I, self.J, op, self.invariant)
            ma, mb = self.mean[lv]
            ma.partial = mb.partial = self.partial[lv]
            out = []
            for i, m in enumerate((ma, mb)):
                f = dict(C.FIELDS)
                f.update(self.fields[i])
                e = C.evaluator(m, seed, self.sizes, self.params[i], f)
                if self.unset:
                    e.unset_random = self.unset[i]
                out.append(e)
            same = ma is mb and not self.params[0] and not self.params[1] and not self.fields[0] and \
                not self.fields[1] and not self.unset
            self.cache[k] = (out[0], out[0]) if same else tuple(out)
        return self.cache[k]

    def compare(self, a, b, imap=None, scale=None, skip=None, limit=300, term=None, tol=1e-7):
        """a, b: Side.  The value of b at idx must be scale * (value of a at imap(idx, shape)).
        term: the term b should be by normal form (optional)."""
        if not isinstance(a, C.Side) or not isinstance(b, C.Side):
            return 'open', 'not an array: %r / %r' % (type(a).__name__, type(b).__name__), 0
        if term is not None and len(a.shape) == len(b.shape):
            try:
                if term is b.elem:
                    return PROVED, '', 0
            except (T.TooBig, T.DivZero):
                pass
        n, last = 0, (OPEN, 'no level', 0)
        for lv in range(len(self.levels)):
            last = self._level(lv, a, b, imap, scale, skip, limit, tol)
            n += last[2]
            if last[0] == AGREE:
                return AGREE, ('level %d' % lv if lv else ''), n
            if last[0] == BAD and last[1].startswith('shape'):
                break
        return last[0], last[1], n

    def _level(self, lv, a, b, imap, scale, skip, limit, tol):
        n = 0
        for seed in self.seeds:
            ea, eb = self.ev(lv, seed)
            rnd = random.Random(seed)
            try:
                sa_ = [ea.int(s, {}) for s in a.shape]
                sb_ = [eb.int(s, {}) for s in b.shape]
            except evalt.Undecided as e:
                return OPEN, str(e), n
            if imap is None and sa_ != sb_:
                return VBAD, 'shape %s instead of %s' % (tuple(sb_), tuple(sa_)), n
            und = 0
            for idx in C.points(sb_, limit, rnd):
                if skip is not None and skip(idx, sb_):
                    continue
                ia = imap(idx, sb_) if imap else idx
                ba, bb = {T._IXS[i]: x for i, x in enumerate(ia)}, {T._IXS[i]: x for i, x in enumerate(idx)}
                try:
                    va = C._val(ea, a.elem, ba)
                    vb = C._val(eb, b.elem, bb)
                except evalt.Undecided as e:
                    return OPEN, str(e), n
                except (RecursionError, OverflowError) as e:
                    return OPEN, type(e).__name__, n
                raw = va
                if scale is not None:
                    va = va * scale
                n += 1
                if vb != vb and va == va:
                    return VBAD, 'undefined at %s, expected %.6g' % (idx, va), n
                d = evalt.differ(vb, va, tol)
                if d is None:
                    und += 1
                elif d:
                    if C.ill_conditioned(ea, eb, a.elem, b.elem, ba, bb, raw, vb, abs(va - vb)):
                        und += abs(va - vb) > 1e-7 * (1.0 + max(abs(va), abs(vb)))
                        continue
                    return VBAD, 'at %s the value is %.9g, expected %.9g' % (idx, vb, va), n
            if und and und == n:
                return OPEN, 'undefined everywhere', n
        if not n:
            return OPEN, 'no point compared', n
        return AGREE, '', n


def flat(r):
    """{name: Side} with tuples spread out"""
    out = {}
    for n, v in r.items():
        if isinstance(v, tuple):
            for i, x in enumerate(v):
                out['%s.%d' % (n, i)] = x
        else:
            out[n] = v
    return out


def unusable(k, w, v, r, st):
    """record for an observable that is no array"""
    if isinstance(v, (PyRaise, pyabs.Dead)):
        return rec(k, BAD, w, 'raises %s' % _exc(v))
    if v is None and 'error/' + st in r:
        return rec(k, BAD, w, 'raises %s' % _exc(r['error/' + st]))
    if v is None and any(q.startswith('error/') for q in r):
        e = [q for q in r if q.startswith('error/')][0]
        return rec(k, BAD, w, '%s %s' % (e, _exc(r[e])))
    if v is None and any(q.startswith('open/') for q in r):
        e = [q for q in r if q.startswith('open/')][0]
        return rec(k, OPEN, w, '%s %s' % (e, r[e]))
    if isinstance(v, Unk):
        return rec(k, OPEN, w, str(v))
    return rec(k, BAD, w, 'no array is reported: %r' % (v,))


def meta_rec(I):
    return rec('meta', 'meta', detail={
        'functions': len(I.funcs_seen), 'calls': I.ncalls, 'statements': I.nstmts,
        'unknown': list(I.unknown)[:5], 'names': ['%s.%s' % q for q in I.funcs_seen]})


def both(I, cfg, argsA=None, argsB=None, cfgB=None, stages=('interp', 'ref', 'baro', 'layer'), forcingA=None,
         forcingB=None, only=True, J=None):
    """observables of two runs; the wave-activity-only stage is driven separately"""
    out = []
    for (X, c, a, f) in ((I, cfg, argsA, forcingA), (J or I, cfgB or cfg, argsB, forcingB)):
        r = oop.run(X, c, args=a() if a else None, stages=stages, forcing=f(X) if f else None)
        if only:
            r2 = oop.run(X, c, args=a() if a else None, stages=('interp', 'ref', 'only'), forcing=f(X) if f else None)
            r.update({k: v for k, v in r2.items() if k.startswith(('only/', 'error/only', 'open/only'))})
        out.append(r)
    return out


def sizes_for(cfg, **kw):
    s = dict(C.BASE_SIZES, **kw)
    if cfg.scheme == 'NHN22':
        s['m'] += 4
    return s


def cfg_of(key):
    return CONFIGS.get(key) or MORE[key]


def both_one(I, cfg, stages, forcing, only=False):
    return oop.run(I, cfg, stages=stages, forcing=forcing(I) if forcing else None)


def attempt(I, f):
    """('value', v, conditional exits), ('raise', text, []) or ('open', text, []); leaves the state after it"""
    n0 = len(I.top_exits)
    I.alive, I.h = True, dict(I.h)
    x0, g0 = I.ctx, I.guard
    try:
        v = f()
        return 'value', v, [e for e in I.top_exits[n0:] if e.kind == 'raise']
    except PyRaise as e:
        return 'raise', _exc(e), []
    except pyabs.Dead:
        ex = [e for e in I.top_exits[n0:] if e.kind == 'raise']
        if not ex:
            return 'open', 'no exit', []
        I.h = dict(ex[-1].heap)
        return 'raise', '%s: %s' % (ex[-1].value.name, ex[-1].value.msg), []
    except (pyabs.GiveUp, T.TooBig, T.DivZero) as e:
        return 'open', str(e), []
    finally:
        I.alive, I.ctx, I.guard, I.frames[:] = True, x0, g0, []
