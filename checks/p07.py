"""Typestate: which calls and accessors are refused after which histories."""
from sa import world, oop, terms as T, pyabs
from sa.report import rec, PROVED, BAD, OPEN
from sa.pyval import PyRaise, Unk, Cond
from sa.ranges import declare_param
from . import formulas as F, relate as R, p08

CFG = {
    'a': dict(), 'b': dict(nh=True), 'c': dict(odd=False), 'e': dict(cls='QGFieldNHN22'),
    'f': dict(cls='QGFieldNHN22', nh=True), 'd': dict(odd=False, nh=True), 'g': dict(cls='QGFieldNHN22', odd=False),
    'h': dict(levels=True), 'i': dict(cls='QGFieldNHN22', levels=True, nh=True),
}
METHOD = dict(p08.METHOD, h='compute_ncforce_from_heating_rate')
NEEDS = {}                      # accessor: stages any one of which provides it
for _n in oop.INTERP + ['static_stability']:
    NEEDS[_n] = 'i'
for _n in oop.REFS:
    NEEDS[_n] = 'r'
for _st, _names in (('b', oop.BARO), ('l', oop.LAYER), ('o', oop.ONLY)):
    for _n in _names:
        NEEDS[_n] = NEEDS.get(_n, '') + _st
REFERENCE = [n for n in NEEDS if n not in oop.INTERP + ['static_stability']]
NIT = T.sym('iterations', True)      # of a converging iteration
declare_param(NIT, 2)
OK, FAIL = 'the iteration converges', 'the iteration does not converge'


class State:
    """what the documentation promises after a history"""

    def __init__(self):
        self.done = set()
        self.solved = False          # reference state stored and converged
        self.stored = False          # reference state stored
        self.undecided = False       # refused by an error: whether the parts solved stay readable is open

    def copy(self):
        s = State()
        s.done, s.solved, s.stored, s.undecided = set(self.done), self.solved, self.stored, self.undecided
        return s

    def allowed(self, st):
        if st == 'i':
            return True
        if st in 'rh':
            return 'i' in self.done
        if st in 'bl':
            return self.solved
        if self.undecided:
            return None
        return self.stored


class Explorer:
    def __init__(self, key, conv, raising, depth, other=False):
        self.cfg = oop.Config(**CFG[key])
        self.I = I = world.interp()
        self.conv, self.raising, self.depth, self.other = conv, raising, depth, other
        self.calls = 0
        if conv is not None:
            I.kernel_hook = self.hook
        self.label = self.cfg.label()
        if conv is not None:
            self.label += ', convergence N/S %s, %s' % (
                '/'.join('yes' if c else 'no' for c in conv), 'error' if raising else 'warning')
        self.out = []
        over = {} if conv is None else {'raise_error_for_nonconvergence': raising, 'maxit': NIT + oop.MAXIT}
        self.o = oop.construct(I, self.cfg, **over)
        self.q = oop.array(I, 'heating', (oop.NLEV if not self.cfg.levels else self.cfg.kmax, self.cfg.nlat,
                                          world.NLON))
        self.second = None
        if other:
            self.second = oop.construct(I, self.cfg, oop.inputs(I, self.cfg, names=('u2', 'v2', 't2')), **over)

    def hook(self, name, n):
        if n != 'num_of_iter':
            return None
        c = self.conv[self.calls % len(self.conv)]
        self.calls += 1
        return NIT if c else NIT + oop.MAXIT + 1

    def where(self, n):
        return R.where(self.I, self.cfg, 'x/' + n)

    def add(self, hist, what, ok, w, detail=''):
        self.out.append(rec('%s after "%s": %s' % (self.label, hist, what), ok, w, detail, 1))

    def attempt(self, f):
        return R.attempt(self.I, f)

    def observe(self, o, st, hist):
        I = self.I
        for n, prov in NEEDS.items():
            have = bool(st.done & set(prov))
            if prov == 'r':
                have = st.stored
                if st.undecided:
                    continue
            h = I.h
            kind, v, cond = self.attempt(lambda: oop.attr(I, o, n))
            I.h = h
            if kind == 'open':
                self.add(hist, n, OPEN, self.where(n), v)
            elif kind == 'raise':
                self.add(hist, n + (' is available' if have else ' is refused'), BAD if have else PROVED,
                         self.where(n), 'raises %s' % v if have else '')
            elif have:
                if v is None:
                    self.add(hist, n + ' is available', BAD, self.where(n), 'returns None')
                elif cond:
                    self.add(hist, n + ' is available', BAD, self.where(n), 'raises %s under a condition'
                             % cond[0].value.name)
                else:
                    self.add(hist, n + ' is available', PROVED, self.where(n))
            elif isinstance(v, Unk):
                self.add(hist, n + ' is refused', OPEN, self.where(n), str(v))
            else:
                self.add(hist, n + ' is refused', BAD, self.where(n), 'returns a value')
        if self.conv is not None and 'i' in st.done and (st.stored or st.undecided):
            want = not st.solved
            v = self.attempt(lambda: oop.attr(I, o, 'nonconvergent_uref'))[1]
            w = self.where('nonconvergent_uref')
            what = 'nonconvergent_uref is %s' % want
            if v is T.TRUE or v is True:
                v = True
            elif v is T.FALSE or v is False:
                v = False
            self.add(hist, what, PROVED if v is want else BAD, w, 'is %s' % (v,))

    def step(self, st, c, hist):
        """one call; returns the new state or None when the exploration of this branch ends"""
        I = self.I
        allowed = st.allowed(c)
        conv = self.conv is None or all(self.conv)
        expect_fail = c == 'r' and allowed and not conv and self.raising
        self.calls = 0
        m = METHOD[c]
        w = self.where(m)
        new = st.copy()
        kind, v, cond = self.attempt(lambda: oop.call(I, self.o, m, *([self.q] if c == 'h' else [])))
        if kind == 'open':
            self.add(hist, m, OPEN, w, v)
            return None
        refused = v if kind == 'raise' else None
        if self.conv is None and c == 'r' and self.cfg.scheme == 'NH18':
            cond = []                # non-convergence is explored with a fixed outcome of the iteration
        if allowed is None:
            if refused is None:
                new.done.add('o')
            return new
        if not allowed or expect_fail:
            what = '%s is refused%s' % (m, ' because ' + FAIL if expect_fail or (c in 'bl' and st.stored) else '')
            if refused is None:
                self.add(hist, what, BAD, w, 'returns')
                return None
            self.add(hist, what, PROVED, w)
            if expect_fail:
                new.stored = new.solved = False
                new.undecided = True
                new.done.discard('r')
            return new
        if refused is not None or cond:
            self.add(hist, '%s is accepted' % m, BAD, w, 'raises %s' % (
                refused if refused is not None else cond[0].value.name + ' under a condition'))
            return None
        self.add(hist, '%s is accepted' % m, PROVED, w)
        if c == 'r':
            new.stored, new.solved, new.undecided = True, conv, False
        if c != 'h':
            new.done.add(c)
        return new

    def explore(self, st=None, hist='', letters='irhblo'):
        I = self.I
        st = st or State()
        self.observe(self.o, st, hist or 'construction')
        if self.second is not None:
            self.observe(self.second, State(), (hist or 'construction') + ' of another object')
        if len(hist) >= self.depth:
            return
        for c in letters:
            h = I.h
            new = self.step(st, c, hist or 'construction')
            if new is not None:
                self.explore(new, hist + c, letters)
            I.h = h


def job(key, conv, raising, depth, prefix, other):
    x = Explorer(key, conv, raising, depth, other)
    st, hist = State(), ''
    for c in prefix:
        st = x.step(st, c, hist or 'construction')
        if st is None:
            return x.out + [R.meta_rec(x.I)]
        hist += c
    x.explore(st, hist)
    return x.out + [R.meta_rec(x.I)]


def run(rep):
    rep.level = 'proof'
    rep.rule = ('over all histories of stage calls up to the bound every accessor and stage whose prerequisite has not '
                'succeeded exits by raising on every path, and every other one returns on every path')
    rep.explanation = ('The prefix tree of stage calls is explored in the heap domain; after each prefix every accessor '
                       'is interpreted. The outcome of the reference-state iteration is fixed per hemisphere by '
                       'replacing its iteration count.')
    rep.trusted = F.TRUSTED
    rep.assumptions = F.ASSUMPTIONS + ['the iteration reports more than maxit steps exactly when it does not converge '
                                       '(decided for the kernel under P04)']
    rep.minimum = 300
    deep = rep.tier != 'quick'
    jobs = []
    for k in CFG:
        d = 3 if not deep else 4
        for p in 'irhblo':
            jobs.append((job, (k, None, None, d, p, False)))
        for p in 'irhblo':
            jobs.append((job, (k, None, None, (4 if not deep else 5), 'ir' + p, k in 'aef')))
    for k in CFG:
        c = oop.Config(**CFG[k])
        if c.scheme != 'NH18':
            continue
        cases = [(False,), (True,)] if c.nh else [(False, True), (True, False), (False, False), (True, True)]
        for conv in cases:
            for raising in (True, False):
                for p in 'irhblo':
                    jobs.append((job, (k, conv, raising, 4 if not deep else 5, 'ir' + p, False)))
    rep.run(jobs, limit=800)
    rep.recs = F.meta(rep, rep.recs)
