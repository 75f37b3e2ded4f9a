"""Identity testing of closed-form terms.

Two normal forms that are not syntactically equal may still denote the same
function (the normal form is not complete for gated sums).  To keep the
analysis free of false alarms such a pair is only reported when the two terms
take different values at random points of the term algebra (random
interpretation of the array and parameter symbols, in the sense of polynomial
identity testing).  No code of the analysed program is executed here: only
terms of the abstract domain are evaluated.
"""
import math
import random
import hashlib
from . import terms as T
from .terms import Poly, Cond, Lam, Base, atom

NAN = float('nan')


class Undecided(Exception):
    pass


def hrand(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') / 2.0 ** 64


UNFOLD = {}     # base kind -> function(base, idx polys) -> Poly   (symbolic unfolding)
EVALOP = {}     # op name -> function(ev, base, args, idx ints, binding) -> float


class Ev:
    def __init__(self, sizes, params, seed=0, field=None, budget=3000000):
        self.sizes = sizes          # sym name -> int
        self.params = params        # sym name -> float
        self.params0 = dict(params)
        self.seed = seed
        self.field = field or {}    # base name -> callable(idx tuple)
        self.memo = {}
        self.imemo = {}
        self.budget = budget
        self.unset_random = False
        self.unfold_cache = {}
        self.oob = []
        self.perturb = 0.0          # relative perturbation of the inputs (estimates the conditioning of a point)
        self.shadow = None
        self.nanint = None          # value of int() of an undefined number

    def perturbed(self):
        """the same interpretation with inputs changed in the last digits"""
        if self.shadow is None:
            e = Ev(self.sizes, self.params0, self.seed, self.field, self.budget)
            e.perturb = 1e-12
            e.unset_random = self.unset_random
            e.meaning = getattr(self, 'meaning', None)
            e.parity = getattr(self, 'parity', None)
            self.shadow = e
        return self.shadow

    # ---- variables
    def _key(self, x, b):
        fv = x.fv
        if not fv:
            return (x.id,)
        try:
            return (x.id,) + tuple(b[v] for v in sorted(fv, key=lambda a: a.id))
        except KeyError as e:
            raise Undecided('unbound %r' % (e.args[0],))

    def poly(self, p, b):
        k = self._key(p, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('budget')
        tot = 0
        for m, c in p.t:
            t = c if isinstance(c, int) else float(c)
            # gates first: a closed gate silences the rest of the product
            if len(m) > 1:
                z = False
                for a, e in m:
                    at = atom(a)
                    if at.kind == 'ite' and e > 0:
                        v = self.atom(at, b)
                        if v == 0:
                            z = True
                            break
                if z:
                    continue
            for a, e in m:
                v = self.atom(atom(a), b)
                if e == 1:
                    t = t * v
                elif e > 0:
                    t = t * v ** e
                else:
                    if v == 0:
                        t = NAN
                    else:
                        t = t / float(v) ** (-e)
            tot = tot + t
        self.memo[k] = tot
        return tot

    def int(self, p, b):
        v = self.poly(p, b)
        if isinstance(v, int):
            return v
        if v != v or math.isinf(v):
            raise Undecided('nan index')
        r = round(v)
        if abs(v - r) > 1e-6:
            raise Undecided('non-integer index')
        return int(r)

    def atom(self, a, b):
        k = a.kind
        if k in ('ix', 'lv', 'bv', 'phi'):
            try:
                return b[a]
            except KeyError:
                raise Undecided('unbound %r' % (a,))
        if k == 'sym':
            n = a.args[0]
            if n == 'pi':
                return math.pi
            v = self.sizes.get(n)
            if v is not None:
                return v
            v = self.params.get(n)
            if v is not None:
                return v
            v = 0.5 + hrand(self.seed, 'sym', n)
            if a.isint:
                v = int(3 + 4 * hrand(self.seed, 'sym', n))
            elif self.perturb:
                v *= 1 + self.perturb * hrand(self.seed, 'ps', n)
            self.params[n] = v
            return v
        if k == 'ref':
            idx = tuple(self.int(p, b) for p in a.args[1:])
            return self.element(a.args[0], idx, b)
        if k == 'fn':
            return self.func(a, b)
        if k == 'den':
            return self.poly(a.args[0], b)
        if k == 'ite':
            return self.poly(a.args[1] if self.cond(a.args[0], b) else a.args[2], b)
        if k == 'sum':
            n = self.int(a.args[0], b)
            v = T.binder_var(a).single()
            bb = dict(b)
            s = 0
            for i in range(n):
                bb[v] = i
                s = s + self.poly(a.args[1], bb)
            return s
        if k in ('bmax', 'bmin'):
            n = self.int(a.args[0], b)
            v = T.binder_var(a).single()
            bb = dict(b)
            best = None
            for i in range(n):
                bb[v] = i
                x = self.poly(a.args[1], bb)
                if x != x:
                    return NAN
                if best is None or (x > best if k == 'bmax' else x < best):
                    best = x
            if best is None:
                raise Undecided('empty reduction')
            return best
        if k == 'last':
            n = self.int(a.args[0], b)
            v = T.binder_var(a).single()
            bb = dict(b)
            for i in range(n - 1, -1, -1):
                bb[v] = i
                if self.cond(a.args[1], bb):
                    return self.poly(a.args[2], bb)
            return self.poly(a.args[3], b)
        raise Undecided(k)

    def func(self, a, b):
        n = a.args[0]
        if n == 'special':
            if a.args[1] in ('inf', '-inf', 'nan'):
                return float(a.args[1])
            return NAN
        xs = []
        for x in a.args[1:]:
            if isinstance(x, Poly):
                xs.append(self.poly(x, b))
            elif isinstance(x, Cond):
                xs.append(1 if self.cond(x, b) else 0)
            else:
                xs.append(x)
        try:
            if n == 'exp':
                return math.exp(xs[0])
            if n == 'sin':
                r = math.sin(xs[0])
                return 0.0 if abs(r) < 1e-13 else r
            if n == 'cos':
                r = math.cos(xs[0])
                return 6.123233995736766e-17 if abs(r) < 1e-13 else r
            if n == 'tan':
                return math.tan(xs[0])
            if n == 'log':
                return math.log(xs[0]) if xs[0] > 0 else NAN
            if n == 'sqrt':
                return math.sqrt(xs[0]) if xs[0] >= 0 else NAN
            if n == 'abs':
                return abs(xs[0])
            if n == 'arcsin':
                return math.asin(xs[0]) if -1 <= xs[0] <= 1 else NAN
            if n == 'arccos':
                return math.acos(xs[0]) if -1 <= xs[0] <= 1 else NAN
            if n == 'arctan':
                return math.atan(xs[0])
            if n == 'max':
                return max(xs)
            if n == 'min':
                return min(xs)
            if n == 'int':
                return int(self._snap(xs[0]))
            if n == 'floor':
                return math.floor(self._snap(xs[0]))
            if n == 'ceil':
                return math.ceil(self._snap(xs[0]))
            if n == 'mod':
                return xs[0] - xs[1] * math.floor(self._snap(xs[0] / xs[1])) if not (
                    isinstance(xs[0], int) and isinstance(xs[1], int)) else xs[0] % xs[1]
            if n == 'floordiv':
                return math.floor(xs[0] / xs[1]) if not isinstance(xs[0], int) else xs[0] // xs[1]
            if n == 'idiv':
                return int(xs[0] / xs[1])
            if n == 'pow':
                return float(xs[0]) ** xs[1]
            if n == 'sign':
                return (xs[0] > 0) - (xs[0] < 0)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            return NAN
        f = EVALFN.get(n)
        if f is not None:
            return f(self, xs, b)
        # uninterpreted scalar function
        acc = 0.0
        for i, x in enumerate(xs):
            if isinstance(x, (int, float)):
                acc += (0.3 + hrand(self.seed, 'w', n, i)) * x
            elif isinstance(x, (Lam, Base)):
                acc += self.functional(n, i, x, b)
            else:
                acc += hrand('k', str(x))
        return math.sin(acc) + 1.5

    def _snap(self, x):
        if isinstance(x, int):
            return x
        if x != x or math.isinf(x):
            if self.nanint is not None:
                return self.nanint
            raise Undecided('nan int')
        r = round(x)
        # values too close to an integer are numerically ambiguous
        if abs(x - r) < 1e-9 * max(1.0, abs(x)):
            return r
        return x

    def cond(self, c, b):
        k = c.kind
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'ge':
            v = self.poly(c.args[0], b)
            if v != v:
                return False
            if not isinstance(v, int) and abs(v) < 1e-11:
                return True
            return v >= 0
        if k == 'eq':
            v = self.poly(c.args[0], b)
            if isinstance(v, int):
                return v == 0
            return abs(v) < 1e-11
        if k == 'not':
            return not self.cond(c.args[0], b)
        if k == 'and':
            return all(self.cond(x, b) for x in c.args)
        if k == 'or':
            return any(self.cond(x, b) for x in c.args)
        # opaque
        f = EVALCOND.get(c.args[0])
        if f is not None:
            return f(self, c, b)
        if str(c.args[0]).startswith('unk:'):
            raise Undecided('unknown condition')
        acc = 0.0
        for i, x in enumerate(c.args[1:]):
            if isinstance(x, Poly):
                acc += self.poly(x, b) * (0.3 + hrand(self.seed, 'c', i))
            elif isinstance(x, (Lam, Base)):
                acc += self.functional(c.args[0], i, x, b)
            else:
                acc += hrand('k', str(x))
        return math.sin(acc * 7.0) > 0

    # ---- arrays
    def shape(self, x, b):
        return tuple(self.int(s, b) for s in x.shape)

    def values(self, x, b):
        """one-dimensional array as a list"""
        k = ('V',) + self._key(x, b) + (type(x).__name__,)
        r = self.memo.get(k)
        if r is None:
            n = self.int(x.shape[0], b)
            r = [self.item(x, (i,), b) for i in range(n)]
            self.memo[k] = r
        return r

    def array_items(self, x, b):
        """iterate (idx, value) over a Lam or Base"""
        import itertools
        shp = self.shape(x, b)
        for idx in itertools.product(*[range(n) for n in shp]):
            yield idx, self.item(x, idx, b)

    def item(self, x, idx, b):
        if isinstance(x, Base):
            return self.element(x, idx, b)
        vs = T.lam_vars(x)
        bb = dict(b)
        for v, i in zip(vs, idx):
            bb[v.single()] = i
        if isinstance(x.elem, Cond):
            return 1 if self.cond(x.elem, bb) else 0
        return self.poly(x.elem, bb)

    def functional(self, name, pos, x, b):
        k = ('F', name, pos) + self._key(x, b) + (type(x).__name__,)
        r = self.memo.get(k)
        if r is None:
            r = 0.0
            for idx, v in self.array_items(x, b):
                if v != v:
                    continue
                r += (0.2 + hrand(self.seed, 'f', name, pos, idx)) * v
            self.memo[k] = r
        return r

    def element(self, bs, idx, b):
        k = ('E',) + self._key(bs, b) + (idx,)
        r = self.memo.get(k)
        if r is None:
            r = self._element(bs, idx, b)
            self.memo[k] = r
        return r

    def _element(self, bs, idx, b):
        if bs.shape is not None and bs.kind not in ('rec',):
            shp = self.shape(bs, b)
            out = []
            for n, (i, s) in enumerate(zip(idx, shp)):
                sa = bs.shape[n].single()
                if sa is not None and sa.id in T.PERIODIC and s > 0:
                    i = i % s
                out.append(i)
            idx = tuple(out)
            if any(i < 0 or i >= s for i, s in zip(idx, shp)):
                self.oob.append((bs, idx, shp))
                return NAN
        kind = bs.kind
        if kind in ('in', 'dummy'):
            name = bs.args[-1] if kind == 'in' else bs.args
            f = self.field.get(name)
            v = f(self, idx) if f is not None else 0.25 + hrand(self.seed, kind, name, idx)
            if self.perturb:
                v *= 1 + self.perturb * hrand(self.seed, 'pe', name, idx)
            return v
        if kind in ('undef', 'unset'):
            if callable(self.unset_random):
                return self.unset_random(kind, bs.args, idx, None if bs.shape is None else self.shape(bs, b))
            if self.unset_random:
                return (hrand(self.seed, self.unset_random, kind, bs.args, idx) - 0.5) * 20
            if kind == 'unset':
                return 0.0
            return 0.0
        if kind == 'let':
            return self.item(bs.args[0], idx, b)
        u = UNFOLD.get(kind)
        if u is not None:
            return u(self, bs, idx, b)
        if kind == 'op':
            if bs.args[0].startswith('unknown'):
                raise Undecided('array of unknown content')
            f = EVALOP.get(bs.args[0])
            if f is not None:
                return f(self, bs, idx, b)
            # uninterpreted array operation: smooth random functional of its arguments
            acc = 3.0 * hrand(self.seed, 'op', bs.args[0], idx)
            for pos, a in enumerate(bs.args[1:]):
                acc += self._arg_value(bs.args[0], pos, a, b)
            return 1.5 + math.sin(acc)
        raise Undecided('base ' + kind)

    def _arg_value(self, name, pos, a, b):
        if isinstance(a, Poly):
            return (0.3 + hrand(self.seed, 'a', name, pos)) * self.poly(a, b)
        if isinstance(a, (Lam, Base)):
            return self.functional(name, pos, a, b)
        if isinstance(a, Cond):
            return 0.7 if self.cond(a, b) else 0.1
        if isinstance(a, tuple):
            return sum(self._arg_value(name, (pos, i), y, b) for i, y in enumerate(a))
        return hrand('k', str(a))


EVALFN = {}
EVALCOND = {}


def differ(x, y, tol=1e-7):
    if isinstance(x, float) and x != x or isinstance(y, float) and y != y:
        return None          # undefined on one side: no verdict
    if math.isinf(x) or math.isinf(y):
        return None
    return abs(x - y) > tol * max(abs(x), abs(y)) + 1e-40
