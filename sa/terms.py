"""Value-numbering domain: hash-consed closed-form terms.

A term (Poly) is a polynomial with rational coefficients over interned atoms.
Atoms are symbols, index variables, element references into arrays, applied
functions, gated values (ite) and bounded reductions (sum/max/min/last).
Everything is interned, so equal normal forms are the same object.
"""
from fractions import Fraction
import itertools
import math
import sys

sys.setrecursionlimit(100000)

MAXTERMS = 4000


class TooBig(Exception):
    pass


class DivZero(Exception):
    pass


def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


_EMPTY = frozenset()

# ---------------------------------------------------------------- atoms


class Atom:
    __slots__ = ('kind', 'args', 'id', 'fv', 'depth', 'isint', '__weakref__')

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_atom_list = []


def _mk_atom(kind, args, fv, depth=0, isint=False):
    k = (kind, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = len(_atom_list)
        a.fv = fv
        a.depth = depth
        a.isint = isint
        if kind in ('ix', 'lv', 'bv', 'phi'):
            a.fv = frozenset((a,))
        _atoms[k] = a
        _atom_list.append(a)
    return a


def atom(i):
    return _atom_list[i]


# ---------------------------------------------------------------- polys

class Poly:
    __slots__ = ('t', 'fv', 'depth', 'id', '_isint', '__weakref__')

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __pow__(self, n):
        return power(self, n)

    @property
    def const(self):
        """rational constant or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def single(self):
        """the atom if this is exactly one atom with coefficient 1"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1 \
                and self.t[0][0][0][1] == 1:
            return _atom_list[self.t[0][0][0][0]]
        return None

    @property
    def isint(self):
        if self._isint is None:
            ok = True
            for m, c in self.t:
                if isinstance(c, Fraction):
                    ok = False
                    break
                for a, e in m:
                    if e < 0 or not _atom_list[a].isint:
                        ok = False
                        break
                if not ok:
                    break
            self._isint = ok
        return self._isint

    def atoms(self):
        s = set()
        for m, c in self.t:
            for a, e in m:
                s.add(_atom_list[a])
        return s


_polys = {}


def _mk(d):
    """d: dict mono -> coef"""
    items = [(m, _q(c)) for m, c in d.items() if c != 0]
    items.sort()
    if len(items) > MAXTERMS:
        raise TooBig()
    k = tuple(items)
    p = _polys.get(k)
    if p is None:
        p = Poly()
        p.t = k
        fv = set()
        dep = 0
        for m, c in k:
            for a, e in m:
                at = _atom_list[a]
                if at.fv:
                    fv |= at.fv
                if at.depth > dep:
                    dep = at.depth
        p.fv = frozenset(fv) if fv else _EMPTY
        p.depth = dep
        p._isint = None
        p.id = len(_polys)
        _polys[k] = p
    return p


ZERO = _mk({})
ONE = _mk({(): 1})


def num(c):
    if isinstance(c, Poly):
        return c
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if math.isinf(c) or math.isnan(c):
            return of_atom(_mk_atom('fn', ('special', str(c)), _EMPTY))
        c = Fraction(repr(c))
    return _mk({(): c}) if c != 0 else ZERO


def lift(x):
    return x if isinstance(x, Poly) else num(x)


def of_atom(a):
    return _mk({((a.id, 1),): 1})


def sym(name, isint=False):
    return of_atom(_mk_atom('sym', (name, isint), _EMPTY, 0, isint))


def ix(n):
    return of_atom(_mk_atom('ix', (n,), _EMPTY, 0, True))


def lv(name):
    return of_atom(_mk_atom('lv', (name,), _EMPTY, 0, True))


_fresh = itertools.count()


def fresh_lv(hint='v'):
    return lv('%s#%d' % (hint, next(_fresh)))


def bv(depth, i=0):
    return of_atom(_mk_atom('bv', (depth, i), _EMPTY, 0, True))


PI = sym('pi')


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        v = d.get(m, 0) + c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return _mk(d)


def addn(ps):
    d = {}
    for p in ps:
        for m, c in p.t:
            d[m] = d.get(m, 0) + c
    return _mk(d)


def neg(a):
    return _mk({m: -c for m, c in a.t})


def scale(a, c):
    return _mk({m: v * c for m, v in a.t})


def _mul_mono(m1, m2):
    """returns mono, or (mono, exparg) merged.  exp atoms are merged."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            del d[a]
        else:
            d[a] = v
    ex = [a for a in d if _atom_list[a].kind == 'fn' and _atom_list[a].args[0] == 'exp']
    if len(ex) > 1 or (ex and d[ex[0]] != 1):
        arg = ZERO
        for a in ex:
            arg = add(arg, scale(_atom_list[a].args[1], d[a]))
            del d[a]
        if arg.t:
            ea = _fn_atom('exp', (arg,))
            d[ea.id] = d.get(ea.id, 0) + 1
    # gated values with 0/1 indicator content are idempotent
    return tuple(sorted(d.items()))


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > MAXTERMS * 2:
        raise TooBig()
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = _mul_mono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mk(d)


def power(a, n):
    if isinstance(n, Poly):
        c = n.const
        if c is None or isinstance(c, Fraction):
            return fn('pow', a, n)
        n = c
    if isinstance(n, Fraction) or isinstance(n, float):
        if n == int(n):
            n = int(n)
        else:
            return fn('pow', a, num(n))
    if n < 0:
        return inv(power(a, -n))
    r = ONE
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r


def inv(p):
    if not p.t:
        raise DivZero()
    if len(p.t) == 1:
        m, c = p.t[0]
        d = {}
        extra = ONE
        out = []
        for a, e in m:
            at = _atom_list[a]
            if at.kind == 'fn' and at.args[0] == 'exp':
                extra = mul(extra, fn('exp', scale(at.args[1], -e)))
            elif at.kind == 'den':
                extra = mul(extra, power(at.args[0], e)) if e < 0 else mul(
                    extra, _mk({((a, -e),): 1}))
            else:
                out.append((a, -e))
        r = _mk({tuple(sorted(out)): Fraction(1) / c})
        return mul(r, extra) if extra is not ONE else r
    # multi-term: pull out the content (leading coefficient, common atoms)
    c0 = p.t[0][1]
    common = dict(p.t[0][0])
    for m, c in p.t[1:]:
        dm = dict(m)
        for a in list(common):
            e = dm.get(a)
            if e is None or (e > 0) != (common[a] > 0):
                # negative powers common to only some terms: leave
                del common[a]
            else:
                common[a] = min(common[a], e) if e > 0 else max(common[a], e)
    # also clear negative powers
    negs = {}
    for m, c in p.t:
        for a, e in m:
            if e < 0 and a not in common:
                negs[a] = min(negs.get(a, 0), e)
    common.update(negs)
    cm = tuple(sorted(common.items()))
    inv_cm = tuple(sorted((a, -e) for a, e in common.items()))
    q = {}
    for m, c in p.t:
        mm = _mul_mono(m, inv_cm)
        q[mm] = q.get(mm, 0) + (Fraction(c) / c0)
    q = _mk(q)
    if len(q.t) == 1:
        return inv(mul(q, _mk({cm: c0})))
    den = _mk_atom('den', (q,), q.fv, q.depth)
    r = _mk({((den.id, -1),): 1})
    return mul(r, inv(_mk({cm: c0})))


def div(a, b):
    c = b.const
    if c is not None:
        if c == 0:
            raise DivZero()
        return scale(a, Fraction(1) / c)
    if a is b:
        return ONE
    r = mul(a, inv(b))
    # cancellation of an exact multiple  a = q * b
    if len(b.t) > 1 and len(a.t) >= len(b.t):
        m0, c0 = b.t[0]
        try:
            ma, ca = a.t[0]
        except IndexError:
            return r
        for ma, ca in a.t:
            q = _mk({_mul_mono(ma, tuple((x, -e) for x, e in m0)): Fraction(ca) / c0})
            if mul(q, b) is a:
                return q
    return r


# ---------------------------------------------------------------- functions

INT_FN = {'int', 'floor', 'mod', 'idiv', 'floordiv', 'ceil'}


def _fn_atom(name, args):
    fv = set()
    dep = 0
    for a in args:
        if isinstance(a, (Poly, Cond, Lam)):
            fv |= a.fv
            dep = max(dep, a.depth)
    isint = name in INT_FN
    if name in ('max', 'min', 'abs'):
        isint = all(isinstance(a, Poly) and a.isint for a in args)
    return _mk_atom('fn', (name,) + tuple(args), frozenset(fv), dep, isint)


def _leading_negative(p):
    # canonical orientation: sign of the coefficient of the smallest monomial
    return p.t and p.t[0][1] < 0


def fn(name, *args):
    args = tuple(a if isinstance(a, (Cond, Lam, str)) else lift(a) for a in args)
    x = args[0] if args and isinstance(args[0], Poly) else None
    if name == 'exp':
        if not x.t:
            return ONE
        # exp(c + log(y))
        for m, c in x.t:
            if len(m) == 1 and m[0][1] == 1 and isinstance(c, int):
                at = _atom_list[m[0][0]]
                if at.kind == 'fn' and at.args[0] == 'log':
                    return mul(power(at.args[1], c), fn('exp', sub(x, _mk({m: c}))))
        return of_atom(_fn_atom('exp', (x,)))
    if name == 'log':
        if x.const == 1:
            return ZERO
        a = x.single()
        if a is not None and a.kind == 'fn' and a.args[0] == 'exp':
            return a.args[1]
        return of_atom(_fn_atom('log', (x,)))
    if name in ('sin', 'cos', 'tan'):
        if not x.t:
            return ONE if name == 'cos' else ZERO
        r = _pi_multiple(x)
        if r is not None and name != 'tan':
            two = r * 2
            if two.denominator == 1:
                k = int(two) % 4
                return num({'sin': (0, 1, 0, -1), 'cos': (1, 0, -1, 0)}[name][k])
        if _leading_negative(x):
            y = of_atom(_fn_atom(name, (neg(x),)))
            return y if name == 'cos' else neg(y)
        return of_atom(_fn_atom(name, (x,)))
    if name == 'arccos':
        if x.const == -1:
            return PI
        return of_atom(_fn_atom(name, (x,)))
    if name == 'arcsin' or name == 'arctan':
        if not x.t:
            return ZERO
        if _leading_negative(x):
            return neg(of_atom(_fn_atom(name, (neg(x),))))
        return of_atom(_fn_atom(name, (x,)))
    if name == 'abs':
        c = x.const
        if c is not None:
            return num(abs(c))
        if len(x.t) == 1:
            m, c = x.t[0]
            ok = all(_nonneg_atom(_atom_list[a]) or e % 2 == 0 for a, e in m)
            if ok:
                return _mk({m: abs(c)})
            if c < 0 or abs(c) != 1:
                return scale(fn('abs', _mk({m: 1})), abs(c))
        if _leading_negative(x):
            x = neg(x)
        return of_atom(_fn_atom('abs', (x,)))
    if name == 'sqrt':
        c = x.const
        if c is not None and c >= 0:
            f = Fraction(c)
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return num(Fraction(a, b))
        return of_atom(_fn_atom('sqrt', (x,)))
    if name in ('max', 'min'):
        xs = []
        cbest = None
        for a in args:
            at = a.single()
            sub_ = [a]
            if at is not None and at.kind == 'fn' and at.args[0] == name:
                sub_ = list(at.args[1:])
            for s in sub_:
                c = s.const
                if c is not None:
                    cbest = c if cbest is None else (max(cbest, c) if name == 'max' else min(cbest, c))
                elif s not in xs:
                    xs.append(s)
        # differences that are constant
        red = []
        for s in xs:
            done = False
            for i, r in enumerate(red):
                dlt = sub(s, r).const
                if dlt is not None:
                    if (dlt > 0) == (name == 'max'):
                        red[i] = s
                    done = True
                    break
            if not done:
                red.append(s)
        if cbest is not None:
            red.append(num(cbest))
        if len(red) == 1:
            return red[0]
        red.sort(key=lambda p: p.id)
        return of_atom(_fn_atom(name, tuple(red)))
    if name == 'int':     # truncation
        if x.isint:
            return x
        c = x.const
        if c is not None:
            return num(int(c))
        return of_atom(_fn_atom('int', (x,)))
    if name == 'floor':
        if x.isint:
            return x
        c = x.const
        if c is not None:
            return num(math.floor(c))
        return of_atom(_fn_atom('floor', (x,)))
    if name in ('floordiv', 'idiv', 'mod'):
        a, b = args
        cb = b.const
        if cb == 1 and a.isint:
            return a if name != 'mod' else ZERO
        if a.const is not None and cb:
            if name == 'floordiv':
                return num(a.const // cb)
            if name == 'mod':
                return num(a.const - cb * (a.const // cb))
            return num(int(Fraction(a.const) / cb))
        if cb and isinstance(cb, int) and a.isint:
            quo = {}
            rem = {}
            for m, c in a.t:
                if m == ():
                    quo[m] = c // cb
                    rem[m] = c - cb * (c // cb)
                elif c % cb == 0:
                    quo[m] = c // cb
                else:
                    quo = None
                    break
            if quo is not None:
                if name == 'mod':
                    return _mk(rem)
                return _mk(quo)
        if name == 'floordiv' and not (a.isint and b.isint):
            return fn('floor', div(a, b))
        return of_atom(_fn_atom(name, args))
    if name == 'pow':
        c = args[1].const
        if c is not None and not isinstance(c, Fraction):
            return power(args[0], c)
        if c == Fraction(1, 2):
            return fn('sqrt', args[0])
        return of_atom(_fn_atom('pow', args))
    return of_atom(_fn_atom(name, args))


def _pi_multiple(x):
    if len(x.t) == 1:
        m, c = x.t[0]
        if m == ((atom_id(PI), 1),):
            return Fraction(c)
    return None


def atom_id(p):
    return p.single().id


_positive_syms = set()


def declare_positive(p):
    _positive_syms.add(p.single().id)


def _nonneg_atom(a):
    if a.id in _positive_syms or a.id == atom_id(PI):
        return True
    if a.kind == 'fn' and a.args[0] in ('exp', 'abs', 'sqrt'):
        return True
    if a.kind == 'fn' and a.args[0] == 'cos':
        # cosines in this code base are cosines of latitudes
        return True
    return False


def sub(a, b):
    return add(a, neg(b))


# ---------------------------------------------------------------- conditions

class Cond:
    __slots__ = ('kind', 'args', 'fv', 'depth', 'id')

    def __repr__(self):
        return show_cond(self)


_conds = {}


def _mk_cond(kind, args):
    k = (kind, args)
    c = _conds.get(k)
    if c is None:
        c = Cond()
        c.kind = kind
        c.args = args
        fv = set()
        dep = 0
        for a in args:
            if isinstance(a, (Poly, Cond, Lam)):
                fv |= a.fv
                dep = max(dep, a.depth)
        c.fv = frozenset(fv)
        c.depth = dep
        c.id = len(_conds)
        _conds[k] = c
    return c


TRUE = _mk_cond('true', ())
FALSE = _mk_cond('false', ())


def c_const(b):
    return TRUE if b else FALSE


def _sign_of(p):
    """definite sign of a polynomial from declared-positive atoms: '+','-','0' or None"""
    if not p.t:
        return '0'
    s = None
    for m, c in p.t:
        for a, e in m:
            if a not in _positive_syms and a != atom_id(PI) and not (
                    _atom_list[a].kind == 'fn' and _atom_list[a].args[0] == 'exp'):
                return None
        t = '+' if c > 0 else '-'
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def _exp_pair(p):
    """sign of k*exp(x) - k*exp(y)"""
    if len(p.t) != 2:
        return None
    (m1, c1), (m2, c2) = p.t
    if c1 != -c2:
        return None
    e = []
    for m in (m1, m2):
        if m == ():
            e.append(ZERO)
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = _atom_list[m[0][0]]
        if a.kind != 'fn' or a.args[0] != 'exp':
            return None
        e.append(a.args[1])
    s = _sign_of(sub(e[0], e[1]))
    if s in ('+', '-') and c1 < 0:
        s = '-' if s == '+' else '+'
    return s


def c_ge(p):
    """p >= 0"""
    p = lift(p)
    c = p.const
    if c is not None:
        return c_const(c >= 0)
    s = _sign_of(p) or _exp_pair(p)
    if s is not None:
        return c_const(s != '-')
    if p.isint:
        g = 0
        k = 0
        for m, c in p.t:
            if m == ():
                k = c
            else:
                g = math.gcd(g, abs(c))
        if g > 1:
            d = {m: c // g for m, c in p.t if m != ()}
            fl = k // g
            if fl:
                d[()] = fl
            p = _mk(d)
    else:
        p = _posscale(p)
    return _mk_cond('ge', (p,))


def _posscale(p):
    lead = None
    for m, c in p.t:
        lead = abs(c)
        break
    if lead not in (None, 1):
        p = scale(p, Fraction(1) / lead)
    return p


def c_gt(p):
    p = lift(p)
    if p.isint:
        return c_ge(sub(p, ONE))
    return c_not(c_ge(neg(p)))


def c_eq(p):
    p = lift(p)
    c = p.const
    if c is not None:
        return c_const(c == 0)
    s = _sign_of(p)
    if s in ('+', '-'):
        return FALSE
    if p.isint:
        g = 0
        k = 0
        for m, c in p.t:
            if m == ():
                k = c
            else:
                g = math.gcd(g, abs(c))
        if g and k % g:
            return FALSE
        if g > 1:
            p = scale(p, Fraction(1, g))
    else:
        # clear denominators made of declared positive atoms, then retry as integers
        q = _clear_positive(p)
        if q is not p and q.isint:
            return c_eq(q)
        p = _posscale(p)
    if _leading_negative(p):
        p = neg(p)
    return _mk_cond('eq', (p,))


def _clear_positive(p):
    """multiply by positive atoms / positive constants until integral if possible"""
    common = {}
    first = True
    for m, c in p.t:
        dm = {a: e for a, e in m if a in _positive_syms or a == atom_id(PI)}
        for a in set(common) | set(dm):
            if first:
                common[a] = dm.get(a, 0)
            else:
                common[a] = min(common.get(a, 0), dm.get(a, 0))
        first = False
    f = tuple(sorted((a, -e) for a, e in common.items() if e))
    q = p
    if f:
        q = mul(p, _mk({f: 1}))
    l = 1
    g = 0
    for m, c in q.t:
        l = l * Fraction(c).denominator // math.gcd(l, Fraction(c).denominator)
    for m, c in q.t:
        g = math.gcd(g, int(c * l))
    if g == 0:
        return q
    return scale(q, Fraction(l, g))


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == 'not':
        return c.args[0]
    if c.kind == 'ge' and c.args[0].isint:
        return c_ge(sub(neg(c.args[0]), ONE))
    if c.kind == 'and':
        return c_or(*[c_not(a) for a in c.args])
    if c.kind == 'or':
        return c_and(*[c_not(a) for a in c.args])
    return _mk_cond('not', (c,))


def c_and(*cs):
    s = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.args if c.kind == 'and' else (c,)):
            if x not in s:
                s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    for x in s:
        if c_not(x) in s:
            return FALSE
    s.sort(key=lambda c: c.id)
    return _mk_cond('and', tuple(s))


def c_or(*cs):
    s = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.args if c.kind == 'or' else (c,)):
            if x not in s:
                s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    for x in s:
        n = c_not(x) if x.kind != 'and' else None
        if n in s:
            return TRUE
    s.sort(key=lambda c: c.id)
    return _mk_cond('or', tuple(s))


def c_opaque(name, *args):
    return _mk_cond('opaque', (name,) + tuple(args))


def ite(c, a, b):
    a = lift(a)
    b = lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == 'not':
        return ite(c.args[0], b, a)
    # pull common monomials
    da = dict(a.t)
    db = dict(b.t)
    common = {m: v for m, v in da.items() if db.get(m) == v}
    base = ZERO
    if common:
        base = _mk(common)
        a = sub(a, base)
        b = sub(b, base)
    # nested ite on the same condition
    a = _drop_known(a, c, True)
    b = _drop_known(b, c, False)
    if a is b:
        return add(base, a)
    if c.kind == 'ge':
        dlt = sub(a, b)
        if _posscale(dlt) is _posscale(c.args[0]) and not c.args[0].isint:
            return add(base, fn('max', a, b))
        if _posscale(neg(dlt)) is _posscale(c.args[0]) and not c.args[0].isint:
            return add(base, fn('min', a, b))
    # polarity: prefer ite(c,x,0)
    if not b.t:
        if len(a.t) == 1 and a.t[0][1] != 1:
            co = a.t[0][1]
            at = _ite_atom(c, scale(a, Fraction(1) / co), b)
            return add(base, scale(of_atom(at), co))
    at = _ite_atom(c, a, b)
    return add(base, of_atom(at))


def _ite_atom(c, a, b):
    return _mk_atom('ite', (c, a, b), c.fv | a.fv | b.fv, max(c.depth, a.depth, b.depth),
                    a.isint and b.isint)


def _drop_known(p, c, val):
    hit = False
    for m, k in p.t:
        for a, e in m:
            at = _atom_list[a]
            if at.kind == 'ite' and at.args[0] is c:
                hit = True
    if not hit:
        return p
    out = ZERO
    for m, k in p.t:
        t = num(k)
        for a, e in m:
            at = _atom_list[a]
            if at.kind == 'ite' and at.args[0] is c:
                t = mul(t, power(at.args[1] if val else at.args[2], e))
            else:
                t = mul(t, _mk({((a, e),): 1}))
        out = add(out, t)
    return out


def ind(c):
    return ite(c, ONE, ZERO)


# ---------------------------------------------------------------- lambdas & bases

class Lam:
    """array lambda: shape + element as a function of ix(0..n-1)"""
    __slots__ = ('shape', 'elem', 'fv', 'depth', 'id')

    def __repr__(self):
        return 'Lam(%s)' % (show(self.elem) if isinstance(self.elem, Poly) else self.elem,)


_lams = {}
_IXS = [ix(i).single() for i in range(8)]


def lam(shape, elem, vars_=None):
    """close `elem` over ix(0..n-1) (or the given variable polys)"""
    shape = tuple(lift(s) for s in shape)
    n = len(shape)
    d = elem.depth + 1
    vs = [v.single() for v in vars_] if vars_ is not None else _IXS[:n]
    elem = subst_any(elem, {vs[i]: bv(d, i) for i in range(n)})
    if elem.depth + 1 != d:
        d2 = elem.depth + 1
        elem = subst_any(elem, {bv(d, i).single(): bv(d2, i) for i in range(n)})
        d = d2
    k = (shape, elem)
    l = _lams.get(k)
    if l is None:
        l = Lam()
        l.shape = shape
        l.elem = elem
        fv = set(elem.fv) - {bv(d, i).single() for i in range(n)}
        dep = d
        for s in shape:
            fv |= s.fv
        l.fv = frozenset(fv)
        l.depth = dep
        l.id = len(_lams)
        _lams[k] = l
    return l


def lam_vars(l):
    d = l.elem.depth + 1
    return [bv(d, i) for i in range(len(l.shape))]


class Base:
    """something that can be indexed: an input array, or the result of an
    uninterpreted/summarised array operation."""
    __slots__ = ('kind', 'args', 'shape', 'fv', 'depth', 'id', 'isint')

    def __repr__(self):
        return show_base(self)


_bases = {}


def base(kind, args, shape, isint=False):
    shape = tuple(lift(s) for s in shape) if shape is not None else None
    k = (kind, args, shape)
    b = _bases.get(k)
    if b is None:
        b = Base()
        b.kind = kind
        b.args = args
        b.shape = shape
        b.isint = isint
        fv = set()
        dep = 0
        for a in _walk_args(args):
            fv |= a.fv
            dep = max(dep, a.depth)
        if shape is not None:
            for a in shape:
                fv |= a.fv
        b.fv = frozenset(fv)
        b.depth = dep
        b.id = len(_bases)
        _bases[k] = b
    return b


def _walk_args(args):
    for a in args:
        if isinstance(a, (Poly, Cond, Lam)):
            yield a
        elif isinstance(a, Base):
            yield a
        elif isinstance(a, tuple):
            yield from _walk_args(a)


PERIODIC = {}    # atom id of a size symbol -> True: indices along such an axis are reduced


def declare_periodic(p):
    PERIODIC[p.single().id] = True


_PHI = {}


def ref(b, *idx):
    out = []
    for n, p in enumerate(idx):
        p = lift(p)
        if b.shape is not None and p.t:
            s = b.shape[n].single()
            if s is not None and s.id in PERIODIC:
                m = ((s.id, 1),)
                for mm, c in p.t:
                    if mm == m and isinstance(c, int):
                        p = sub(p, _mk({m: c}))
                        break
        out.append(p)
    fv = set(b.fv)
    dep = b.depth
    for p in out:
        fv |= p.fv
        dep = max(dep, p.depth)
    return of_atom(_mk_atom('ref', (b,) + tuple(out), frozenset(fv), dep, b.isint))


# ---------------------------------------------------------------- binders

def _bind(op, cnt, mk_payload, dep):
    return None


def bsum(var, lo, hi, body):
    """Sum_{var=lo}^{hi} body   (var: lv/ix poly)"""
    va = var.single()
    lo = lift(lo)
    hi = lift(hi)
    body = lift(body)
    cnt = add(sub(hi, lo), ONE)
    return _sum_norm(va, cnt, subst(body, {va: add(var, lo)}) if lo.t else body)


def _sum_norm(va, cnt, body):
    """Sum_{va=0}^{cnt-1} body"""
    cc = cnt.const
    if cc is not None and cc <= 0:
        return ZERO
    if cc == 1:
        return subst(body, {va: ZERO})
    out = ZERO
    for m, c in body.t:
        inside = []
        outside = []
        for a, e in m:
            at = _atom_list[a]
            if va in at.fv:
                # split exp(x(va)+y) -> exp(y)*exp(x(va))
                if at.kind == 'fn' and at.args[0] == 'exp' and e == 1:
                    dep_, ind_ = {}, {}
                    for mm, k in at.args[1].t:
                        if any(va in _atom_list[q].fv for q, _ in mm):
                            dep_[mm] = k
                        else:
                            ind_[mm] = k
                    if ind_:
                        i2 = fn('exp', _mk(ind_))
                        d2 = fn('exp', _mk(dep_))
                        outside.extend(i2.t[0][0])
                        inside.extend(d2.t[0][0])
                        continue
                inside.append((a, e))
            else:
                outside.append((a, e))
        om = _mk({tuple(sorted(outside)): c})
        if not inside:
            out = add(out, mul(om, cnt))
            continue
        im = _mk({tuple(sorted(inside)): 1})
        out = add(out, mul(om, _sum_mono(va, cnt, im)))
    return out


def _sum_mono(va, cnt, im):
    # gated body with a condition on the variable: restrict the range
    (m, c), = im.t
    v = of_atom(va)
    for a, e in m:
        at = _atom_list[a]
        if at.kind == 'ite' and at.args[2] is ZERO and va in at.args[0].fv:
            r = _restrict(va, cnt, at.args[0])
            if r is not None:
                lo, n2, rest = r
                rest_m = tuple(x for x in m if x[0] != a)
                body = mul(_mk({rest_m: 1}), power(at.args[1], e))
                body = ite(rest, body, ZERO)
                return bsum(v, lo, sub(add(lo, n2), ONE), body)
    # orientation: choose between v and cnt-1-v
    d = im.depth + 1
    b = bv(d)
    b1 = subst(im, {va: b})
    if b1.depth + 1 != d:
        d = b1.depth + 1
        b = bv(d)
        b1 = subst(im, {va: b})
    b2 = subst(im, {va: sub(sub(cnt, ONE), b)})
    if _orient_key(b2, b.single()) < _orient_key(b1, b.single()) and len(b2.t) == 1:
        b1 = b2
        (m2, c2), = b1.t
        if c2 != 1:
            return scale(_sum_norm(b.single(), cnt, scale(b1, Fraction(1) / c2)), c2)
        # factors may have become independent of the variable -> renormalise
        if any(b.single() not in _atom_list[a].fv for a, e in m2):
            return _mk_sum_atom_split(b.single(), cnt, b1)
    at = _mk_atom('sum', (cnt, b1), cnt.fv | (b1.fv - {b.single()}), max(d, cnt.depth))
    return of_atom(at)


def _mk_sum_atom_split(ba, cnt, p):
    (m, c), = p.t
    inside = tuple((a, e) for a, e in m if ba in _atom_list[a].fv)
    outside = tuple((a, e) for a, e in m if ba not in _atom_list[a].fv)
    im = _mk({inside: 1})
    at = _mk_atom('sum', (cnt, im), cnt.fv | (im.fv - {ba}), max(im.depth + 1, cnt.depth))
    return mul(_mk({outside: c}), of_atom(at))


def _orient_key(p, va):
    """count of reference indices in which va occurs negatively (fewer is better)"""
    negs = [0, 0]
    seen = set()

    def idx(q):
        for m, c in q.t:
            if any(_atom_list[a] is va for a, e in m):
                if c < 0:
                    negs[0] += 1

    def w(q):
        if q.id in seen:
            return
        seen.add(q.id)
        for m, c in q.t:
            for a, e in m:
                at = _atom_list[a]
                if va not in at.fv:
                    continue
                if at.kind == 'ref':
                    for z in at.args[1:]:
                        idx(z)
                        w(z)
                elif at.kind == 'fn':
                    for z in at.args[1:]:
                        if isinstance(z, Poly):
                            w(z)
                elif at.kind == 'ite':
                    w(at.args[1])
                    w(at.args[2])
                    wc(at.args[0])
                elif at.kind == 'den':
                    w(at.args[0])
                elif at.kind in BINDERS:
                    for z in at.args:
                        if isinstance(z, Poly):
                            w(z)

    def wc(c):
        for z in c.args:
            if isinstance(z, Poly):
                w(z)
            elif isinstance(z, Cond):
                wc(z)
    w(p)
    return tuple(negs)


RANGE_PROVER = [None]   # set by ranges.py: prove_ge0(poly, extra ranges) -> bool


def _restrict(va, cnt, cond):
    """cond restricts va in [0,cnt): return (lo, n, restcond) if one conjunct can
    be absorbed into the range, else None"""
    parts = list(cond.args) if cond.kind == 'and' else [cond]
    for i, p in enumerate(parts):
        if p.kind not in ('ge', 'eq') or va not in p.fv:
            continue
        q = p.args[0]
        if not q.isint:
            continue
        coef = None
        bad = False
        rest = ZERO
        for m, c in q.t:
            occ = [(a, e) for a, e in m if va in _atom_list[a].fv]
            if not occ:
                rest = add(rest, _mk({m: c}))
            elif len(m) == 1 and m[0][1] == 1 and _atom_list[m[0][0]] is va and coef is None:
                coef = c
            else:
                bad = True
        if bad or coef not in (1, -1):
            continue
        others = c_and(*(parts[:i] + parts[i + 1:]))
        prove = RANGE_PROVER[0]
        if prove is None:
            return None
        if p.kind == 'eq':
            val = neg(rest) if coef == 1 else rest
            inside = prove(val) and prove(sub(sub(cnt, ONE), val))
            if inside:
                return val, ONE, others
            # may fall outside: keep membership as a condition
            if va in val.fv:
                continue
            return val, ONE, c_and(others, c_ge(val), c_ge(sub(sub(cnt, ONE), val)))
        if coef == 1:      # va >= -rest
            lo = neg(rest)
            if prove(neg(lo)):
                return ZERO, cnt, others
            if prove(lo) and prove(sub(cnt, lo)):
                return lo, sub(cnt, lo), others
        else:              # va <= rest
            if prove(sub(rest, sub(cnt, ONE))):
                return ZERO, cnt, others
            if prove(add(rest, ONE)) and prove(sub(sub(cnt, ONE), rest)):
                return ZERO, add(rest, ONE), others
    return None


BINDERS = ('sum', 'bmax', 'bmin', 'last')


def bred(op, var, lo, hi, body):
    """max/min over var in lo..hi"""
    va = var.single()
    lo = lift(lo)
    hi = lift(hi)
    cnt = add(sub(hi, lo), ONE)
    if lo.t:
        body = subst(body, {va: add(var, lo)})
    if cnt.const == 1:
        return subst(body, {va: ZERO})
    if va not in body.fv:
        return body
    # max of a negated body -> -min
    if all(c < 0 for m, c in body.t):
        return neg(bred('bmin' if op == 'bmax' else 'bmax', var, ZERO, sub(cnt, ONE), neg(body)))
    d = body.depth + 1
    b = bv(d)
    b1 = subst(body, {va: b})
    b2 = subst(body, {va: sub(sub(cnt, ONE), b)})
    if _orient_key(b2, b.single()) < _orient_key(b1, b.single()):
        b1 = b2
    return of_atom(_mk_atom(op, (cnt, b1), cnt.fv | (b1.fv - {b.single()}), max(d, cnt.depth),
                            body.isint))


def blast(var, lo, hi, cond, val, init):
    """value of `val` at the last var in lo..hi for which cond holds, else init"""
    va = var.single()
    lo = lift(lo)
    hi = lift(hi)
    cnt = add(sub(hi, lo), ONE)
    if lo.t:
        cond = subst_cond(cond, {va: add(var, lo)})
        val = subst(val, {va: add(var, lo)})
    d = max(cond.depth, val.depth) + 1
    b = bv(d)
    c1 = subst_cond(cond, {va: b})
    v1 = subst(val, {va: b})
    fv = cnt.fv | ((c1.fv | v1.fv) - {b.single()}) | init.fv
    return of_atom(_mk_atom('last', (cnt, c1, v1, init), fv, max(d, cnt.depth, init.depth),
                            val.isint and init.isint))


def binder_var(at):
    if at.kind == 'last':
        d = max(at.args[1].depth, at.args[2].depth) + 1
    else:
        d = at.args[1].depth + 1
    return bv(d)


# ---------------------------------------------------------------- substitution

_subst_tables = {}


def _mapkey(mp):
    return tuple(sorted((a.id, type(p).__name__, p.id) for a, p in mp.items()))


_subst_rec = None


class _Sub:
    """substitution of variables (Atoms) by Polys; optional hook for refs"""
    __slots__ = ('mp', 'keys', 'memo', 'cmemo', 'lmemo', 'bmemo', 'hook')

    def __init__(self, mp, hook=None):
        self.mp = mp
        self.keys = frozenset(mp)
        self.memo = {}
        self.cmemo = {}
        self.lmemo = {}
        self.bmemo = {}
        self.hook = hook

    def active(self, fv):
        return self.hook is not None or not self.keys.isdisjoint(fv)

    def poly(self, p):
        if self.hook is None and self.keys.isdisjoint(p.fv):
            return p
        r = self.memo.get(p.id)
        if r is not None:
            return r
        d = {}
        parts = []
        for m, c in p.t:
            simple = []
            t = None
            for a, e in m:
                at = _atom_list[a]
                if self.hook is None and self.keys.isdisjoint(at.fv):
                    simple.append((a, e))
                    continue
                s = self.atom(at)
                if s.single() is at:
                    simple.append((a, e))
                    continue
                s = power(s, e)
                t = s if t is None else mul(t, s)
            sm = _mk({tuple(simple): c})
            parts.append(sm if t is None else mul(sm, t))
        r = addn(parts)
        self.memo[p.id] = r
        return r

    def atom(self, at):
        k = at.kind
        if k in ('ix', 'lv', 'bv', 'phi'):
            r = self.mp.get(at)
            return of_atom(at) if r is None else r
        if k == 'sym':
            if self.hook is not None:
                r = self.hook(at, self)
                if r is not None:
                    return r
            return of_atom(at)
        if k == 'ref':
            if self.hook is not None:
                r = self.hook(at, self)
                if r is not None:
                    return r
            b = self.base(at.args[0])
            idx = [self.poly(p) for p in at.args[1:]]
            if isinstance(b, Lam):
                return apply_lam(b, idx)
            return ref(b, *idx)
        if k == 'fn':
            if at.args[0] == 'special':
                return of_atom(at)
            return fn(at.args[0], *[self.arg(x) for x in at.args[1:]])
        if k == 'den':
            p = self.poly(at.args[0])
            if not p.t:
                raise DivZero()
            return p
        if k == 'ite':
            c = self.cond(at.args[0])
            if c is TRUE:
                return self.poly(at.args[1])
            if c is FALSE:
                return self.poly(at.args[2])
            try:
                a = self.poly(at.args[1])
            except DivZero:
                a = divzero()
            try:
                b = self.poly(at.args[2])
            except DivZero:
                b = divzero()
            return ite(c, a, b)
        if k in ('sum', 'bmax', 'bmin'):
            cnt = self.poly(at.args[0])
            bvar = binder_var(at)
            f = fresh_lv('s')
            body = subst(at.args[1], {bvar.single(): f})
            body = self.poly(body)
            if k == 'sum':
                return _sum_norm(f.single(), cnt, body)
            return bred(k, f, ZERO, sub(cnt, ONE), body)
        if k == 'last':
            cnt = self.poly(at.args[0])
            bvar = binder_var(at)
            f = fresh_lv('s')
            mp = {bvar.single(): f}
            c = self.cond(subst_cond(at.args[1], mp))
            v = self.poly(subst(at.args[2], mp))
            return blast(f, ZERO, sub(cnt, ONE), c, v, self.poly(at.args[3]))
        raise AssertionError(k)

    def arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, Lam):
            return self.lam(x)
        if isinstance(x, Base):
            return self.base(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def lam(self, l):
        if not self.active(l.fv):
            return l
        r = self.lmemo.get(l.id)
        if r is None:
            vs = lam_vars(l)
            fr = [fresh_lv('x') for _ in vs]
            e = subst_any(l.elem, {vs[i].single(): fr[i] for i in range(len(vs))})
            r = lam([self.poly(q) for q in l.shape], self.any(e), fr)
            self.lmemo[l.id] = r
        return r

    def any(self, x):
        return self.cond(x) if isinstance(x, Cond) else self.poly(x)

    def base(self, b):
        if not self.active(b.fv):
            return b
        if self.hook is not None:
            r = self.hook(b, self)
            if r is not None:
                return r
        r = self.bmemo.get(b.id)
        if r is None and b.kind == 'phiarr':
            v = self.mp.get(b.args[0].single())
            if isinstance(v, (Lam, Base)):
                r = v
                self.bmemo[b.id] = r
        if r is None and b.kind == 'rec':
            r = _subst_rec(b, self)
            self.bmemo[b.id] = r
        if r is None:
            r = base(b.kind, tuple(self.arg(a) for a in b.args),
                     None if b.shape is None else tuple(self.poly(s) for s in b.shape), b.isint)
            self.bmemo[b.id] = r
        return r

    def cond(self, c):
        if self.hook is None and self.keys.isdisjoint(c.fv):
            return c
        r = self.cmemo.get(c.id)
        if r is not None:
            return r
        k = c.kind
        if k in ('true', 'false'):
            r = c
        elif k == 'ge':
            r = c_ge(self.poly(c.args[0]))
        elif k == 'eq':
            r = c_eq(self.poly(c.args[0]))
        elif k == 'not':
            r = c_not(self.cond(c.args[0]))
        elif k == 'and':
            r = c_and(*[self.cond(a) for a in c.args])
        elif k == 'or':
            r = c_or(*[self.cond(a) for a in c.args])
        else:
            r = _mk_cond('opaque', (c.args[0],) + tuple(self.arg(a) for a in c.args[1:]))
        self.cmemo[c.id] = r
        return r


def divzero():
    return of_atom(_mk_atom('fn', ('special', 'divzero'), _EMPTY))


def _get_sub(mp):
    mp = {a: p for a, p in mp.items() if not (isinstance(p, Poly) and p.single() is a)}
    if not mp:
        return None
    k = _mapkey(mp)
    s = _subst_tables.get(k)
    if s is None:
        s = _Sub(mp)
        if len(_subst_tables) > 20000:
            _subst_tables.clear()
        _subst_tables[k] = s
    return s


def subst(p, mp):
    s = _get_sub(mp)
    return p if s is None else s.poly(p)


def subst_cond(c, mp):
    s = _get_sub(mp)
    return c if s is None else s.cond(c)


def subst_any(x, mp):
    return subst_cond(x, mp) if isinstance(x, Cond) else subst(x, mp)


def rewrite(x, hook):
    """apply hook(atom_or_base, self) -> replacement Poly/Base/None everywhere"""
    s = _Sub({}, hook)
    return s.cond(x) if isinstance(x, Cond) else s.poly(x)


def apply_lam(l, idx):
    return subst_any(l.elem, {v.single(): idx[i] for i, v in enumerate(lam_vars(l))})


def phi(name, isint=False):
    return of_atom(_mk_atom('phi', (name, next(_fresh)), _EMPTY, 0, isint))


def phiarr(p, shape, isint=False):
    return base('phiarr', (p,), shape, isint)


# ---------------------------------------------------------------- traversal

def walk(x, f, seen=None):
    """call f(node) once for every Poly's atom, Base, Cond and Lam below x"""
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, str) or y is None or isinstance(y, (int, float, bool, Fraction)):
            continue
        if isinstance(y, tuple):
            st.extend(y)
            continue
        k = (type(y).__name__, y.id)
        if k in seen:
            continue
        seen.add(k)
        if isinstance(y, Poly):
            for m, c in y.t:
                for a, e in m:
                    st.append(_atom_list[a])
            continue
        f(y)
        if isinstance(y, Lam):
            st.append(y.elem)
            st.extend(y.shape)
        else:
            st.extend(y.args)


def bigger(x, limit):
    """more than `limit` distinct nodes"""
    n = [0]

    class Stop(Exception):
        pass

    def f(y):
        n[0] += 1
        if n[0] > limit:
            raise Stop
    try:
        walk(x, f)
    except Stop:
        return True
    return False


def let(elem, shape):
    """name a large closed element: the definition is shared, index
    substitutions only touch the arguments.  Loop variables occurring in the
    definition become further arguments."""
    free = sorted((a for a in elem.fv if a not in _IXS[:len(shape)]), key=lambda a: a.id)
    if any(a.kind not in ('lv',) for a in free):
        return None
    vs = [ix(i) for i in range(len(shape))] + [of_atom(a) for a in free]
    l = lam(tuple(shape) + (ONE,) * len(free), elem, vs)
    b = base('let', (l,), None)
    return ref(b, *vs)


def bases_in(x):
    out = set()

    def f(n):
        if isinstance(n, Base):
            out.add(n)
    walk(x, f)
    return out


def syms_in(x):
    out = set()

    def f(n):
        if isinstance(n, Atom) and n.kind == 'sym':
            out.add(n.args[0])
    walk(x, f)
    return out


# ---------------------------------------------------------------- printing

def show_atom(a, d=0):
    k = a.kind
    if k == 'sym':
        return a.args[0]
    if k == 'ix':
        return 'IX%d' % a.args[0]
    if k == 'lv':
        return a.args[0]
    if k == 'bv':
        return 'b%d_%d' % a.args if a.args[1] else 'b%d' % a.args[0]
    if k == 'phi':
        return 'phi%s' % (a.args,)
    if d > 12:
        return '..'
    if k == 'ref':
        return '%s[%s]' % (show_base(a.args[0], d + 1), ','.join(show(p, d + 1) for p in a.args[1:]))
    if k == 'fn':
        return '%s(%s)' % (a.args[0], ', '.join(_sh(x, d + 1) for x in a.args[1:]))
    if k == 'den':
        return '{%s}' % show(a.args[0], d + 1)
    if k == 'ite':
        return '[%s ? %s : %s]' % (show_cond(a.args[0], d + 1), show(a.args[1], d + 1), show(a.args[2], d + 1))
    if k in ('sum', 'bmax', 'bmin'):
        return '%s<%s<%s>(%s)' % (k, show(binder_var(a)), show(a.args[0], d + 1), show(a.args[1], d + 1))
    if k == 'last':
        return 'last<%s<%s|%s>(%s else %s)' % (show(binder_var(a)), show(a.args[0], d + 1),
                                               show_cond(a.args[1], d + 1), show(a.args[2], d + 1),
                                               show(a.args[3], d + 1))
    return k


def _sh(x, d=0):
    if isinstance(x, Poly):
        return show(x, d)
    if isinstance(x, Cond):
        return show_cond(x, d)
    if isinstance(x, Lam):
        return 'Lam#%d' % x.id
    return str(x)


def show_base(b, d=0):
    if b.kind in ('in', 'undef', 'unset', 'dummy'):
        return b.args[-1]
    if d > 6:
        return '%s#%d' % (b.kind, b.id)
    return '%s%s#%d' % (b.kind, tuple(a if isinstance(a, str) else '.' for a in b.args[:3]), b.id)


def show_cond(c, d=0):
    k = c.kind
    if k in ('true', 'false'):
        return k
    if k == 'ge':
        return '%s>=0' % show(c.args[0], d + 1)
    if k == 'eq':
        return '%s==0' % show(c.args[0], d + 1)
    if k == 'not':
        return '!(%s)' % show_cond(c.args[0], d)
    if k in ('and', 'or'):
        return (' & ' if k == 'and' else ' | ').join('(%s)' % show_cond(x, d) for x in c.args)
    return '%s(%s)' % (c.args[0], ','.join(_sh(x, d + 1) for x in c.args[1:]))


def show(p, d=0):
    if not p.t:
        return '0'
    s = []
    for m, c in p.t:
        f = []
        for a, e in m:
            r = show_atom(_atom_list[a], d + 1)
            f.append(r if e == 1 else '%s^%d' % (r, e))
        b = '*'.join(f)
        if not b:
            s.append(str(c))
        elif c == 1:
            s.append(b)
        elif c == -1:
            s.append('-' + b)
        else:
            s.append('%s*%s' % (c, b))
        if len(s) > 30:
            s.append('...')
            break
    return ' + '.join(s).replace('+ -', '- ')
