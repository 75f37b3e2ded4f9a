"""Standard library helpers and further numpy functions (again: nothing here is used by the package as it stands)."""
import ast
import itertools
from . import terms as T
from .terms import Poly, Cond, ZERO, ONE, add, sub, mul, neg, num, ite, ix, subst, c_not, c_eq
from .pyval import PyRaise, Unk, Arr, ListV, DictV, Builtin, ModuleV, Obj, FuncV, BoundV, ClassV, NTuple, PropV, \
    Opaque, WhereIdx
from . import npmodel as N
from .npmodel import bind, REQ, giveup, axes, _const, reduce, concat, expand


# ------------------------------------------------------------------ numpy
def f_flatnonzero(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    if not isinstance(a, Arr) or len(a.shape) != 1:
        giveup('flatnonzero')
    return N.argw(I, a, 1)


def root_of(I, a, e):
    """index of the only zero of a non-negative expression |g| or g^2 along a 1-d array, if that is evident"""
    at = e.single() if isinstance(e, Poly) and not isinstance(e.const, int) else None
    g = None
    if at is not None and at.kind == 'fn' and at.args[0] == 'abs':
        g = at.args[1]
    if g is None:
        return None
    r = N.argw(I, I.newarr(a.shape, c_eq(g)), 1)
    if r.shape[0].const == 1:
        return I.aslin(r)
    return None


def _arg(kind):
    def f(I, args, kw):
        a, axis = bind('arg' + kind, [('a', REQ), ('axis', None)], args, kw, I)
        a = I.plain(a)
        if isinstance(a, Unk):
            return a
        if not isinstance(a, Arr) or len(a.shape) != 1 or a.sel:
            giveup('arg%s of more than one dimension' % kind)
        e = I.read(a)
        if isinstance(e, Cond):
            if kind == 'min':
                e = c_not(e)
            c = I.newarr(a.shape, e)
            r = N.argw(I, c, 1)
            if r.shape[0].const == 1:
                return I.aslin(r)
        else:
            if kind == 'min':
                try:
                    r = root_of(I, a, e)
                except (AttributeError, IndexError):
                    r = None
                if r is not None:
                    return r
            m = reduce(I, a, None, 'bm' + kind[1:] if False else ('bmin' if kind == 'min' else 'bmax'))
            c = I.newarr(a.shape, c_eq(sub(e, m)))
        e = I.read(c)
        n = a.shape[0]
        v, rv = T.fresh_lv('w'), T.fresh_lv('w')
        cv = T.subst_cond(e, {T._IXS[0]: v})
        back = sub(sub(n, ONE), rv)
        return sub(sub(n, ONE), T.blast(rv, ZERO, sub(n, ONE), T.subst_cond(cv, {v.single(): back}), rv,
                                        sub(n, ONE)))
    return f


def f_nan_to_num(I, args, kw):
    x, copy, nan, pos, ng = bind('nan_to_num', [('x', REQ), ('copy', True), ('nan', ZERO), ('posinf', None),
                                                ('neginf', None)], args, kw, I)
    p = I.plain(x)
    if isinstance(p, Arr) and copy is not True:
        I.setitem(p, Ellipsis, I.copyarr(p))
        return p
    return I.map(lambda y: I.nume(y), x)


def f_clobber(n):
    def f(I, args, kw):
        for v in args[:n]:
            v = I.force(v)
            if isinstance(v, Arr):
                I.setitem(v, Ellipsis, I.newarr(v.shape, T.ref(T.base(
                    'op', ('unknown%d' % I.newid(),), v.shape), *[ix(i) for i in range(len(v.shape))])))
                I.note('in-place update that is not modelled')
        return None
    return f


def f_column_stack(I, args, kw):
    xs = [I.plain(x) for x in I.items(args[0])]
    xs = [expand(I, x, [1]) if len(x.shape) == 1 else x for x in xs]
    return concat(I, xs, 1)


def f_dstack(I, args, kw):
    xs = [I.plain(x) for x in I.items(args[0])]
    if any(len(x.shape) < 3 for x in xs):
        giveup('dstack')
    return concat(I, xs, 2)


def f_atleast(k):
    def f(I, args, kw):
        a = N.asarray(I, args[0])
        if isinstance(a, Unk):
            return a
        if not isinstance(a, Arr):
            a = I.newarr((ONE,), I.nume(a))
        if k == 2 and len(a.shape) == 1:
            return expand(I, a, [0])
        if len(a.shape) >= k:
            return a
        giveup('atleast')
    return f


def f_rollaxis(I, args, kw):
    a, ax, start = bind('rollaxis', [('a', REQ), ('axis', REQ), ('start', ZERO)], args, kw, I)
    n = len(a.shape)
    k = axes(I, ax, n)[0]
    s = int(_const(I, start))
    if s < 0:
        s += n
    o = [i for i in range(n) if i != k]
    o.insert(s - 1 if k < s else s, k)
    return N.permute(I, a, o)


def f_std(ddof0):
    def f(I, args, kw):
        giveup('standard deviation')
    return f


def f_isinf(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    return I.map(lambda x: T.FALSE, a)


def f_interp_none(I, args, kw):
    giveup('not modelled')


def f_ndindex(I, args, kw):
    ls = []
    if len(args) == 1 and isinstance(I.force(args[0]), tuple):
        args = list(I.force(args[0]))
    for a in args:
        p = I.aslin(a)
        if p is None or p.const is None or p.const > 64:
            giveup('ndindex')
        ls.append([num(i) for i in range(int(p.const))])
    return I.newlist([tuple(x) for x in itertools.product(*ls)])


def f_apply_over(I, args, kw):
    giveup('apply_over_axes')


def f_subscript(name):
    o = Opaque(name, {}, None)
    return o


NUMPY = dict(flatnonzero=f_flatnonzero, argmin=_arg('min'), argmax=_arg('max'), nanargmin=_arg('min'),
             nanargmax=_arg('max'), nan_to_num=f_nan_to_num, put=f_clobber(1), place=f_clobber(1),
             putmask=f_clobber(1), fill_diagonal=f_clobber(1), put_along_axis=f_clobber(1),
             column_stack=f_column_stack, dstack=f_dstack, atleast_2d=f_atleast(2), atleast_3d=f_atleast(3),
             rollaxis=f_rollaxis, isinf=f_isinf, ndindex=f_ndindex,
             logical_xor=lambda I, a, k: I.map(lambda x, y: T.c_or(T.c_and(x, c_not(y)), T.c_and(c_not(x), y)),
                                               *[I.map(lambda z: z if isinstance(z, Cond) else c_not(c_eq(z)), q)
                                                 for q in a]),
             float16=lambda I, a, k: giveup('float16'), result_type=lambda I, a, k: Unk('dtype'),
             dtype=lambda I, a, k: Unk('dtype'), promote_types=lambda I, a, k: Unk('dtype'),
             may_share_memory=lambda I, a, k: Unk('may_share_memory'),
             seterr=lambda I, a, k: I.newdict({}), set_printoptions=lambda I, a, k: None)


REDUCE = {'add': 'sum', 'maximum': 'max', 'minimum': 'min', 'multiply': 'prod', 'logical_and': 'all',
          'logical_or': 'any'}


def builtin_attr(I, o, name):
    """attributes of a builtin function: the methods of universal functions"""
    n = o.name[3:] if o.name.startswith('np.') else None
    if n is None:
        return None
    if name == 'reduce' and n in REDUCE:
        def red(I, args, kw):
            args, kw = list(args), dict(kw)
            if len(args) < 2 and 'axis' not in kw:
                kw['axis'] = ZERO
            return N._np_attrs()[REDUCE[n]].fn(I, args, kw)
        return Builtin('reduce', red)
    if name == 'accumulate' and n == 'add':
        def acc(I, args, kw):
            args, kw = list(args), dict(kw)
            if len(args) < 2 and 'axis' not in kw:
                kw['axis'] = ZERO
            return N.f_cumsum(I, args, kw)
        return Builtin('accumulate', acc)
    if name == 'outer':
        def outer(I, args, kw):
            a, b = I.plain(args[0]), I.plain(args[1])
            for q in (a, b):
                if isinstance(q, Unk):
                    return q
            if isinstance(a, Arr) and isinstance(b, Arr):
                k = len(a.shape)
                a = expand(I, a, list(range(k, k + len(b.shape))))
            return o.fn(I, [a, b], dict(kw))
        return Builtin('outer', outer)
    if name == 'at':
        return Builtin('at', f_clobber(1))
    return None


# ------------------------------------------------------------------ copy
def _copy(deep):
    def f(I, args, kw):
        memo = {}

        def go(v, top):
            v = I.force(v)
            if isinstance(v, Arr):
                return I.copyarr(v) if deep or top else v
            if isinstance(v, (Poly, Cond, bool, str, type(None), FuncV, BoundV, ClassV, Builtin, ModuleV, slice)):
                return v
            if isinstance(v, Unk):
                return v
            if not deep and not top:
                return v
            if isinstance(v, NTuple):
                return NTuple([go(x, False) for x in v], v.cls)
            if isinstance(v, tuple):
                return tuple(go(x, False) for x in v)
            if isinstance(v, (DictV, ListV, Obj)):
                if v.id in memo:
                    return memo[v.id]
                c = I.h[v.id]
                if isinstance(v, Obj):
                    for m in ('__copy__', '__deepcopy__', '__reduce__', '__getstate__'):
                        if I.class_lookup(v.cls, m) is not None:
                            giveup('copy protocol')
                    r = Obj(I.alloc({}), v.cls)
                elif isinstance(v, DictV):
                    r = I.newdict({})
                else:
                    r = type(v)(I.alloc(()))
                memo[v.id] = r
                if isinstance(c, dict):
                    I.h[r.id] = {k: go(x, False) for k, x in c.items()}
                elif isinstance(c, tuple):
                    I.h[r.id] = tuple(go(x, False) for x in c)
                else:
                    giveup('copy of %r' % (v,))
                return r
            giveup('copy of %r' % (v,))
        return go(args[0], True)
    return f


# ------------------------------------------------------------------ functools / operator / itertools / ...
def f_partial(I, args, kw):
    f, pre, pk = args[0], list(args[1:]), dict(kw)
    return Builtin('partial', lambda I, a, k: I.call(f, pre + list(a), dict(pk, **k)))


def f_reduce(I, args, kw):
    l = I.items(args[1])
    if len(args) > 2:
        acc = args[2]
    elif l:
        acc, l = l[0], l[1:]
    else:
        raise PyRaise('TypeError', 'reduce() of empty iterable')
    for x in l:
        acc = I.call(args[0], [acc, x], {})
    return acc


def f_ident_deco(I, args, kw):
    """functools.wraps(f) and similar: the decorated function itself"""
    return Builtin('deco', lambda I, a, k: a[0])


_OPS = dict(add=ast.Add, sub=ast.Sub, mul=ast.Mult, truediv=ast.Div, floordiv=ast.FloorDiv, mod=ast.Mod, pow=ast.Pow,
            and_=ast.BitAnd, or_=ast.BitOr, matmul=ast.MatMult)
_CMP = dict(lt=ast.Lt, le=ast.LtE, gt=ast.Gt, ge=ast.GtE, eq=ast.Eq, ne=ast.NotEq)


def _opfn(c):
    return lambda I, a, k: I.binop(c(), a[0], a[1])


def _cmpfn(c):
    return lambda I, a, k: I.compare(c(), a[0], a[1])


def f_attrgetter(I, args, kw):
    def one(I, o, path):
        for p in path.split('.'):
            o = I.getattr_(o, p)
        return o

    def g(I, a, k):
        r = tuple(one(I, a[0], p) for p in args)
        return r[0] if len(args) == 1 else r
    if not all(isinstance(p, str) for p in args):
        giveup('attrgetter')
    return Builtin('attrgetter', g)


def f_itemgetter(I, args, kw):
    def g(I, a, k):
        r = tuple(I.getitem(a[0], p) for p in args)
        return r[0] if len(args) == 1 else r
    return Builtin('itemgetter', g)


def f_methodcaller(I, args, kw):
    return Builtin('methodcaller', lambda I, a, k: I.call(I.getattr_(a[0], args[0]), list(args[1:]), dict(kw)))


def f_accumulate(I, args, kw):
    f = args[1] if len(args) > 1 else kw.get('func')
    out, acc = [], None
    if 'initial' in kw:
        giveup('accumulate')
    for i, x in enumerate(I.items(args[0])):
        acc = x if i == 0 else (I.call(f, [acc, x], {}) if f is not None else I.binop(ast.Add(), acc, x))
        out.append(acc)
    return I.newlist(out)


def f_islice(I, args, kw):
    l = I.items(args[0])
    a = [None if x is None else int(_const(I, x)) for x in args[1:]]
    return I.newlist(list(itertools.islice(l, *a)))


def f_repeat(I, args, kw):
    if len(args) < 2:
        giveup('endless repeat')
    n = _const(I, args[1])
    return I.newlist([args[0]] * int(n))


def f_zip_longest(I, args, kw):
    ls = [I.items(a) for a in args]
    return I.newlist([tuple(x) for x in itertools.zip_longest(*ls, fillvalue=kw.get('fillvalue'))])


def f_comb(kind):
    def f(I, args, kw):
        r = int(_const(I, args[1])) if len(args) > 1 else None
        g = getattr(itertools, kind)
        return I.newlist([tuple(x) for x in (g(I.items(args[0]), r) if r is not None else g(I.items(args[0])))])
    return f


def f_pairwise(I, args, kw):
    l = I.items(args[0])
    return I.newlist([tuple(x) for x in zip(l, l[1:])])


def f_starmap(I, args, kw):
    return I.newlist([I.call(args[0], I.items(x), {}) for x in I.items(args[1])])


def f_chain_from(I, args, kw):
    return I.newlist([y for x in I.items(args[0]) for y in I.items(x)])


def f_isclose(I, args, kw):
    giveup('math.isclose')


def noop(I, args, kw):
    return None


def b(name, f):
    return Builtin(name, f)


def logger():
    d = {n: b('log', noop) for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log',
                                     'setLevel', 'addHandler', 'removeHandler')}
    d['isEnabledFor'] = b('isEnabledFor', lambda I, a, k: Unk('logging level'))
    return Opaque('logger', d)


def module(I, name):
    if name == 'functools':
        return {'partial': b('partial', f_partial), 'reduce': b('reduce', f_reduce), 'wraps': b('wraps', f_ident_deco),
                'cached_property': b('cached_property', lambda I, a, k: PropV(a[0], None))}
    if name == 'operator':
        d = {n: b(n, _opfn(c)) for n, c in _OPS.items()}
        d.update({n: b(n, _cmpfn(c)) for n, c in _CMP.items()})
        d.update(attrgetter=b('attrgetter', f_attrgetter), itemgetter=b('itemgetter', f_itemgetter),
                 methodcaller=b('methodcaller', f_methodcaller), neg=b('neg', lambda I, a, k: I.binop(
                     ast.Mult(), num(-1), a[0])), getitem=b('getitem', lambda I, a, k: I.getitem(a[0], a[1])))
        return d
    if name == 'itertools':
        chain = b('chain', lambda I, a, k: I.newlist([y for x in a for y in I.items(x)]))
        return {'product': b('product', _product), 'chain': chain,
                'accumulate': b('accumulate', f_accumulate), 'islice': b('islice', f_islice),
                'repeat': b('repeat', f_repeat), 'zip_longest': b('zip_longest', f_zip_longest),
                'combinations': b('combinations', f_comb('combinations')),
                'permutations': b('permutations', f_comb('permutations')), 'pairwise': b('pairwise', f_pairwise),
                'starmap': b('starmap', f_starmap)}
    if name == 'copy':
        return {'copy': b('copy', _copy(False)), 'deepcopy': b('deepcopy', _copy(True))}
    if name == 'logging':
        d = {n: b('log', noop) for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'basicConfig',
                                         'exception', 'disable', 'captureWarnings')}
        d['getLogger'] = b('getLogger', lambda I, a, k: logger())
        d['NullHandler'] = b('NullHandler', noop)
        d.update({k: num(v) for k, v in dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50).items()})
        return d
    if name == 'time':
        return {n: b(n, lambda I, a, k: T.fn('clock', num(I.newid()))) for n in
                ('time', 'perf_counter', 'monotonic', 'process_time')}
    return None


def _product(I, args, kw):
    r = int(_const(I, kw.get('repeat', ONE)))
    ls = [I.items(a) for a in args] * r
    return I.newlist([tuple(x) for x in itertools.product(*ls)])
