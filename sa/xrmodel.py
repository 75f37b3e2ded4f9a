"""xarray: the library's semantics are read from spec/xarray_model.py (source interpreted like any other module);
this file provides its builtins and routes operators on its objects."""
import ast
import os
from . import terms as T, ranges, world
from .pyval import *          # noqa: F401,F403
from .pyval import Unk, PyRaise, Builtin, ModuleV, Obj, Arr, Cond, ListV, DictV
from .terms import Poly, ix, sub, num, ZERO, ONE, fn, mul


def GiveUp(why):
    from . import pyabs
    return pyabs.GiveUp(why)


MODEL = 'xarray_model'
SEC = T.sym('second')
T.declare_positive(SEC)
TICK = T.sym('time resolution')
T.declare_positive(TICK)
UNITS = {'ns': (1, 10 ** 9), 'us': (1, 10 ** 6), 'ms': (1, 1000), 's': (1, 1), 'm': (60, 1), 'h': (3600, 1),
         'D': (86400, 1), 'W': (604800, 1)}


def timedelta(I, n, unit):
    n = I.plain(n)
    if isinstance(n, Unk):
        return n
    if unit is None:
        return I.map(lambda x: mul(I.nume(x), TICK), n)
    if unit not in UNITS:
        raise GiveUp('time unit %s' % unit)
    a, b = UNITS[unit]
    return I.map(lambda x: mul(I.nume(x), T.div(mul(num(a), SEC), num(b))), n)


def model(I):
    m = getattr(I, 'xr_model', None)
    if m is None:
        m = I.load_file(MODEL, os.path.join(world.SPEC, MODEL + '.py'))
        I.xr_model = m
        bad = [e for e in getattr(I, 'import_errors', [])]
        if bad:
            raise AssertionError('xarray model does not load: %r' % bad[0].value)
    return m


class _Lazy(dict):
    """attributes of the module xarray; the model is loaded on first use"""

    def __init__(self, I):
        self.I = I

    def ns(self):
        return self.I.h[model(self.I).nsid]

    def __contains__(self, n):
        return n in ('DataArray', 'Dataset', 'merge', 'concat', 'zeros_like', 'ones_like', 'full_like', 'MergeError',
                     'AlignmentError')

    def __getitem__(self, n):
        return self.ns()[n]


def attrs(I):
    return _Lazy(I)


# ------------------------------------------------------------------ builtins of the model
def elem_of(I, a):
    """(length, element term in ix(0)) of a 1-d array"""
    a = I.plain(a)
    if isinstance(a, Unk):
        raise GiveUp(a.why)
    if not isinstance(a, Arr) or len(a.shape) != 1 or a.sel or a.flat:
        raise GiveUp('coordinate values')
    return I.shape_of(a)[0], I.read(a)


def _at(e, k):
    return T.subst(e, {ix(0).single(): k}) if not isinstance(e, Cond) else T.subst_cond(e, {ix(0).single(): k})


def _refs(x):
    out = []

    def f(at):
        if getattr(at, 'kind', None) == 'ref':
            out.append(at)
    T.walk(x, f)
    return out


def _candidates(old, new, n):
    """index terms at which the coordinate `old` may have the value `new`"""
    cs = []
    bases = {at.args[0]: at for at in _refs(old) if at.args[1:] == (ix(0),)}
    for at in _refs(new):
        if at.args[0] in bases and len(at.args) == 2:
            cs.append(at.args[1])
    try:
        d = sub(_at(old, ONE), _at(old, ZERO))
        cs.append(T.div(sub(new, _at(old, ZERO)), d))
    except (T.DivZero, T.TooBig):
        pass
    c = n.const
    cs += [num(i) for i in range(int(c))] if c is not None and c <= 12 else [ZERO, sub(n, ONE)]
    return cs


def _equal(I, a, b, ctx=None):
    if a is b:
        return True
    try:
        return ranges.prove_equal(a, b, ctx or I.ctx)
    except (T.TooBig, T.DivZero, RecursionError):
        return False


def x_find(I, args, kw):
    n, e = elem_of(I, args[0])
    v = I.plain(args[1])
    if isinstance(v, Unk):
        raise GiveUp(v.why)
    v = I.aslin(v)
    for c in _candidates(e, v, n):
        if _equal(I, _at(e, c), v) and I.ctx.decide(T.c_ge(c)) is not False:
            if I.ctx.decide(T.c_ge(c)) and I.ctx.decide(T.c_gt(sub(n, c))):
                return c
    lib = I.np.library(I, 'numpy').attrs
    for f, g in (('max', 'argmax'), ('min', 'argmin')):
        try:
            m = I.plain(I.call(lib[f], [args[0]], {}))
            if isinstance(m, Poly) and (m is v or m == v):
                return I.call(lib[g], [args[0]], {})
        except (PyRaise, T.TooBig, T.DivZero):
            pass
    if n.const is not None and all(I.ctx.decide(T.c_eq(sub(_at(e, num(i)), v))) is False
                                   for i in range(int(n.const))):
        raise PyRaise('KeyError', 'label not found')
    if n.const is not None and int(n.const) <= 12:
        # no value is the label at some point of the term algebra: not for all inputs
        from . import compare as C
        if all(C.compare(C.Side((), _at(e, num(i))), C.Side((), v), I.ctx).status == 'differ'
               for i in range(int(n.const))):
            raise PyRaise('KeyError', 'label not found')
    raise GiveUp('position of a label')


def x_locate(I, args, kw):
    n, e = elem_of(I, args[0])
    k, w = elem_of(I, args[1])
    ctx = I.ctx.with_range(ix(0), ZERO, sub(k, ONE))
    if k.const is not None and k.const <= 12:
        return I.np.stack(I, [x_find(I, [args[0], I.getitem(args[1], num(i))], {}) for i in range(int(k.const))])
    for c in _candidates(e, w, n):
        if _equal(I, _at(e, c), w, ctx) and ctx.decide(T.c_ge(c)) and ctx.decide(T.c_gt(sub(n, c))):
            return I.newarr((k,), c)
    raise GiveUp('positions of labels')


def x_same(I, args, kw):
    from . import compare as C
    a, b = I.plain(args[0]), I.plain(args[1])
    for x in (a, b):
        if isinstance(x, Unk):
            raise GiveUp(x.why)
        if isinstance(x, Arr) and (x.sel or x.flat):
            raise GiveUp('comparison of selections')
    side = lambda x: C.Side(I.shape_of(x), I.read(x)) if isinstance(x, Arr) else C.Side((), T.lift(x) if not
                                                                                       isinstance(x, Cond) else x)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    r = C.compare(side(a), side(b), I.ctx, limit=60, seeds=(1, 2, 3, 4, 5))
    if r.status in ('proved', 'agree'):
        return True
    if r.status == 'differ':
        return False
    raise GiveUp('whether two coordinates are the same')


def x_missing(I, args, kw):
    kind, name = args
    if name.startswith('__') or name not in I.np.names_of('xarray.' + kind):
        raise PyRaise('AttributeError', "'%s' object has no attribute '%s'" % (kind, name))
    return Unk('%s.%s' % (kind, name))


def x_unmodelled(I, args, kw):
    raise GiveUp('xarray: %s' % (args[0],))


def x_is_time(I, args, kw):
    a = I.plain(args[0])
    if isinstance(a, Unk):
        return a
    e = I.read(a) if isinstance(a, Arr) else a
    return isinstance(e, Poly) and bool(set(T.syms_in(e)) & {'second', 'time resolution'})


def x_hashable(I, args, kw):
    return not isinstance(I.force(args[0]), (ListV, DictV, Arr))


def x_record(I, args, kw):
    from . import recorder
    return recorder.record(I, args, kw)


def builtin_module():
    return ModuleV('hnbuiltins', None, {n: Builtin(n, f) for n, f in dict(
        find=x_find, locate=x_locate, same=x_same, missing=x_missing, unmodelled=x_unmodelled, is_time=x_is_time,
        hashable=x_hashable, seconds=lambda I, a, k: SEC, record=x_record).items()})


# ------------------------------------------------------------------ operators on objects
BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow', ast.Mod: 'mod',
       ast.FloorDiv: 'floordiv', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor'}
UN = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}
CMP = {ast.Eq: ('__eq__', '__eq__'), ast.NotEq: ('__ne__', '__ne__'), ast.Lt: ('__lt__', '__gt__'),
       ast.LtE: ('__le__', '__ge__'), ast.Gt: ('__gt__', '__lt__'), ast.GtE: ('__ge__', '__le__')}


def method(I, o, name):
    if not isinstance(o, Obj):
        return None
    m = I.class_lookup(o.cls, name)
    return None if m is None else I.bind(m, o)


def attr(I, o, name):
    return None


def elementwise(I, f, args):
    objs = [a for a in args if isinstance(a, Obj)]
    g = method(I, objs[0], '_map')
    if g is None:
        return Unk('elementwise operation on an object')
    if len(args) > 1:
        plain = [I.plain(a) for a in args]
        for a in plain:
            if isinstance(a, Unk):
                return a
        r = I.map(lambda *x: f(*[I.nume(y) for y in x]), *plain)
        if I.plain(objs[0]) is plain[args.index(objs[0])] and isinstance(r, Arr) and \
                len(r.shape) == len(I.shape_of(I.plain(objs[0]))):
            return I.call(g, [Builtin('const', lambda I_, a, k: r)], {})
        return Unk('xarray broadcasting in a numpy function')
    return I.call(g, [Builtin('ufunc', lambda I_, a, k: I.map(lambda x: f(I.nume(x)), a[0]))], {})


def binop(I, op, a, b):
    n = BIN.get(type(op))
    if n is None:
        raise GiveUp('operator on an object')
    for o, x, m in ((a, b, '__%s__' % n), (b, a, '__r%s__' % n)):
        g = method(I, o, m)
        if g is not None:
            return I.call(g, [x], {})
    if all(not isinstance(x, Obj) or I.xr_plain(x) is None for x in (a, b)) and not any(
            getattr(x.cls, 'unknown_base', False) for x in (a, b) if isinstance(x, Obj)):
        raise PyRaise('TypeError', 'unsupported operand types')
    return Unk('operation on an object')


def unop(I, op, v):
    g = method(I, v, UN.get(type(op), ''))
    if g is not None:
        return I.call(g, [], {})
    return Unk('operation on an object')


def compare(I, op, a, b):
    """None if no special method applies"""
    names = CMP.get(type(op))
    if names is None:
        return None
    for o, x, m in ((a, b, names[0]), (b, a, names[1])):
        g = method(I, o, m)
        if g is not None:
            return (I.call(g, [x], {}),)
    return None


def contains(I, a, b):
    g = method(I, b, '__contains__')
    if g is not None:
        return I.truth(I.call(g, [a], {}))
    return Unk('in')


def getitem(I, o, k):
    if any(getattr(c, 'unknown_base', False) for c in o.cls.mro()):
        raise GiveUp('item of an object')
    raise PyRaise('TypeError', "'%s' object is not subscriptable" % o.cls.name)


def setitem(I, o, k, v):
    if any(getattr(c, 'unknown_base', False) for c in o.cls.mro()):
        raise GiveUp('item assignment')
    raise PyRaise('TypeError', "'%s' object does not support item assignment" % o.cls.name)


def mapping(I, v):
    """contents of a mapping object"""
    keys = method(I, v, 'keys')
    if keys is None:
        raise PyRaise('TypeError', 'object is not iterable')
    return {I.key(k): I.getitem(v, k) for k in I.items(I.call(keys, [], {}))}
