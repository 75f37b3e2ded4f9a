"""Abstract values of the Python interpreter (pyabs)."""
from . import terms as T
from .terms import (Poly, Cond, Lam, Base, ZERO, ONE, add, sub, mul, num, ix, lift, lam, subst_any, subst, subst_cond,
                    TRUE, FALSE)


class PyRaise(Exception):
    def __init__(self, name, msg='', cls=None):
        Exception.__init__(self, '%s: %s' % (name, msg))
        self.name = name
        self.msg = msg
        self.cls = cls


class Unk:
    """a value the analysis knows nothing about"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % (self.why,)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'Choice(%r,%r,%r)' % (self.c, self.a, self.b)


class AC:
    """content of an array cell"""
    __slots__ = ('shape', 'elem', 'tag')

    def __init__(self, shape, elem, tag=None):
        self.shape = tuple(shape)
        self.elem = elem
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, AC) and self.shape == o.shape and self.elem is o.elem and self.tag == o.tag

    __hash__ = None


class Arr:
    """reference to (a view of) an array cell.
    shape: shape of the view; idx: cell index as polys over ix(0..); None = identity.
    flat: the array is the C-order flattening of `shape`
    sel: dict axis-from-the-end (negative int, or 'all') -> Lam condition: only those entries are selected"""
    __slots__ = ('cid', 'shape', 'idx', 'flat', 'sel', 'bool')

    def __init__(self, cid, shape, idx=None, flat=False, sel=None, isbool=False):
        self.cid = cid
        self.shape = tuple(shape)
        self.idx = idx
        self.flat = flat
        self.sel = sel or {}
        self.bool = isbool

    def __repr__(self):
        return 'Arr(%s%s%s)' % (self.cid, list(self.shape), '' if self.idx is None else 'v')

    def __eq__(self, o):
        return isinstance(o, Arr) and (self.cid, self.shape, self.idx, self.flat, tuple(sorted(
            self.sel.items(), key=repr))) == (o.cid, o.shape, o.idx, o.flat, tuple(sorted(o.sel.items(), key=repr)))

    def __hash__(self):
        return hash((self.cid, self.shape))

    @property
    def ndim(self):
        return 1 if self.flat else len(self.shape)


class WhereIdx:
    """np.where(cond): index tuple"""
    def __init__(self, arr):
        self.arr = arr


class ListV:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, ListV) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class DictV(ListV):
    __slots__ = ()


class SetV(ListV):
    __slots__ = ()


class Obj:
    __slots__ = ('id', 'cls')

    def __init__(self, i, cls):
        self.id = i
        self.cls = cls

    def __repr__(self):
        return '<%s #%s>' % (self.cls.name, self.id)

    def __eq__(self, o):
        return isinstance(o, Obj) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class ClassV:
    def __init__(self, name, bases, nsid, module=None):
        self.name = name
        self.bases = bases
        self.nsid = nsid        # heap id of the namespace
        self.module = module
        self.fields = None      # namedtuple
        self.excname = None     # builtin exception

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class NTuple(tuple):
    """namedtuple instance"""
    def __new__(cls, vals, ntcls):
        t = tuple.__new__(cls, vals)
        t.cls = ntcls
        return t


class FuncV:
    def __init__(self, name, node, module, closure, defaults, kwdefaults, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.isgen = None

    def __repr__(self):
        return '<func %s>' % self.name


class BoundV:
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class PropV:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMV:
    def __init__(self, f):
        self.f = f


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ModuleV:
    def __init__(self, name, nsid=None, attrs=None):
        self.name = name
        self.nsid = nsid
        self.attrs = attrs

    def __repr__(self):
        return '<module %s>' % self.name


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV:
    """symbolic iterable: count and item function"""
    def __init__(self, cnt, f):
        self.cnt = cnt
        self.f = f


class ExcV:
    def __init__(self, name, msg='', cls=None):
        self.name = name
        self.msg = msg
        self.cls = cls

    def __repr__(self):
        return '%s(%s)' % (self.name, self.msg)


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class KernelV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<kernel %s>' % self.name


class Opaque:
    """library object with named attributes (spline, interpolator)"""
    def __init__(self, kind, attrs, call=None):
        self.kind = kind
        self.attrs = attrs
        self.call = call


class Exit:
    """abrupt end of a function / loop body"""
    __slots__ = ('kind', 'guard', 'value', 'heap', 'loc', 'ctx', 'stack')

    def __init__(self, kind, guard, value, heap, loc):
        self.kind = kind
        self.guard = guard
        self.value = value
        self.heap = heap
        self.loc = loc

    def __repr__(self):
        return 'Exit(%s %r if %r @%s)' % (self.kind, self.value, self.guard, self.loc)
