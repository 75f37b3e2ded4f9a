"""Libraries that are only called for their effect (plotting, gap filling, files): every call is recorded with the
abstract values of its arguments; objects they return are tokens that know how they came about."""
from . import terms as T, xrmodel, npmodel
from .pyval import Opaque, Builtin, ModuleV, Unk, Obj, Arr, PyRaise, ListV, DictV
from .terms import num

ROOTS = ('matplotlib', 'cartopy', 'gridfill', 'mpl_toolkits')


class Call:
    def __init__(self, owner, name, args, kw, guard, loc, where):
        self.owner, self.name, self.args, self.kw = owner, name, args, kw
        self.guard, self.loc, self.where = guard, loc, where
        self.result = None

    def arg(self, i, *names):
        """the argument at position i or under one of its names"""
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return self.args[i] if i is not None and len(self.args) > i else None

    def has(self, i, *names):
        return any(n in self.kw for n in names) or i is not None and len(self.args) > i

    def __repr__(self):
        return '%s.%s%r%r' % (getattr(self.owner, 'kind', self.owner), self.name, tuple(self.args), self.kw)


class _Attrs(dict):
    """any attribute exists; asking twice gives the same token"""

    def __init__(self, token):
        dict.__init__(self)
        self.token = token

    def __contains__(self, n):
        return isinstance(n, str) and not n.startswith('__')

    def __getitem__(self, n):
        if not dict.__contains__(self, n):
            dict.__setitem__(self, n, Token(self.token.log, '%s.%s' % (self.token.kind, n), owner=self.token, name=n))
        return dict.__getitem__(self, n)

    def get(self, n, d=None):
        return self[n] if n in self else d


class Token(Opaque):
    def __init__(self, log, kind, owner=None, name=None, made=None, index=None, items=None):
        Opaque.__init__(self, kind, None, self._call)
        self.attrs = _Attrs(self)
        self.log, self.owner, self.name, self.made, self.index = log, owner, name, made, index
        self.items = items
        self.parts = {}

    def __repr__(self):
        return '<%s>' % self.kind

    def _call(self, I, args, kw):
        if self.name is None:
            raise PyRaise('TypeError', 'object is not callable')
        c = Call(self.owner, self.name, [snap(I, a) for a in args], {k: snap(I, v) for k, v in kw.items()}, I.guard,
                 I.loc, I.where())
        self.log.append(c)
        c.result = self.result(I, c, args, kw)
        return c.result

    def result(self, I, c, args, kw):
        if self.kind.endswith('.subplots'):
            r, q = _count(c.arg(0, 'nrows')), _count(c.arg(1, 'ncols'))
            if r is None or q is None:
                return Token(self.log, self.kind + '()', made=c)
            ax = [Token(self.log, 'axes', made=c, index=i) for i in range(r * q)]
            one = ax[0] if len(ax) == 1 else Token(self.log, 'axes array', made=c, items=ax) if 1 in (r, q) else \
                Token(self.log, 'axes array', made=c, items=[
                    Token(self.log, 'axes array', made=c, items=ax[i * q:(i + 1) * q]) for i in range(r)])
            return one if isinstance(self.owner, Token) and self.owner.made is not None else \
                (Token(self.log, 'figure', made=c), one)
        if self.kind == 'gridfill.fill':
            return tuple(Token(self.log, 'gridfill.fill()', made=c, index=i) for i in (0, 1))
        if self.name in ('flatten', 'ravel') and getattr(self.owner, 'items', None) is not None:
            return flat(self.owner)
        return Token(self.log, self.kind + '()', made=c)

    def item(self, I, k):
        if self.items is not None:
            if isinstance(k, tuple):
                r = self
                for x in k:
                    r = r.item(I, x)
                return r
            if isinstance(k, slice):
                from . import pyabs
                raise pyabs.GiveUp('slice of an array of axes')
            i = I.constint(k)
            try:
                return self.items[i]
            except IndexError:
                raise PyRaise('IndexError', 'index out of range')
        s = snap(I, k)
        key = repr(s)
        if key not in self.parts:
            self.parts[key] = Token(self.log, '%s[%s]' % (self.kind, key), owner=self, made=self.made, index=s)
        return self.parts[key]

    def attribute(self, name):
        if self.items is not None and name == 'flat':
            return flat(self)
        return self.attrs[name]


def flat(t):
    out = []
    for x in t.items:
        out += flat(x).items if getattr(x, 'items', None) is not None else [x]
    return Token(t.log, 'axes array', made=t.made, items=out)


def _count(v):
    if v is None:
        return 1
    from . import compare as C
    if isinstance(v, C.Side):
        v = v.elem
    c = getattr(v, 'const', None)
    return int(c) if c is not None and c.denominator == 1 and 0 < c <= 16 else None


def snap(I, v):
    """the value of an argument at the time of the call"""
    from . import oop
    v = I.force(v)
    if isinstance(v, Obj):
        p = I.xr_plain(v)
        if p is not None:
            return oop.snapshot(I, p)
        return v
    if isinstance(v, DictV):
        return {k: snap(I, x) for k, x in I.h[v.id].items()}
    if isinstance(v, ListV):
        return [snap(I, x) for x in I.h[v.id]]
    if isinstance(v, tuple):
        return tuple(snap(I, x) for x in v)
    return oop.snapshot(I, v)


class _Libs(dict):
    def __init__(self, old, log):
        dict.__init__(self, old)
        self.log = log

    def __contains__(self, n):
        return dict.__contains__(self, n) or n.split('.')[0] in ROOTS

    def __getitem__(self, n):
        if not dict.__contains__(self, n):
            if n.split('.')[0] not in ROOTS:
                raise KeyError(n)
            t = None
            for p in n.split('.'):
                if t is None:
                    t = dict.get(self, '?' + p)
                    if t is None:
                        t = Token(self.log, p)
                        dict.__setitem__(self, '?' + p, t)
                else:
                    t = t.attrs[p]
            dict.__setitem__(self, n, ModuleV(n, None, t.attrs))
            self.tokens = getattr(self, 'tokens', {})
        return dict.__getitem__(self, n)


def install(I, files=None):
    """record the calls of the interpreter I; files: name of a file -> data set it holds"""
    log = []
    I._libs = _Libs(I.__dict__.get('_libs', {}), log)
    I.recorder = log

    def opened(I, args, kw):
        c = Call(None, 'open_dataset', [snap(I, a) for a in args], {k: snap(I, v) for k, v in kw.items()}, I.guard,
                 I.loc, I.where())
        log.append(c)
        f = c.arg(0, 'filename_or_obj')
        if files is None or f not in files:
            raise PyRaise('FileNotFoundError', repr(f))
        if set(c.kw) - {'filename_or_obj', 'engine', 'chunks', 'cache'}:
            from . import pyabs
            raise pyabs.GiveUp('options of open_dataset')
        c.result = files[f](I)
        return c.result
    xr = npmodel._library(I, 'xarray')
    names = {'open_dataset': Builtin('open_dataset', opened), 'load_dataset': Builtin('load_dataset', opened)}

    class Both(dict):
        def __contains__(self, n):
            return n in names or n in xr.attrs

        def __getitem__(self, n):
            return names[n] if n in names else xr.attrs[n]
    dict.__setitem__(I._libs, 'xarray', ModuleV('xarray', None, Both()))
    return log


def record(I, args, kw):
    """a method of a library object with an effect outside the program: record(name, object, args, kw)"""
    log = getattr(I, 'recorder', None)
    name, o = args[0], args[1]
    if log is None:
        return Unk('effect of ' + name)
    c = Call(o, name, [snap(I, a) for a in I.items(args[2])], {k: snap(I, v) for k, v in I.h[args[3].id].items()},
             I.guard, I.loc, I.where())
    c.result = None
    log.append(c)
    return None
