"""Abstract interpretation of the Python layer over closed-form array terms.

Arrays are cells (shape, element term over ix(0..n-1)); views share the cell of
the array they were taken from, so in-place writes are visible through every
alias.  Undecided branches are both interpreted and their states merged under
the branch condition; counted loops of symbolic length are summarised by
loops.solve.  Anything outside the modelled language becomes Unk, which makes
every obligation that depends on it undecided (never a report)."""
import ast
import itertools
import os
import warnings
from fractions import Fraction
from . import terms as T
from .terms import (Poly, Cond, Lam, Base, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, num, lift, ite, ix, subst,
                    subst_cond, subst_any, c_and, c_or, c_not, c_ge, c_eq, c_gt, lam, ref, fn)
from .ranges import Ctx, simplify, using, simp_cond
from .loops import Loc, solve
from .pyval import *          # noqa: F401,F403
from .pyval import PyRaise, Unk, UNDEF, Choice, AC, Arr, WhereIdx, ListV, DictV, SetV, Obj, ClassV, NTuple, FuncV, \
    BoundV, PropV, StaticV, ClassMV, Builtin, ModuleV, RangeV, IterV, ExcV, SuperV, KernelV, Opaque, Exit


class Dead(Exception):
    """control does not continue after this expression (exit already recorded)"""


class GiveUp(Exception):
    """outside the modelled language"""


MAX_UNROLL = 300
MAX_DEPTH = 60
EXC_BASE = {}
for _n, _e in list(__builtins__.items() if isinstance(__builtins__, dict) else vars(__builtins__).items()):
    if isinstance(_e, type) and issubclass(_e, BaseException):
        EXC_BASE[_n] = [c.__name__ for c in _e.__mro__]

_counter = itertools.count(1)


class Frame:
    def __init__(self, lid, module, closure, func, cls=None):
        self.lid = lid
        self.module = module
        self.closure = closure
        self.func = func
        self.cls = cls
        self.exits = []
        self.yields = None
        self.globals_ = set()


PURE_METHODS = {
    'mean', 'sum', 'max', 'min', 'prod', 'any', 'all', 'copy', 'reshape', 'transpose', 'swapaxes', 'ravel', 'flatten',
    'squeeze', 'astype', 'clip', 'cumsum', 'round', 'conj', 'dot', 'argmin', 'argmax', 'item', 'tolist', 'repeat',
    'take', 'nonzero', 'diagonal', 'trace', 'std', 'var', 'format', 'join', 'split', 'strip', 'lower', 'upper',
    'startswith', 'endswith', 'keys', 'values', 'items', 'get', 'index', 'count', 'isel', 'sel', 'rename'}
MUTATORS = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'at', 'put_along_axis', 'shuffle', 'setitem',
            'delitem', 'setattr', 'delattr', 'heappush', 'heapify'}
QUIET = {'logging', 'warnings', 'time', 'sys', 'typing', 'os', 'abc', 'datetime', 'timeit', 'traceback', 'platform'}

DOUBT, LOST = [], []      # constructs of this process that were not understood / whose effects were left out


class Interp:
    def __init__(self, src_dir, ctx=None, kernels=None, package='falwa'):
        self.src = src_dir
        self.package = package
        self.ctx = ctx or Ctx()
        self.kernels = kernels or {}
        self.h = {}
        self.guard = ()
        self.alive = True
        self.frames = []
        self.modules = {}
        self.effects = []
        self.kcalls = []
        self.funcs_seen = {}
        self.unknown = []
        self.ncalls = 0
        self.nstmts = 0
        self.asserts = []
        self.loc = None
        self.shared = set()
        self.kernel_hook = None
        from . import npmodel
        self.np = npmodel
        self.nodefile = {}

    # ------------------------------------------------------------ heap
    def newid(self):
        return next(_counter)

    def alloc(self, content):
        i = self.newid()
        self.h[i] = content
        return i

    def newarr(self, shape, elem, tag=None, flat=False, sel=None):
        shape = tuple(lift(s) for s in shape)
        i = self.alloc(AC(shape, elem, tag))
        return Arr(i, shape, None, flat, sel, isinstance(elem, Cond))

    def newlist(self, items):
        return ListV(self.alloc(tuple(items)))

    def newdict(self, d):
        return DictV(self.alloc(dict(d)))

    def setc(self, i, content):
        if i in self.shared and self.h.get(i) is not content:
            self.effects.append(('shared', i, self.loc, self.guard, self.where()))
        self.h[i] = content

    def where(self):
        return tuple(f.func for f in self.frames)

    # ------------------------------------------------------------ arrays
    def actx(self, shape, base=0):
        c = self.ctx
        for i, s in enumerate(shape):
            if s.const != 1:
                c = c.with_range(ix(i), ZERO, sub(s, ONE))
        return c

    def read(self, a):
        """element of the array at ix(0..)"""
        e = self.h[a.cid].elem
        if a.idx is None:
            return e
        mp = {T._IXS[k]: p for k, p in enumerate(a.idx)}
        try:
            return subst_any(e, mp)
        except T.DivZero:
            raise GiveUp('division by zero in element')

    def relem(self, a):
        """numeric element"""
        e = self.read(a)
        return T.ind(e) if isinstance(e, Cond) else e

    def lamof(self, a):
        return lam(a.shape, self.read(a))

    def simp(self, e, shape):
        c = self.actx(shape)
        try:
            if isinstance(e, Cond):
                with using(c):
                    return simp_cond(e, c)
            return simplify(e, c)
        except T.DivZero:
            return e

    def copyarr(self, a):
        return self.newarr(a.shape, self.read(a), None, a.flat, a.sel)

    def write(self, a, elem, mask=TRUE):
        """assign elem (over the view's ix) where mask"""
        cell = self.h[a.cid]
        if cell.tag is not None:
            self.effects.append((cell.tag, a.cid, self.loc, self.guard, self.where()))
        if a.cid in self.shared:
            self.effects.append(('shared', a.cid, self.loc, self.guard, self.where()))
        old = cell.elem
        if isinstance(old, Cond) and isinstance(elem, Poly):
            elem = c_not(c_eq(elem))
        if isinstance(old, Poly) and isinstance(elem, Cond):
            elem = T.ind(elem)
        conds = []
        mp = {}
        n = len(a.shape)
        if a.idx is None:
            mp = None
        else:
            for k, p in enumerate(a.idx):
                vs = [j for j in range(n) if T._IXS[j] in p.fv]
                if not vs:
                    conds.append(c_eq(sub(ix(k), p)))
                    continue
                if len(vs) > 1:
                    raise GiveUp('write through a skew view')
                j = vs[0]
                co = self.ctx._linear_coef(p, T._IXS[j])
                cc = None if co is None else co.const
                if cc is None or not isinstance(cc, int):
                    raise GiveUp('write through a nonlinear view')
                rest = sub(p, mul(co, ix(j)))
                v = sub(ix(k), rest)
                if cc == -1:
                    v = neg(v)
                elif cc != 1:
                    s = v if cc > 0 else neg(v)
                    conds.append(c_eq(fn('mod', s, num(abs(cc)))))
                    v = fn('floordiv', s, num(abs(cc)))
                if T._IXS[j] in mp:
                    conds.append(c_eq(sub(mp[T._IXS[j]], v)))
                    continue
                mp[T._IXS[j]] = v
                conds.append(c_ge(v))
                conds.append(c_ge(sub(sub(a.shape[j], ONE), v)))
            for j in range(n):
                if T._IXS[j] not in mp:
                    if a.shape[j].const != 1:
                        raise GiveUp('write through a broadcast view')
                    mp[T._IXS[j]] = ZERO
        if mp is not None:
            mask = subst_any(mask, mp)
            elem = subst_any(elem, mp)
        c = c_and(*conds, mask)
        cctx = self.actx(cell.shape)
        with using(cctx):
            c = simp_cond(c, cctx)
        if c is TRUE:
            new = elem
        elif c is FALSE:
            new = old
        elif isinstance(old, Cond):
            new = c_or(c_and(c, elem), c_and(c_not(c), old))
        else:
            new = self.simp(ite(c, elem, old), cell.shape)
        self.h[a.cid] = AC(cell.shape, new, cell.tag)

    # sizes ------------------------------------------------------------
    def same(self, a, b):
        """equal sizes? True/False/None"""
        if a is b:
            return True
        return self.ctx.decide(c_eq(sub(a, b)))

    def unflat(self, a):
        if not a.flat:
            return a
        e = self.read(a)
        if len(a.shape) == 1:
            return self.newarr(a.shape, e)
        # C order
        tot = ONE
        mp = {}
        rem = ix(0)
        for k in range(len(a.shape) - 1, -1, -1):
            if k == 0:
                mp[T._IXS[k]] = rem
            else:
                mp[T._IXS[k]] = fn('mod', rem, a.shape[k])
                rem = fn('floordiv', rem, a.shape[k])
            tot = mul(tot, a.shape[k])
        return self.newarr((tot,), subst_any(e, mp))

    def shape_of(self, a):
        if a.flat:
            t = ONE
            for s in a.shape:
                t = mul(t, s)
            return (t,)
        if a.sel:
            return tuple(self._selcount(a, k) for k in range(len(a.shape)))
        return a.shape

    def _selcount(self, a, k):
        l = a.sel.get(k - len(a.shape))
        if l is None:
            return a.shape[k]
        v = T.fresh_lv('c')
        with using(self.actx(a.shape)):
            return T.bsum(v, ZERO, sub(a.shape[k], ONE), T.ind(T.apply_lam(l, [v])))

    def broadcast(self, arrs):
        """result (shape, [elem], flat, sel) for a list of Arr | scalar"""
        aa = [a for a in arrs if isinstance(a, Arr)]
        if not aa:
            return (), list(arrs), False, {}
        flats = [a for a in aa if a.flat]
        flat = False
        if flats:
            big = flats[0]
            ok = all(a.flat and len(a.shape) == len(big.shape) and all(
                self.same(x, y) for x, y in zip(a.shape, big.shape)) for a in aa)
            if ok:
                flat = True
            else:
                arrs = [self.unflat(a) if isinstance(a, Arr) else a for a in arrs]
                aa = [a for a in arrs if isinstance(a, Arr)]
        n = max(len(a.shape) for a in aa)
        shape = [ONE] * n
        sel = {}
        for a in aa:
            off = n - len(a.shape)
            for k, s in enumerate(a.shape):
                cur = shape[off + k]
                if cur is s or s.const == 1:
                    continue
                if cur.const == 1:
                    shape[off + k] = s
                    continue
                r = self.same(cur, s)
                if r is False:
                    raise PyRaise('ValueError', 'operands could not be broadcast together')
                if r is None:
                    self.note('assumed equal sizes %s = %s' % (cur, s))
        for a in aa:
            for k, l in a.sel.items():
                if k in sel and sel[k] is not l:
                    raise GiveUp('selections differ')
                sel[k] = l
        if 'all' in sel:
            for a in aa:
                if 'all' not in a.sel and not all(s.const == 1 for s in a.shape):
                    raise GiveUp('selection mixed with full array')
        for k in sel:
            if k == 'all':
                continue
            for a in aa:
                if k not in a.sel and -k <= len(a.shape) and a.shape[k].const != 1:
                    raise PyRaise('ValueError', 'operands could not be broadcast together') \
                        if self._sel_mismatch(sel[k], a.shape[k]) else GiveUp('selection mixed with full axis')
        elems = []
        for a in arrs:
            if not isinstance(a, Arr):
                elems.append(a)
                continue
            e = self.read(a)
            off = n - len(a.shape)
            mp = {}
            for k, s in enumerate(a.shape):
                want = ZERO if (s.const == 1 and shape[off + k].const != 1) else ix(off + k)
                if want is not ix(k):
                    mp[T._IXS[k]] = want
            elems.append(subst_any(e, mp) if mp else e)
        return tuple(shape), elems, flat, sel

    def _sel_mismatch(self, l, s):
        return False

    def map(self, f, *args):
        """elementwise f over numbers / conditions"""
        for a in args:
            if isinstance(a, Unk):
                return a
        args = [self.plain(a) for a in args]
        for a in args:
            if isinstance(a, Unk):
                return a
            if not isinstance(a, (Arr, Poly, Cond, bool)):
                raise GiveUp('elementwise operation on %r' % (a,))
        shape, elems, flat, sel = self.broadcast(args)
        try:
            e = f(*[T.c_const(x) if isinstance(x, bool) else x for x in elems])
        except T.DivZero:
            e = T.divzero()
        if not any(isinstance(a, Arr) for a in args):
            return e
        return self.newarr(shape, e, None, flat, sel)

    @staticmethod
    def nume(x):
        return T.ind(x) if isinstance(x, Cond) else lift(int(x) if isinstance(x, bool) else x)

    def plain(self, v):
        """lists/tuples of numbers -> arrays; numbers -> Poly"""
        if isinstance(v, bool) or isinstance(v, (Poly, Cond, Arr, Unk)):
            return v
        if isinstance(v, (int, float, Fraction)):
            return num(v)
        if isinstance(v, (ListV, tuple, RangeV, IterV)) and not isinstance(v, (DictV,)):
            return self.np.asarray(self, v)
        if isinstance(v, Choice):
            return self.force(v)
        if isinstance(v, Obj):
            r = self.xr_plain(v)
            if r is not None:
                return r
        return v

    def xr_plain(self, v):
        c = self.h.get(v.id)
        if isinstance(c, dict) and '__data__' in c:
            return c['__data__']
        return None

    def note(self, s):
        self.unknown.append((s, self.loc))
        if not s.startswith('assumed equal sizes'):
            DOUBT.append((s, self.loc))

    def lose(self, s):
        """an effect may have been left out: the state after this point is not that of the program"""
        LOST.append((s, self.loc))

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.split('.')[1:]
        path = os.path.join(self.src, *rel) if rel else self.src
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path = path + '.py'
        if not os.path.exists(path):
            return None
        return self.load_file(name, path)

    def load_file(self, name, path):
        with open(path) as f:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(f.read(), path)
        nsid = self.alloc({'__name__': name})
        m = ModuleV(name, nsid)
        m.path = path
        self.modules[name] = m
        fr = Frame(nsid, m, None, '<module %s>' % name)
        saved = (self.guard, self.alive)
        self.frames.append(fr)
        self.alive = True
        try:
            self.block(tree.body)
        finally:
            self.frames.pop()
        for e in fr.exits:
            if e.kind == 'raise':
                self.import_errors = getattr(self, 'import_errors', []) + [e]
        self.guard, self.alive = saved
        return m

    def import_name(self, name):
        root = name.split('.')[0]
        if root == self.package:
            # parent package first
            parts = name.split('.')
            for i in range(1, len(parts)):
                self.load_module('.'.join(parts[:i]))
            m = self.load_module(name)
            if m is not None:
                return m
            k = self.kernel_module(name)
            if k is not None:
                return k
            raise PyRaise('ModuleNotFoundError', name)
        return self.np.library(self, name)

    def kernel_module(self, name):
        last = name.split('.')[-1]
        from_file = getattr(self, 'kernel_files', {})
        ks = from_file.get(last)
        if ks is None:
            return None
        return ModuleV(name, None, {k: KernelV(k) for k in ks})

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if not self.alive:
                return
            self.stmt(s)

    def record(self, kind, value):
        e = Exit(kind, self.guard, value, dict(self.h), self.loc)
        e.ctx = self.ctx
        e.stack = self.where()
        self.frames[-1].exits.append(e)
        self.alive = False

    def stmt(self, s):
        self.nstmts += 1
        self.loc = (self.frames[-1].module.name if self.frames[-1].module else '?', s.lineno, self.frames[-1].func)
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise GiveUp('statement ' + type(s).__name__)
            m(s)
        except PyRaise as e:
            if self.alive:
                self.record('raise', ExcV(e.name, e.msg, e.cls))
        except Dead:
            self.alive = False
        except GiveUp as e:
            self.giveup(s, e)
        except (T.TooBig, T.DivZero) as e:
            self.giveup(s, GiveUp('%s' % type(e).__name__))

    def giveup(self, s, e):
        """a statement that is not understood: everything it assigns is unknown"""
        self.note('%s' % (e,))
        u = Unk(str(e))
        if any(isinstance(n, ast.Call) and self.may_act(n) for n in self.shallow(s)):
            self.lose('%s' % (e,))
        if self.alive and any(isinstance(n, ast.Return) for n in self.shallow(s)):
            self.tainted = True
            self.record('return', u)
            return
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setlocal(n.id, u)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    o = self.ev(n.value)
                    if isinstance(o, Obj):
                        self.set_unknown_attr(o, n.attr, u)
                except (PyRaise, Dead, GiveUp, T.TooBig, T.DivZero):
                    pass
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                try:
                    o = self.ev(n.value)
                    self.clobber(o, u)
                except (PyRaise, Dead, GiveUp, T.TooBig, T.DivZero):
                    pass

    def may_act(self, n):
        """could a call that was left out have changed anything but its result?"""
        f = n.func
        if any(k.arg in ('out', 'inplace', 'copy') for k in n.keywords):
            return True
        if isinstance(f, ast.Name):
            return f.id not in self.np.BUILTINS or f.id in ('next', 'setattr')
        if isinstance(f, ast.Attribute):
            if f.attr in PURE_METHODS:
                return False
            r = f.value
            while isinstance(r, ast.Attribute):
                r = r.value
            if isinstance(r, ast.Name):
                try:
                    v = self.getname(r.id)
                except (PyRaise, GiveUp, Dead):
                    return True
                return not (isinstance(v, ModuleV) and v.nsid is None and f.attr not in MUTATORS)
        return True

    @staticmethod
    def shallow(s):
        """the nodes of a statement without those of nested functions"""
        todo = [s]
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))

    def set_unknown_attr(self, o, name, u):
        d = self.class_lookup(o.cls, name)
        if isinstance(d, Obj):
            attr = self.h[d.id].get('attr')
            if isinstance(attr, str):
                v = self.h[o.id].get(attr)
                if isinstance(v, Arr):
                    self.clobber(v, u)
                    return
        c = dict(self.h[o.id])
        c[name] = u
        self.h[o.id] = c

    def clobber(self, o, u):
        if isinstance(o, Arr):
            cell = self.h[o.cid]
            b = T.base('op', ('unknown%d' % self.newid(),), cell.shape)
            self.h[o.cid] = AC(cell.shape, ref(b, *[ix(i) for i in range(len(cell.shape))]) if cell.shape else ref(b),
                               cell.tag)
            self.note('array of unknown content')
            self.tainted = True
        elif isinstance(o, DictV):
            self.h[o.id] = {'?': u}
        elif isinstance(o, ListV):
            self.h[o.id] = (u,)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            fr = self.frames[-1]
            fr.yields = (fr.yields or []) + [self.ev(s.value.value) if s.value.value else None]
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id)
            v = self.aug(s.op, cur, self.ev(s.value))
            self.setlocal(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr_(o, t.attr)
            v = self.aug(s.op, cur, self.ev(s.value))
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.evkey(t.slice)
            cur = self.getitem(o, k)
            v = self.binop(s.op, cur, self.ev(s.value))
            self.setitem(o, k, v)
        else:
            raise GiveUp('augmented assignment')

    def aug(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            if isinstance(r, Unk):
                raise GiveUp(r.why)
            if not isinstance(r, Arr):
                raise GiveUp('in-place operation')
            if len(r.shape) != len(cur.shape):
                raise PyRaise('ValueError', 'non-broadcastable output operand')
            self.write(cur, self.relem(r) if not cur.bool else self.read(r))
            return cur
        if isinstance(cur, ListV) and not isinstance(cur, (DictV, SetV)) and isinstance(op, ast.Add):
            items = self.items(v)
            self.setc(cur.id, self.h[cur.id] + tuple(items))
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setlocal(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Choice):
                v = self.force(v)
            if isinstance(v, Unk):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v)
                return
            items = self.items(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise('ValueError', 'not enough values to unpack')
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y)
                self.assign(t.elts[i].value, self.newlist(items[i:len(items) - after]))
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y)
                return
            if len(items) != len(t.elts):
                raise PyRaise('ValueError', 'cannot unpack %d values into %d targets' % (len(items), len(t.elts)))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.evkey(t.slice), v)
        else:
            raise GiveUp('assignment target')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.h[self.frames[-1].lid])
                d.pop(t.id, None)
                self.h[self.frames[-1].lid] = d
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                d = dict(self.h[o.id])
                d.pop(t.attr, None)
                self.h[o.id] = d
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.key(self.ev(t.slice))
                d = dict(self.h[o.id])
                d.pop(k, None)
                self.setc(o.id, d)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.record('return', v)

    def s_Break(self, s):
        self.record('break', None)

    def s_Continue(self, s):
        self.record('continue', None)

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            raise PyRaise(cur.name if cur else 'RuntimeError', '', cur.cls if cur else None)
        v = self.ev(s.exc)
        if isinstance(v, Builtin) and v.name in EXC_BASE:
            v = ExcV(v.name)
        if isinstance(v, ClassV):
            v = ExcV(v.name, '', v)
        if isinstance(v, Obj):
            v = ExcV(v.cls.name, '', v.cls)
        if isinstance(v, ExcV):
            raise PyRaise(v.name, v.msg, v.cls)
        raise PyRaise('TypeError', 'exceptions must derive from BaseException')

    def s_Assert(self, s):
        v = self.truth(self.ev(s.test))
        if v is True:
            return
        if v is False:
            raise PyRaise('AssertionError', ast.unparse(s.test))
        d = self.ctx.decide(v)
        if d is True:
            return
        if d is False:
            raise PyRaise('AssertionError', ast.unparse(s.test))
        self.branch_exit(c_not(v), ExcV('AssertionError', ast.unparse(s.test)))

    def branch_exit(self, c, exc):
        """exit with exc when c, continue otherwise"""
        e = Exit('raise', self.guard + (c,), exc, dict(self.h), self.loc)
        e.ctx = self.ctx
        e.stack = self.where()
        self.frames[-1].exits.append(e)
        self.guard = self.guard + (c_not(c),)
        self.ctx = self.ctx.with_cond(c_not(c))

    def s_Global(self, s):
        self.frames[-1].globals_ |= set(s.names)

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            m = self.import_name(a.name)
            if a.asname:
                self.setlocal(a.asname, m)
            else:
                root = a.name.split('.')[0]
                self.setlocal(root, self.import_name(root) if root != a.name else m)

    def s_ImportFrom(self, s):
        name = s.module or ''
        if s.level:
            base = self.frames[-1].module.name.split('.')
            if not self.frames[-1].module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.import_name(name)
        for a in s.names:
            if a.name == '*':
                for k, v in list(self.h[m.nsid].items()):
                    if not k.startswith('_'):
                        self.setlocal(k, v)
                continue
            try:
                v = self.getattr_(m, a.name)
            except PyRaise:
                v = None
                if m.name.split('.')[0] == self.package:
                    try:
                        v = self.import_name(m.name + '.' + a.name)
                    except PyRaise:
                        raise PyRaise('ImportError', 'cannot import name %s from %s' % (a.name, m.name))
            self.setlocal(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        self.setlocal(s.name, self.deco(s, self.mkfunc(s)))

    def deco(self, s, v):
        for d in reversed(s.decorator_list):
            dv = self.ev_quiet(d)
            if isinstance(dv, Unk):
                continue
            if isinstance(d, ast.Attribute) and d.attr == 'setter':
                p = self.ev(d.value)
                if isinstance(p, PropV):
                    v = PropV(p.fget, v)
                    continue
            v = self.call(dv, [v], {})
        return v

    def ev_quiet(self, n):
        try:
            return self.ev(n)
        except GiveUp as e:
            return Unk(str(e))

    def mkfunc(self, s):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [None if d is None else self.ev(d) for d in a.kw_defaults]
        fr = self.frames[-1]
        iscls = getattr(fr, 'isclass', None)
        closure = fr.closure if iscls else fr
        if not iscls and fr.func.startswith('<module'):
            closure = None
        return FuncV(getattr(s, 'name', '<lambda>'), s, fr.module, closure, defaults, kwd, iscls)

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            v = self.ev(b)
            if isinstance(v, Builtin):
                c = ClassV(v.name, [], self.alloc({}))
                c.builtin = v
                if v.name in EXC_BASE:
                    c.excname = v.name
                v = c
            if isinstance(v, ClassV):
                bases.append(v)
        nsid = self.alloc({})
        outer = self.frames[-1]
        cls = ClassV(s.name, bases, nsid, outer.module)
        for b in cls.mro():
            if b.excname:
                cls.excname = b.excname
        fr = Frame(nsid, outer.module, outer.closure if getattr(outer, 'isclass', None) else (
            None if outer.func.startswith('<module') else outer), 'class ' + s.name)
        fr.isclass = cls
        self.frames.append(fr)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        outer.exits.extend(fr.exits)
        v = cls
        for d in reversed(s.decorator_list):
            dv = self.ev_quiet(d)
            if not isinstance(dv, Unk):
                r = self.call(dv, [v], {})
                if isinstance(r, ClassV):
                    v = r
        self.setlocal(s.name, v)

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        if not isinstance(c, bool):
            d = self.ctx.decide(c)
            if d is not None:
                c = d
        if c is True:
            return self.block(s.body)
        if c is False:
            return self.block(s.orelse)
        self.fork(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def fork(self, c, fa, fb):
        h0, g0, x0 = self.h, self.guard, self.ctx
        try:
            return self.fork_(c, fa, fb)
        except GiveUp as e:
            self.h, self.guard, self.ctx, self.alive = h0, g0, x0, True
            self.lose('%s' % (e,))
            raise

    def fork_(self, c, fa, fb):
        h0, g0, x0 = self.h, self.guard, self.ctx
        self.h = dict(h0)
        self.guard = g0 + (c,)
        self.ctx = x0.with_cond(c)
        ra = fa()
        A = (self.alive, self.h, self.guard, self.ctx)
        self.h = dict(h0)
        self.guard = g0 + (c_not(c),)
        self.ctx = x0.with_cond(c_not(c))
        self.alive = True
        rb = fb()
        B = (self.alive, self.h, self.guard, self.ctx)
        if A[0] and B[0]:
            self.ctx, self.guard = x0, g0
            self.h = self.merge(c, A[1], B[1])
            ea = A[2][len(g0) + 1:]
            eb = B[2][len(g0) + 1:]
            self.guard = g0
            self.ctx = x0
            if ea or eb:
                self.guard = g0 + (c_or(c_and(c, *ea), c_and(c_not(c), *eb)),)
            self.alive = True
            return c, ra, rb
        if A[0]:
            self.alive, self.h, self.guard, self.ctx = A
            return TRUE, ra, None
        self.alive, self.h, self.guard, self.ctx = B
        return FALSE, None, rb

    # ------------------------------------------------------------ merging
    def merge(self, c, ha, hb):
        out = dict(ha)
        todo = []
        for i in set(ha) | set(hb):
            a = ha.get(i, UNDEF)
            b = hb.get(i, UNDEF)
            if a is b:
                continue
            if b is UNDEF:
                continue
            if a is UNDEF:
                out[i] = b
                continue
            todo.append((i, a, b))
        saved = self.h
        self.h = out
        for i, a, b in todo:
            out[i] = self.merge_content(c, a, b, ha, hb)
        self.h = saved
        return out

    def merge_content(self, c, a, b, ha, hb):
        if isinstance(a, AC) and isinstance(b, AC):
            if a.elem is b.elem and a.shape == b.shape:
                return a
            if len(a.shape) != len(b.shape):
                raise GiveUp('merge of shapes')
            e = self.merge_elem(c, a.elem, b.elem, a.shape)
            return AC(a.shape, e, a.tag)
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                out[k] = self.merge_val(c, a.get(k, UNDEF), b.get(k, UNDEF), ha, hb)
            return out
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.merge_val(c, x, y, ha, hb) for x, y in zip(a, b))
            return (Unk('lists of different length'),)
        return a

    def merge_elem(self, c, x, y, shape):
        if isinstance(x, Cond) and isinstance(y, Cond):
            return c_or(c_and(c, x), c_and(c_not(c), y))
        x = T.ind(x) if isinstance(x, Cond) else x
        y = T.ind(y) if isinstance(y, Cond) else y
        return self.simp(ite(c, x, y), shape)

    def merge_val(self, c, a, b, ha=None, hb=None):
        ha = ha or self.h
        hb = hb or self.h
        if a is b or (type(a) is type(b) and not isinstance(a, (Poly, Cond)) and a == b):
            return a
        if isinstance(a, Unk):
            return a
        if isinstance(b, Unk):
            return b
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, (Cond, bool)) and isinstance(b, (Cond, bool)):
            a = T.c_const(a) if isinstance(a, bool) else a
            b = T.c_const(b) if isinstance(b, bool) else b
            return self.tobool(c_or(c_and(c, a), c_and(c_not(c), b)))
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and a.flat == b.flat:
            if all(self.same(x, y) is not False for x, y in zip(a.shape, b.shape)):
                ea = self._read_in(a, ha)
                eb = self._read_in(b, hb)
                return self.newarr(a.shape, self.merge_elem(c, ea, eb, a.shape), None, a.flat, a.sel)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = tuple(self.merge_val(c, x, y, ha, hb) for x, y in zip(a, b))
            return NTuple(r, a.cls) if isinstance(a, NTuple) else r
        return Choice(c, a, b)

    def _read_in(self, a, h):
        s = self.h
        self.h = h
        try:
            return self.read(a)
        finally:
            self.h = s

    def tobool(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return c

    def force(self, v):
        while isinstance(v, Choice):
            d = self.ctx.decide(v.c)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            elif v.a is UNDEF:
                v = v.b
            elif v.b is UNDEF:
                v = v.a
            else:
                return v
        return v

    # ------------------------------------------------------------ try / with
    def s_Try(self, s):
        fr = self.frames[-1]
        n0 = len(fr.exits)
        g0 = self.guard
        self.block(s.body)
        if self.alive:
            self.block(s.orelse)
        caught = []
        keep = []
        for e in fr.exits[n0:]:
            h = None
            if e.kind == 'raise':
                for hd in s.handlers:
                    if self.matches(e.value, hd.type):
                        h = hd
                        break
            if h is not None:
                caught.append((e, h))
            else:
                keep.append(e)
        fr.exits[n0:] = keep
        for e, h in caught:
            norm = (self.alive, self.h, self.guard, self.ctx)
            self.alive, self.h, self.guard, self.ctx = True, dict(e.heap), e.guard, e.ctx
            if h.name:
                self.setlocal(h.name, e.value)
            prev = getattr(self, 'handling', None)
            self.handling = e.value
            self.block(h.body)
            self.handling = prev
            if not norm[0]:
                continue
            if not self.alive:
                self.alive, self.h, self.guard, self.ctx = norm
                continue
            c = c_and(*e.guard[len(g0):])
            self.guard = g0
            self.ctx = Ctx(norm[3].ranges, [f for f in norm[3].facts if f in self.ctx.facts])
            self.h = self.merge(c, self.h, norm[1])
        if s.finalbody:
            a = self.alive
            self.alive = True
            self.block(s.finalbody)
            self.alive = self.alive and a

    def matches(self, exc, typ):
        if typ is None:
            return True
        v = self.ev_quiet(typ)
        vs = v if isinstance(v, tuple) else (v,)
        names = set()
        if exc.cls is not None:
            for c in exc.cls.mro():
                names.add(c.name)
                if c.excname:
                    names |= set(EXC_BASE.get(c.excname, ()))
        names |= set(EXC_BASE.get(exc.name, (exc.name, 'Exception', 'BaseException')))
        for x in vs:
            if isinstance(x, (Builtin, ClassV)) and x.name in names:
                return True
            if isinstance(x, Unk):
                return False
        return False

    def s_With(self, s):
        for it in s.items:
            v = self.ev_quiet(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    # ------------------------------------------------------------ loops
    def items(self, v):
        """concrete list of the values of an iterable"""
        r = self.iter_concrete(v)
        if r is None:
            raise GiveUp('iteration over %r' % (v,))
        return r

    def iter_concrete(self, v):
        v = self.force(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, DictV):
            return list(self.h[v.id].keys())
        if isinstance(v, ListV):
            return list(self.h[v.id])
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeV):
            n = self.range_count(v).const
            if n is None or n > MAX_UNROLL:
                return None
            return [add(v.lo, mul(v.step, num(i))) for i in range(max(0, int(n)))]
        if isinstance(v, IterV):
            n = v.cnt.const
            if n is None or n > MAX_UNROLL:
                return None
            return [v.f(num(i)) for i in range(int(n))]
        if isinstance(v, Arr):
            n = self.shape_of(v)[0].const
            if n is None or n > MAX_UNROLL or v.sel:
                return None
            return [self.getitem(v, num(i)) for i in range(int(n))]
        if isinstance(v, list):
            return v
        if isinstance(v, Opaque) and getattr(v, 'items', None) is not None:
            return list(v.items)
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__iter__')
            if m is not None:
                return self.iter_concrete(self.call(self.bind(m, v), [], {}))
            p = self.xr_plain(v)
            if p is not None:
                return self.iter_concrete(p)
        if isinstance(v, WhereIdx):
            return list(self.np.where_tuple(self, v))
        if v is None or isinstance(v, (Poly, bool)):
            raise PyRaise('TypeError', 'object is not iterable')
        return None

    def range_count(self, r):
        st = r.step.const
        if st is None:
            raise GiveUp('range step')
        d = sub(r.hi, r.lo)
        if st < 0:
            d = neg(d)
        st = abs(st)
        if st == 1:
            return d
        return fn('floordiv', add(d, num(st - 1)), num(st))

    def sym_iter(self, v):
        v = self.force(v)
        if isinstance(v, RangeV):
            return IterV(self.range_count(v), lambda t: add(v.lo, mul(v.step, t)))
        if isinstance(v, IterV):
            return v
        if isinstance(v, Arr) and not v.sel:
            a = self.unflat(v)
            return IterV(a.shape[0], lambda t: self.getitem(a, t))
        c = self.iter_concrete(v)
        if c is not None:
            def f(t):
                k = t.const
                if k is None:
                    raise GiveUp('symbolic index into list')
                return c[k]
            return IterV(num(len(c)), f)
        raise GiveUp('iteration over %r' % (v,))

    def s_For(self, s):
        it = self.ev(s.iter)
        if isinstance(it, Unk):
            raise GiveUp('loop over unknown: ' + it.why)
        lst = self.iter_concrete(it)
        if lst is not None:
            return self.unrolled(lst, s)
        si = self.sym_iter(it)
        self.symloop(si, s)

    def unrolled(self, lst, s):
        fr = self.frames[-1]
        brk = []
        g0 = self.guard
        for v in lst:
            n0 = len(fr.exits)
            gi = self.guard
            self.assign(s.target, v)
            self.block(s.body)
            self.after_body(fr, n0, brk)
            if not self.alive:
                break
        if self.alive:
            self.block(s.orelse)
        self.join_breaks(brk, g0)

    def after_body(self, fr, n0, brk):
        conts = [e for e in fr.exits[n0:] if e.kind == 'continue']
        brk.extend(e for e in fr.exits[n0:] if e.kind == 'break')
        fr.exits[n0:] = [e for e in fr.exits[n0:] if e.kind not in ('continue', 'break')]
        for e in conts:
            self.join_exit(e)

    def join_exit(self, e):
        if not self.alive:
            self.alive, self.h, self.guard, self.ctx = True, dict(e.heap), e.guard, e.ctx
            return
        k = 0
        while k < len(e.guard) and k < len(self.guard) and e.guard[k] is self.guard[k]:
            k += 1
        c = c_and(*e.guard[k:])
        o = c_and(*self.guard[k:])
        g = c_or(c, o)
        self.guard = e.guard[:k] + (() if g is TRUE else (g,))
        self.ctx = Ctx(self.ctx.ranges, [f for f in self.ctx.facts if f in e.ctx.facts])
        self.h = self.merge(c, e.heap, self.h)

    def join_breaks(self, brk, g0):
        for e in brk:
            self.join_exit(e)

    def s_While(self, s):
        fr = self.frames[-1]
        brk = []
        g0 = self.guard
        for _ in range(MAX_UNROLL):
            c = self.truth(self.ev(s.test))
            if not isinstance(c, bool):
                d = self.ctx.decide(c)
                if d is None:
                    raise GiveUp('while condition')
                c = d
            if not c:
                self.block(s.orelse)
                break
            n0 = len(fr.exits)
            self.block(s.body)
            self.after_body(fr, n0, brk)
            if not self.alive:
                break
        else:
            raise GiveUp('while loop')
        self.join_breaks(brk, g0)

    def run_body(self, s, t, si):
        """one generic iteration; returns (heap after, raise exits)"""
        fr = self.frames[-1]
        n0 = len(fr.exits)
        g0, x0 = self.guard, self.ctx
        self.ctx = x0.with_range(t, ZERO, sub(si.cnt, ONE))
        self.guard = ()
        try:
            with using(self.ctx):
                self.assign(s.target, si.f(t))
                self.block(s.body)
                brk = []
                self.after_body(fr, n0, brk)
        finally:
            ex = fr.exits[n0:]
            del fr.exits[n0:]
            self.guard, self.ctx = g0, x0
        if brk or any(e.kind == 'return' for e in ex):
            raise GiveUp('early exit from a symbolic loop')
        if not self.alive:
            if ex and all(e.kind == 'raise' for e in ex):
                raise GiveUp('symbolic loop that always raises')
            raise GiveUp('loop body does not complete')
        return self.h, ex

    def symloop(self, si, s):
        fr = self.frames[-1]
        cnt = si.cnt
        h0 = self.h
        t = T.fresh_lv('i')
        changed = {}       # key -> kind
        for attempt in range(6):
            self.h = dict(h0)
            self.alive = True
            locs = {}
            for k in changed:
                self.install_phi(k, h0, locs)
            hstart = dict(self.h)
            ids0 = set(h0)
            h1, ex = self.run_body(s, t, si)
            new = self.diff(hstart, h1, ids0)
            extra = [k for k in new if k not in changed]
            if not extra:
                break
            for k in extra:
                changed[k] = True
        else:
            self.h = h0
            raise GiveUp('loop effects do not stabilise')
        # transfer functions
        lst = []
        finals = {}
        self.h = h1
        for k, L in locs.items():
            if L is None:
                # not carried: a value re-created in every iteration
                finals[k] = ('last', self.value_at(k, h1))
                continue
            v = self.value_at(k, h1)
            e = self.content_elem(v, L.shape)
            if e is None:
                finals[k] = ('unk', None)
                continue
            L.E = e
            lst.append(L)
        tc = self.ctx.with_range(t, ZERO, sub(cnt, ONE))
        with using(tc):
            r = solve(t, cnt, lst, self.ctx)
        # rebuild the state after the loop
        self.h = dict(h0)
        for i in h1:
            if i not in self.h:
                self.h[i] = h1[i]       # cells created by the body (last iteration, t to be replaced)
        last = sub(cnt, ONE)
        byname = {L.name: L for L in lst}
        subs_last = {t.single(): last}
        for k, L in locs.items():
            if L is not None and L.name in byname:
                self.set_final(k, L)
            elif k in finals and finals[k][0] == 'last':
                self.set_last(k, finals[k][1], h1, subs_last, byname)
            else:
                self.put(k, Unk('loop result'))
        # loop variable
        if isinstance(s.target, ast.Name):
            try:
                self.setlocal(s.target.id, si.f(last))
            except GiveUp:
                pass
        for e in ex:
            c = T.c_opaque('some_iteration', lam((cnt,), c_and(*e.guard), [t])) if e.guard else c_ge(last)
            e2 = Exit('raise', self.guard + (c,), e.value, dict(self.h), e.loc)
            e2.ctx = self.ctx
            e2.stack = e.stack
            fr.exits.append(e2)
        self.block(s.orelse)

    # locations: ('cell', id) array contents; ('d', id, key) a slot of a frame/object/dict; ('l', id, n) list slot
    def diff(self, a, b, ids0):
        out = []
        for i in ids0:
            x, y = a.get(i), b.get(i)
            if x is y:
                continue
            if isinstance(x, AC) and isinstance(y, AC):
                if x.elem is not y.elem:
                    out.append(('cell', i))
            elif isinstance(x, dict) and isinstance(y, dict):
                for k in list(x) + [k for k in y if k not in x]:
                    u, v = x.get(k, UNDEF), y.get(k, UNDEF)
                    if u is v or (type(u) is type(v) and not isinstance(u, (Poly, Cond)) and u == v):
                        continue
                    out.append(('d', i, k))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    if len(y) == len(x) + 1 and y[:len(x)] == x:
                        raise GiveUp('append in a symbolic loop')
                    raise GiveUp('list changed in a symbolic loop')
                for n, (u, v) in enumerate(zip(x, y)):
                    if u is not v and u != v:
                        out.append(('l', i, n))
        return out

    def value_at(self, k, h):
        if k[0] == 'cell':
            return h[k[1]]
        if k[0] == 'd':
            return h[k[1]].get(k[2], UNDEF)
        return h[k[1]][k[2]]

    def put(self, k, v):
        if k[0] == 'cell':
            self.h[k[1]] = v
        elif k[0] == 'd':
            d = dict(self.h[k[1]])
            d[k[2]] = v
            self.h[k[1]] = d
        else:
            l = list(self.h[k[1]])
            l[k[2]] = v
            self.h[k[1]] = tuple(l)

    def install_phi(self, k, h0, locs):
        v = self.value_at(k, h0)
        if isinstance(v, AC):
            p = T.phi('c%s' % (k[1],))
            L = Loc(k, v.shape, v.elem, p)
            if isinstance(v.elem, Cond):
                raise GiveUp('loop-carried boolean array')
            b = T.phiarr(p, v.shape)
            self.h[k[1]] = AC(v.shape, ref(b, *[ix(i) for i in range(len(v.shape))]), v.tag)
            locs[k] = L
        elif isinstance(v, Poly):
            p = T.phi('s%s' % (k[-1],), v.isint)
            locs[k] = Loc(k, None, v, p)
            self.put(k, p)
        elif isinstance(v, Arr) and not v.sel and not v.bool:
            p = T.phi('a%s' % (k[-1],))
            b = T.phiarr(p, v.shape)
            locs[k] = Loc(k, v.shape, self._read_in(v, h0), p)
            self.put(k, self.newarr(v.shape, ref(b, *[ix(i) for i in range(len(v.shape))]), None, v.flat))
            locs[k].iscond = v
        else:
            locs[k] = None

    def content_elem(self, v, shape):
        if isinstance(v, AC):
            return v.elem if isinstance(v.elem, Poly) else T.ind(v.elem)
        if isinstance(v, (Poly,)) and shape is None:
            return v
        if isinstance(v, bool) and shape is None:
            return num(int(v))
        if isinstance(v, Arr) and shape is not None and len(v.shape) == len(shape):
            return self.relem(v)
        return None

    def set_final(self, k, L):
        if k[0] == 'cell':
            self.h[k[1]] = AC(self.h[k[1]].shape, self.simp(L.final, L.shape), self.h[k[1]].tag)
        elif L.shape is None:
            self.put(k, L.final)
        else:
            self.put(k, self.newarr(L.shape, self.simp(L.final, L.shape), None, L.iscond.flat if L.iscond else False))

    def set_last(self, k, v, h1, sub_last, byname):
        """value bound in the last iteration"""
        mp = dict(sub_last)
        t = list(sub_last)[0]
        phis = {}
        for L in byname.values():
            if L.before is None:
                continue
            x = L.before(sub_last[t])
            phis[L.patom] = L.as_map(x)

        def fixe(e):
            e = subst_any(e, {**sub_last})
            return subst_any(e, phis) if phis else e

        def fix(u):
            if isinstance(u, (Poly, Cond)):
                return fixe(u)
            if isinstance(u, Arr):
                if u.cid in h1:
                    s = self.h
                    self.h = h1
                    try:
                        e = self.read(u)
                    finally:
                        self.h = s
                    return self.newarr([fixe(q) for q in u.shape], fixe(e), None, u.flat, u.sel)
                return u
            if isinstance(u, NTuple):
                return NTuple([fix(x) for x in u], u.cls)
            if isinstance(u, tuple):
                return tuple(fix(x) for x in u)
            if isinstance(u, (str, bool, type(None), slice)):
                return u
            if u is UNDEF:
                return u
            return Unk('value of a loop iteration')
        if isinstance(v, AC):
            self.put(k, Unk('loop'))
            return
        self.put(k, fix(v))

    # ------------------------------------------------------------ names
    def setlocal(self, n, v):
        fr = self.frames[-1]
        i = fr.lid
        if n in fr.globals_:
            i = fr.module.nsid
            f = fr.closure
            while f is not None:
                if n in self.h[f.lid]:
                    i = f.lid
                    break
                f = f.closure
        d = dict(self.h[i])
        d[n] = v
        self.setc(i, d)

    def getname(self, n):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            d = self.h.get(f.lid)
            if d is not None and n in d and not (f is not fr and getattr(f, 'isclass', None)):
                v = d[n]
                if v is UNDEF:
                    raise PyRaise('UnboundLocalError', n)
                v = self.force(v)
                if isinstance(v, Choice) and UNDEF in (v.a, v.b):
                    pass
                return v
            f = f.closure
        if fr.module is not None and fr.module.nsid is not None:
            d = self.h[fr.module.nsid]
            if n in d:
                return self.force(d[n])
        b = self.np.BUILTINS.get(n)
        if b is not None:
            return b
        if n in EXC_BASE:
            return self.np.exc_builtin(n)
        if n == '__name__':
            return fr.module.name
        if n == '__file__':
            return 'file'
        if hasattr(__import__('builtins'), n):
            return Unk('builtin ' + n)
        raise PyRaise('NameError', "name '%s' is not defined" % n)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise GiveUp('expression ' + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return Ellipsis
        return Unk('constant')

    def e_Name(self, n):
        return self.getname(n.id)

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, n):
        return self.newlist(self.elts(n.elts))

    def e_Set(self, n):
        return SetV(self.alloc(tuple(self.elts(n.elts))))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                if not isinstance(o, DictV):
                    raise GiveUp('** of non-dict')
                d.update(self.h[o.id])
            else:
                d[self.key(self.ev(k))] = self.ev(v)
        return self.newdict(d)

    def key(self, k):
        if isinstance(k, Poly):
            c = k.const
            return k if c is None else c
        if isinstance(k, (ListV, DictV)):
            raise PyRaise('TypeError', 'unhashable')
        return k

    def e_JoinedStr(self, n):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = self.ev(v.value)
                t = self.tostr(x)
                if v.format_spec is not None and '<?>' not in t:
                    t = self.np.b_format(self, '{:' + self.ev(v.format_spec) + '}', [x], {})
                out += t
        return out

    def tostr(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Poly) and x.const is not None:
            return str(x.const)
        if isinstance(x, (bool, type(None))):
            return str(x)
        return '<?>'

    def e_FormattedValue(self, n):
        return self.tostr(self.ev(n.value))

    def e_Lambda(self, n):
        return self.mkfunc(n)

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if not isinstance(c, bool):
            d = self.ctx.decide(c)
            if d is not None:
                c = d
        if c is True:
            return self.ev(n.body)
        if c is False:
            return self.ev(n.orelse)
        return self.lazy(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def lazy(self, c, fa, fb):
        def g(f):
            def run():
                try:
                    return f()
                except PyRaise as e:
                    self.record('raise', ExcV(e.name, e.msg, e.cls))
                    return None
                except Dead:
                    self.alive = False
                    return None
            return run
        cc, a, b = self.fork(c, g(fa), g(fb))
        if not self.alive:
            raise Dead()
        if cc is TRUE:
            return a
        if cc is FALSE:
            return b
        return self.merge_val(c, a, b)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if not isinstance(c, bool):
                d = self.ctx.decide(c)
                if d is not None:
                    c = d
            if isinstance(c, bool):
                if c != isand:
                    return v
                continue
            rest = ast.BoolOp(n.op, n.values[i + 1:]) if i + 2 < len(n.values) else n.values[i + 1]
            if isand:
                r = self.lazy(c, lambda: self.truth(self.ev(rest)), lambda: False)
            else:
                r = self.lazy(c, lambda: True, lambda: self.truth(self.ev(rest)))
            return r
        return v

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Cond):
            return self.tobool(v)
        if isinstance(v, Poly):
            return self.tobool(c_not(c_eq(v)))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, DictV):
            return len(self.h[v.id]) > 0
        if isinstance(v, ListV):
            return len(self.h[v.id]) > 0
        if isinstance(v, Arr):
            if all(s.const == 1 for s in v.shape):
                e = self.read(v)
                e = subst_any(e, {T._IXS[i]: ZERO for i in range(len(v.shape))})
                return self.truth(e)
            for s in v.shape:
                if self.ctx.prove(sub(s, num(2))):
                    raise PyRaise('ValueError', 'truth value of an array is ambiguous')
            raise GiveUp('truth of an array')
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            return self.merge_val(v.c, a, b)
        if isinstance(v, Unk):
            self.note('condition: ' + v.why)
            return T.c_opaque('unk:%s:%d' % (v.why[:60], self.newid()))
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__bool__') or self.class_lookup(v.cls, '__len__')
            if m is not None:
                return self.truth(self.call(self.bind(m, v), [], {}))
            p = self.xr_plain(v)
            if p is not None:
                return self.truth(p)
        return True

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        v = self.force(v)
        if isinstance(n.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else self.tobool(c_not(c))
        return self.unop(n.op, v)

    def unop(self, op, v):
        if isinstance(v, Unk):
            return v
        if isinstance(v, Obj):
            return self.np.xr_unop(self, op, v)
        if isinstance(op, ast.USub):
            return self.map(lambda x: neg(self.nume(x)), v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, bool):
                return Unk('~bool')
            return self.map(lambda x: c_not(x) if isinstance(x, Cond) else neg(add(x, ONE)), v)
        raise GiveUp('unary')

    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Unk):
            return a
        if isinstance(b, Unk):
            return b
        if isinstance(a, Choice) or isinstance(b, Choice):
            ch = a if isinstance(a, Choice) else b
            return self.merge_val(ch.c, self.binop(op, a.a if a is ch else a, b.a if b is ch else b),
                                  self.binop(op, a.b if a is ch else a, b.b if b is ch else b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.np.xr_binop(self, op, a, b)
        lists = (ListV, tuple)
        if isinstance(op, ast.Add):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(a) + tuple(b)
            if isinstance(a, ListV) and isinstance(b, ListV) and not isinstance(a, DictV):
                return self.newlist(self.h[a.id] + self.h[b.id])
            if isinstance(a, ListV) and isinstance(b, Arr) and getattr(b, 'cid', None) in getattr(self, 'symlists', ()):
                return self.symlist(self.np.concat(self, [self.np.asarray(self, a), b], 0))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListV, tuple, str)) and isinstance(y, Poly):
                    k = y.const
                    if k is None:
                        return self.np.repeat_list(self, x, y)
                    if isinstance(x, str):
                        return x * int(k)
                    if isinstance(x, ListV):
                        return self.newlist(self.h[x.id] * int(k))
                    return tuple(x) * int(k)
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.np.b_percent(self, a, b)
        if (a is None or b is None or isinstance(a, (str, DictV)) or isinstance(b, (str, DictV))):
            raise PyRaise('TypeError', 'unsupported operand type(s)')
        if (isinstance(a, lists) and not isinstance(b, Arr)) or (isinstance(b, lists) and not isinstance(a, Arr)):
            raise PyRaise('TypeError', 'unsupported operand type(s) for a sequence')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            def f(x, y):
                if isinstance(x, Cond) and isinstance(y, Cond):
                    if isinstance(op, ast.BitAnd):
                        return c_and(x, y)
                    if isinstance(op, ast.BitOr):
                        return c_or(x, y)
                    return c_or(c_and(x, c_not(y)), c_and(c_not(x), y))
                raise GiveUp('bit operation')
            r = self.map(f, a, b)
            return self.tobool(r) if isinstance(r, Cond) else r
        N = self.nume
        f = {ast.Add: lambda x, y: add(N(x), N(y)), ast.Sub: lambda x, y: sub(N(x), N(y)),
             ast.Mult: lambda x, y: mul(N(x), N(y)), ast.Div: lambda x, y: self.div(N(x), N(y)),
             ast.Pow: lambda x, y: T.power(N(x), N(y)),
             ast.FloorDiv: lambda x, y: fn('floordiv', N(x), N(y)),
             ast.Mod: lambda x, y: fn('mod', N(x), N(y)) if N(x).isint and N(y).isint else
             sub(N(x), mul(N(y), fn('floor', T.div(N(x), N(y)))))}.get(type(op))
        if f is None:
            if isinstance(op, ast.MatMult):
                return self.np.matmul(self, a, b)
            raise GiveUp('operator')
        if isinstance(a, Poly) and isinstance(b, Poly) and isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)) \
                and not b.t:
            raise PyRaise('ZeroDivisionError', 'division by zero')
        if isinstance(op, ast.Mult):
            # a boolean mask times a number
            pass
        return self.map(f, a, b)

    def div(self, x, y):
        try:
            return T.div(x, y)
        except T.DivZero:
            return T.divzero()

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                ra, rb = self.truth(res), self.truth(c)
                if ra is False or rb is False:
                    res = False
                elif ra is True:
                    res = c
                elif rb is True:
                    res = ra
                else:
                    res = self.tobool(c_and(ra, rb))
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else (r if isinstance(r, Unk) else self.tobool(c_not(r)))
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else (r if isinstance(r, Unk) else self.tobool(c_not(r)))
            return r
        if isinstance(a, Unk):
            return a
        if isinstance(b, Unk):
            return b
        if isinstance(a, Choice) or isinstance(b, Choice):
            ch = a if isinstance(a, Choice) else b
            return self.merge_val(ch.c, self.compare(op, a.a if a is ch else a, b.a if b is ch else b),
                                  self.compare(op, a.b if a is ch else a, b.b if b is ch else b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            r = self.np.xr_call(self, 'compare', op, a, b)
            if r is not None:
                return r[0]
        num_ = (Poly, Cond, bool, Arr)
        if isinstance(a, num_) and isinstance(b, num_) or (isinstance(a, Arr) and isinstance(b, (tuple, ListV))) or (
                isinstance(b, Arr) and isinstance(a, (tuple, ListV))):
            N = self.nume
            f = {ast.Eq: lambda x, y: c_eq(sub(N(x), N(y))), ast.NotEq: lambda x, y: c_not(c_eq(sub(N(x), N(y)))),
                 ast.Lt: lambda x, y: c_gt(sub(N(y), N(x))), ast.LtE: lambda x, y: c_ge(sub(N(y), N(x))),
                 ast.Gt: lambda x, y: c_gt(sub(N(x), N(y))), ast.GtE: lambda x, y: c_ge(sub(N(x), N(y)))}[type(op)]
            r = self.map(f, a, b)
            if isinstance(r, Cond):
                d = self.ctx.decide(r)
                if d is not None:
                    return d
                return self.tobool(r)
            return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.NotEq):
                r = (not r) if isinstance(r, bool) else self.tobool(c_not(r))
            return r
        if a is None or b is None:
            raise PyRaise('TypeError', 'comparison with None')
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        raise GiveUp('comparison')

    def equal(self, a, b):
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)) and not isinstance(a, DictV):
            if isinstance(a, ListV) != isinstance(b, ListV):
                return False
            x, y = self.items(a), self.items(b)
            if len(x) != len(y):
                return False
            cs = [self.truth(self.compare(ast.Eq(), u, v)) for u, v in zip(x, y)]
            if False in cs:
                return False
            cs = [c for c in cs if c is not True]
            return self.tobool(c_and(*cs)) if cs else True
        if isinstance(a, str) and isinstance(b, str):
            if '<?>' in a or '<?>' in b:
                return T.c_opaque('str', a, b)
            return a == b
        if type(a) is not type(b):
            return False
        return a is b or a == b

    def identical(self, a, b):
        if isinstance(a, Unk):
            return a if b is not None or True else a
        if isinstance(b, Unk):
            return b
        if isinstance(a, Choice) or isinstance(b, Choice):
            ch = a if isinstance(a, Choice) else b
            x = self.identical(a.a if a is ch else a, b.a if b is ch else b)
            y = self.identical(a.b if a is ch else a, b.b if b is ch else b)
            return self.merge_val(ch.c, x, y)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (Cond, bool)) and isinstance(b, (Cond, bool)):
            return self.compare(ast.Eq(), a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a == b
        if isinstance(a, (ListV, Obj, ClassV, FuncV)):
            return a == b
        return a is b

    def contains(self, a, b):
        if isinstance(b, Unk):
            return b
        if isinstance(b, str):
            return isinstance(a, str) and a in b
        if isinstance(b, DictV):
            return self.key(a) in self.h[b.id]
        if isinstance(b, Obj):
            return self.np.xr_contains(self, a, b)
        if isinstance(b, (tuple, ListV)):
            cs = [self.truth(self.compare(ast.Eq(), a, x)) for x in self.items(b)]
            if True in cs:
                return True
            cs = [c for c in cs if c is not False]
            return self.tobool(c_or(*cs)) if cs else False
        if isinstance(b, Arr):
            return self.np.call_name(self, 'any', [self.compare(ast.Eq(), a, b)], {})
        raise GiveUp('in')

    # comprehensions
    def comp(self, n, elt):
        """list of values or a symbolic list (Arr)"""
        lid = self.alloc({})
        fr0 = self.frames[-1]
        fr = Frame(lid, fr0.module, fr0, fr0.func)
        fr.yields = None
        self.frames.append(fr)
        out = []
        self.compsym = None
        try:
            self.gens(n.generators, 0, lambda: out.append(elt()), out)
        finally:
            self.frames.pop()
            fr0.exits.extend(fr.exits)
        return out

    def gens(self, gs, k, f, out):
        if k == len(gs):
            f()
            return
        g = gs[k]
        it = self.ev(g.iter)
        if isinstance(it, Unk):
            raise GiveUp(it.why)
        lst = self.iter_concrete(it)
        if lst is None:
            if len(gs) != 1 or g.ifs:
                raise GiveUp('symbolic nested comprehension')
            si = self.sym_iter(it)
            t = T.fresh_lv('q')
            x0 = self.ctx
            self.ctx = x0.with_range(t, ZERO, sub(si.cnt, ONE))
            try:
                with using(self.ctx):
                    self.assign(g.target, si.f(t))
                    f()
            finally:
                self.ctx = x0
            v = self.plain(out.pop())
            if isinstance(v, bool):
                v = T.c_const(v)
            if isinstance(v, (Poly, Cond)):
                a = self.newarr((si.cnt,), subst_any(v, {t.single(): ix(0)}))
            elif isinstance(v, Arr) and not v.flat and not v.sel:
                e = self.read(v)
                mp = {T._IXS[i]: ix(i + 1) for i in range(len(v.shape))}
                mp[t.single()] = ix(0)
                a = self.newarr((si.cnt,) + v.shape, subst_any(e, mp))
            else:
                raise GiveUp('symbolic list of %r' % (v,))
            out.append(('SYM', a))
            return
        for v in lst:
            self.assign(g.target, v)
            ok = True
            for c in g.ifs:
                b = self.truth(self.ev(c))
                if not isinstance(b, bool):
                    b2 = self.ctx.decide(b)
                    if b2 is None:
                        raise GiveUp('comprehension filter')
                    b = b2
                if not b:
                    ok = False
                    break
            if ok:
                self.gens(gs, k + 1, f, out)

    def symlist(self, a):
        if not hasattr(self, 'symlists'):
            self.symlists = set()
        self.symlists.add(a.cid)
        return a

    def e_ListComp(self, n):
        out = self.comp(n, lambda: self.ev(n.elt))
        if len(out) == 1 and isinstance(out[0], tuple) and len(out[0]) == 2 and out[0][0] == 'SYM' and isinstance(
                out[0][1], Arr):
            return self.symlist(out[0][1])
        return self.newlist(out)

    def e_GeneratorExp(self, n):
        v = self.e_ListComp(n)
        return v

    def e_SetComp(self, n):
        return SetV(self.alloc(tuple(self.comp(n, lambda: self.ev(n.elt)))))

    def e_DictComp(self, n):
        out = self.comp(n, lambda: (self.key(self.ev(n.key)), self.ev(n.value)))
        return self.newdict(dict(out))

    def e_Starred(self, n):
        raise GiveUp('starred')

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.setlocal(n.target.id, v)
        return v

    def e_Slice(self, n):
        return slice(*(None if x is None else self.ev(x) for x in (n.lower, n.upper, n.step)))

    def evkey(self, n):
        return self.ev(n)

    def e_Subscript(self, n):
        v = self.ev(n.value)
        return self.getitem(v, self.evkey(n.slice))

    def e_Attribute(self, n):
        return self.getattr_(self.ev(n.value), n.attr)

    def e_Call(self, n):
        f = self.ev(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value))
                if isinstance(d, Unk):
                    return d
                if not isinstance(d, DictV):
                    raise PyRaise('TypeError', 'argument after ** must be a mapping')
                for kk, vv in self.h[d.id].items():
                    if kk in kw:
                        raise PyRaise('TypeError', 'multiple values for keyword argument')
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value)
        loc = self.loc
        r = self.call(f, args, kw)
        self.loc = loc
        return r

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        for c in cls.mro():
            d = self.h[c.nsid]
            if name in d:
                return d[name]
        return None

    def bind(self, v, obj):
        if isinstance(v, FuncV):
            return BoundV(v, obj)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMV):
            return BoundV(v.f, obj.cls if isinstance(obj, Obj) else obj)
        if isinstance(v, Builtin) and getattr(v, 'method', False):
            return BoundV(v, obj)
        return v

    def getattr_(self, o, name):
        o = self.force(o)
        if isinstance(o, Unk):
            return Unk('attribute of unknown: ' + o.why)
        if isinstance(o, Choice):
            return self.lazy(o.c, lambda: self.getattr_(o.a, name), lambda: self.getattr_(o.b, name))
        if isinstance(o, Obj):
            cv = self.class_lookup(o.cls, name)
            if isinstance(cv, PropV):
                return self.call(cv.fget, [o], {})
            if isinstance(cv, Obj):
                g = self.class_lookup(cv.cls, '__get__')
                if g is not None:
                    d = self.h[o.id]
                    if name not in d or self.class_lookup(cv.cls, '__set__') is not None or self.isprop(cv.cls):
                        return self.call(self.bind(g, cv), [o, o.cls], {})
            d = self.h[o.id]
            if name in d:
                v = d[name]
                if v is UNDEF:
                    raise PyRaise('AttributeError', name)
                return self.force(v)
            if cv is not None:
                return self.bind(cv, o)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return self.newdict(d)
            r = self.np.xr_attr(self, o, name)
            if r is not None:
                return r[0]
            ga = self.class_lookup(o.cls, '__getattr__')
            if ga is not None:
                return self.call(self.bind(ga, o), [name], {})
            if any(getattr(c, 'unknown_base', False) for c in o.cls.mro()):
                return Unk('attribute ' + name)
            raise PyRaise('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, ModuleV):
            if o.nsid is not None:
                d = self.h[o.nsid]
                if name in d:
                    return self.force(d[name])
                m = self.modules.get(o.name + '.' + name)
                if m is not None:
                    return m
                raise PyRaise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
            if o.attrs is not None and name in o.attrs:
                return o.attrs[name]
            return self.np.libattr(self, o, name)
        if isinstance(o, ClassV):
            v = self.class_lookup(o, name)
            if v is not None or any(name in self.h[c.nsid] for c in o.mro()):
                if isinstance(v, StaticV):
                    return v.f
                if isinstance(v, ClassMV):
                    return BoundV(v.f, o)
                if isinstance(v, Obj):
                    g = self.class_lookup(v.cls, '__get__')
                    if g is not None:
                        return Unk('descriptor on class')
                return v
            if name == '__name__':
                return o.name
            if name == '__new__':
                return Builtin('__new__', lambda I, a, k: Obj(I.alloc({}), I.force(a[0])))
            if name == '__doc__':
                return ''
            if name == '_fields' and o.fields is not None:
                return tuple(o.fields)
            raise PyRaise('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in self.h[c.nsid]:
                    return self.bind(self.h[c.nsid][name], o.obj)
                b = getattr(c, 'builtin', None)
            if name in ('__init__', '__init_subclass__', '__setattr__'):
                return Builtin('noop', lambda I, a, k: None)
            raise PyRaise('AttributeError', name)
        if isinstance(o, NTuple):
            if name in o.cls.fields:
                return o[o.cls.fields.index(name)]
            if name == '_asdict':
                return Builtin('_asdict', lambda I, a, k: I.newdict(dict(zip(o.cls.fields, o))))
            if name == '_fields':
                return tuple(o.cls.fields)
            if name == '_replace':
                return Builtin('_replace', lambda I, a, k: NTuple(
                    [k.get(f, x) for f, x in zip(o.cls.fields, o)], o.cls))
        if isinstance(o, Arr):
            return self.np.arr_attr(self, o, name)
        if isinstance(o, (Poly, Cond, bool)):
            return self.np.num_attr(self, o, name)
        if isinstance(o, Opaque):
            if hasattr(o, 'attribute'):
                return o.attribute(name)
            if name in o.attrs:
                return o.attrs[name]
            return Unk('%s.%s' % (o.kind, name))
        if isinstance(o, (FuncV, BoundV, Builtin)):
            if name == '__name__':
                return o.name if not isinstance(o, BoundV) else o.func.name
            if name in ('__doc__',):
                return ''
            if isinstance(o, Builtin):
                r = self.np.builtin_attr(self, o, name)
                if r is not None:
                    return r
            return Unk('function attribute')
        if isinstance(o, PropV):
            if name in ('setter',):
                return Builtin('setter', lambda I, a, k: PropV(o.fget, a[0]))
            if name in ('fget',):
                return o.fget
        if isinstance(o, ExcV):
            if name == 'args':
                return (o.msg,)
            return Unk('exception attribute')
        if isinstance(o, str) or isinstance(o, (ListV, tuple)):
            return self.np.seq_attr(self, o, name)
        if o is None:
            raise PyRaise('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        if o is UNDEF:
            raise PyRaise('UnboundLocalError', name)
        if isinstance(o, slice):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            if not hasattr(o, name):
                raise PyRaise('AttributeError', name)
        if o is Ellipsis or isinstance(o, RangeV) and not hasattr(range, name):
            raise PyRaise('AttributeError', name)
        return Unk('attribute %s of %r' % (name, o))

    def isprop(self, cls):
        return any(c.name == 'property' for c in cls.mro())

    def setattr_(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Unk):
            return
        if isinstance(o, Obj):
            cv = self.class_lookup(o.cls, name)
            if isinstance(cv, PropV):
                if cv.fset is None:
                    raise PyRaise('AttributeError', "can't set attribute '%s'" % name)
                self.call(cv.fset, [o, v], {})
                return
            if isinstance(cv, Obj):
                s = self.class_lookup(cv.cls, '__set__')
                if s is not None:
                    if isinstance(v, Unk):
                        raise GiveUp(v.why)
                    self.call(self.bind(s, cv), [o, v], {})
                    return
                if self.isprop(cv.cls):
                    raise PyRaise('AttributeError', "can't set attribute '%s'" % name)
            d = dict(self.h[o.id])
            d[name] = v
            self.setc(o.id, d)
            return
        if isinstance(o, ClassV):
            d = dict(self.h[o.nsid])
            d[name] = v
            self.setc(o.nsid, d)
            return
        if isinstance(o, ModuleV) and o.nsid is not None:
            d = dict(self.h[o.nsid])
            d[name] = v
            self.setc(o.nsid, d)
            return
        if isinstance(o, Arr) and name == 'shape':
            raise GiveUp('shape assignment')
        if o is None:
            raise PyRaise('AttributeError', "'NoneType' object has no attribute '%s'" % name)

    # ------------------------------------------------------------ calls
    def call_unknown(self, f, args, kw):
        root = f.why.split('.')[0]
        name = f.why.split('.')[-1]
        u = Unk('result of unknown call (%s)' % f.why)
        if root in QUIET:
            return u
        self.note('call of unknown: ' + f.why)
        lib = root in ('numpy', 'scipy', 'math', 'itertools', 'operator', 'builtin') or f.why.startswith('builtin ')
        if lib and name not in MUTATORS:
            todo = [v for k, v in kw.items() if k == 'out'] + ([args[0]] if args and 'copy' in kw else [])
        else:
            todo = list(args) + list(kw.values())
            if f.why.startswith(('ndarray.', 'number.')) and name in ('sort', 'put', 'partition', 'resize', 'itemset',
                                                                     'byteswap', 'setfield'):
                self.lose('method ' + f.why)
            if not lib and not f.why.startswith(('ndarray.', 'number.')):
                # an unknown function may change whatever it can reach
                if any(isinstance(self.force(v), (Obj, ListV, DictV, FuncV, BoundV)) for v in todo) or \
                        not f.why.startswith('result of'):
                    self.lose('call of unknown ' + f.why)
        for v in todo:
            v = self.force(v)
            if isinstance(v, Arr):
                self.clobber(v, u)
            elif isinstance(v, (ListV, tuple)):
                for x in (v if isinstance(v, tuple) else self.h[v.id]):
                    if isinstance(x, Arr):
                        self.clobber(x, u)
        return u

    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, Unk):
            return self.call_unknown(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.callfunc(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, KernelV):
            return self.np.kernel_call(self, f.name, args, kw)
        if isinstance(f, Opaque) and f.call is not None:
            return f.call(self, list(args), dict(kw))
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if isinstance(f, Obj):
            m = self.class_lookup(f.cls, '__call__')
            if m is not None:
                return self.call(self.bind(m, f), args, kw)
            raise PyRaise('TypeError', "'%s' object is not callable" % f.cls.name)
        if f is None or isinstance(f, (Poly, str, tuple, Arr, bool, ListV)):
            raise PyRaise('TypeError', 'object is not callable')
        return Unk('call of %r' % (f,))

    def construct(self, cls, args, kw):
        if cls.fields is not None:
            vals = list(args)
            if len(vals) > len(cls.fields):
                raise PyRaise('TypeError', '%s takes %d arguments, %d given' % (cls.name, len(cls.fields), len(vals)))
            for k in kw:
                if k not in cls.fields or cls.fields.index(k) < len(vals):
                    raise PyRaise('TypeError', 'unexpected argument %s' % k)
            defaults = getattr(cls, 'nt_defaults', {})
            for f in cls.fields[len(vals):]:
                if f in kw:
                    vals.append(kw[f])
                elif f in defaults:
                    vals.append(defaults[f])
                else:
                    raise PyRaise('TypeError', 'missing argument %s' % f)
            return NTuple(vals, cls)
        if cls.excname:
            return ExcV(cls.name, self.tostr(args[0]) if args else '', cls)
        for c in cls.mro():
            b = getattr(c, 'builtin', None)
            if b is not None and b.name in ('tuple', 'list', 'dict', 'str', 'int', 'float'):
                return Unk('subclass of builtin')
        ab = self.abstract_methods(cls)
        if ab:
            raise PyRaise('TypeError', 'abstract class %s (%s)' % (cls.name, sorted(ab)))
        o = Obj(self.alloc({}), cls)
        init = self.class_lookup(cls, '__init__')
        if init is not None:
            self.call(self.bind(init, o), args, kw)
        elif (args or kw) and not any(getattr(c, 'builtin', None) for c in cls.mro()):
            raise PyRaise('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def abstract_methods(self, cls):
        if not any(c.name == 'ABC' for c in cls.mro()):
            return set()
        out = set()
        seen = set()
        for c in cls.mro():
            for k, v in self.h[c.nsid].items():
                if k in seen:
                    continue
                seen.add(k)
                f = v.fget if isinstance(v, PropV) else (v.f if isinstance(v, (StaticV, ClassMV)) else v)
                if isinstance(f, FuncV) and getattr(f, 'abstract', False):
                    out.add(k)
        return out

    def bindargs(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise('TypeError', '%s() takes %d positional arguments but %d were given' % (
                f.name, len(pos), len(args)))
        for n, v in zip(pos, args):
            d[n] = v
        if a.vararg is not None:
            d[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in d and k in pos:
                raise PyRaise('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
            if k in pos or k in kwonly:
                d[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            d[a.kwarg.arg] = self.newdict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in d:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyRaise('TypeError', "%s() missing required argument '%s'" % (f.name, n))
                d[n] = f.defaults[j]
        for x, dv, de in zip(kwonly, f.kwdefaults, a.kw_defaults):
            if x not in d:
                if de is None:
                    raise PyRaise('TypeError', "%s() missing keyword argument '%s'" % (f.name, x))
                d[x] = dv
        return d

    def callfunc(self, f, args, kw):
        if len(self.frames) > MAX_DEPTH:
            return Unk('recursion')
        ov = getattr(self, 'overrides', None)
        if ov:
            o = ov.get((f.module.name if f.module else None, f.cls.name if f.cls else None, f.name))
            if o is not None:
                return o(self, f, args, kw)
        d = self.bindargs(f, args, kw)
        self.ncalls += 1
        q = (f.module.name if f.module else '?', (f.cls.name + '.' if f.cls else '') + f.name)
        self.funcs_seen[q] = self.funcs_seen.get(q, 0) + 1
        lid = self.alloc(d)
        fr = Frame(lid, f.module, f.closure, q[1], f.cls)
        fr.selfarg = args[0] if args else None
        g0, x0, loc0 = self.guard, self.ctx, self.loc
        self.guard = ()
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.ev(f.node.body)
                    self.record('return', v)
                except PyRaise as e:
                    self.record('raise', ExcV(e.name, e.msg, e.cls))
                except Dead:
                    self.alive = False
            else:
                self.block(f.node.body)
                if self.alive:
                    self.record('return', None)
        finally:
            self.frames.pop()
            self.guard, self.ctx, self.loc = g0, x0, loc0
        rets = []
        for e in fr.exits:
            if e.kind == 'return':
                rets.append(e)
            elif e.kind == 'raise':
                e2 = Exit('raise', g0 + e.guard, e.value, e.heap, e.loc)
                e2.ctx = e.ctx
                e2.stack = e.stack
                self.frames[-1].exits.append(e2) if self.frames else None
                if not self.frames:
                    self.top_exits.append(e2)
        if not rets:
            self.alive = False
            raise Dead()
        self.alive = True
        if fr.yields is not None or self.is_gen(f):
            self.h = dict(rets[-1].heap)
            return self.newlist(fr.yields or [])
        v = rets[-1].value
        h = rets[-1].heap
        if len(rets) == 1:
            self.h = dict(h)
            self.ctx = rets[0].ctx
            return v
        for e in reversed(rets[:-1]):
            c = c_and(*e.guard)
            saved = self.h
            self.h = dict(h)
            hm = self.merge(c, e.heap, h)
            self.h = hm
            v = self.merge_val(c, e.value, v, e.heap, h)
            h = self.h
        self.h = dict(h)
        return v

    def is_gen(self, f):
        if f.isgen is None:
            f.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        return f.isgen

    # ------------------------------------------------------------ indexing
    def aslin(self, v):
        """index value -> Poly"""
        v = self.force(v)
        if isinstance(v, bool):
            return num(int(v))
        if isinstance(v, Poly):
            return v
        if isinstance(v, Arr) and not v.sel and all(s.const == 1 for s in v.shape):
            return subst_any(self.relem(v), {T._IXS[i]: ZERO for i in range(len(v.shape))})
        return None

    def normidx(self, i, size):
        """python index -> 0-based position"""
        if i.const is not None and i.const < 0:
            r = add(size, i)
            if self.ctx.prove(sub(neg(r), ONE)):
                raise PyRaise('IndexError', 'index %s is out of bounds' % i)
            return r
        if self.ctx.prove(i):
            if self.ctx.prove(sub(i, size)):
                raise PyRaise('IndexError', 'index %s is out of bounds for size %s' % (i, size))
            return i
        if self.ctx.prove(sub(neg(i), ONE)):
            r = add(size, i)
            if self.ctx.prove(sub(neg(r), ONE)):
                raise PyRaise('IndexError', 'index %s is out of bounds' % i)
            return r
        return ite(c_ge(i), i, add(size, i))

    def clamp(self, p, size, lo, hi):
        """slice bound -> clamped position in lo..hi"""
        if self.ctx.prove(p):
            q = p
        elif self.ctx.prove(sub(neg(p), ONE)):
            q = add(size, p)
        else:
            q = ite(c_ge(p), p, add(size, p))
        if not self.ctx.prove(sub(q, lo)):
            if self.ctx.prove(sub(lo, q)):
                return lo
            q = fn('max', q, lo)
        if not self.ctx.prove(sub(hi, q)):
            if self.ctx.prove(sub(q, hi)):
                return hi
            q = fn('min', q, hi)
        return q

    def slicebounds(self, s, size):
        """(start, step, count)"""
        step = ONE if s.step is None else self.aslin(s.step)
        if step is None:
            raise GiveUp('slice step')
        st = step.const
        if st is None or st == 0:
            raise GiveUp('slice step')
        lo = None if s.start is None else self.aslin(s.start)
        hi = None if s.stop is None else self.aslin(s.stop)
        if (s.start is not None and lo is None) or (s.stop is not None and hi is None):
            if isinstance(s.start, Unk) or isinstance(s.stop, Unk):
                raise GiveUp('unknown slice bound')
            raise PyRaise('TypeError', 'slice indices must be integers')
        for q in (lo, hi):
            if q is not None and isinstance(q.const, Fraction):
                raise PyRaise('TypeError', 'slice indices must be integers')
        if st > 0:
            a = ZERO if lo is None else self.clamp(lo, size, ZERO, size)
            b = size if hi is None else self.clamp(hi, size, ZERO, size)
            n = sub(b, a)
        else:
            a = sub(size, ONE) if lo is None else self.clamp(lo, size, num(-1), sub(size, ONE))
            b = num(-1) if hi is None else self.clamp(hi, size, num(-1), sub(size, ONE))
            n = sub(a, b)
        if abs(st) != 1:
            n = fn('floordiv', add(n, num(abs(st) - 1)), num(abs(st)))
        if not self.ctx.prove(n):
            if self.ctx.prove(neg(n)):
                n = ZERO
            else:
                n = fn('max', n, ZERO)
        return a, step, n

    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(o, Unk):
            return o
        if isinstance(k, Unk):
            return k
        if isinstance(o, Choice):
            return self.lazy(o.c, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(o, Opaque) and hasattr(o, 'item'):
            return o.item(self, k)
        if isinstance(o, Arr):
            return self.view(o, k)
        if isinstance(o, DictV):
            d = self.h[o.id]
            kk = self.key(k)
            if kk not in d:
                if '?' in d:
                    return d['?']
                raise PyRaise('KeyError', self.tostr(k))
            return self.force(d[kk])
        if isinstance(o, (tuple, ListV, str)):
            seq = o if isinstance(o, (tuple, str)) else self.h[o.id]
            if isinstance(k, slice):
                c = [None if x is None else self.constint(x) for x in (k.start, k.stop, k.step)]
                r = seq[slice(*c)]
                return r if not isinstance(o, ListV) else self.newlist(r)
            i = self.constint(k)
            try:
                return self.force(seq[i])
            except IndexError:
                raise PyRaise('IndexError', 'index out of range')
        if isinstance(o, WhereIdx):
            return self.np.where_tuple(self, o)[self.constint(k)]
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, '__getitem__')
            if m is not None:
                return self.call(self.bind(m, o), [k], {})
            return self.np.xr_getitem(self, o, k)
        if isinstance(o, (ClassV, Builtin)):
            return Unk('subscripted type')
        if isinstance(o, ModuleV):
            return Unk('typing')
        if isinstance(o, RangeV):
            return add(o.lo, mul(o.step, self.aslin(k)))
        if isinstance(o, Poly) and (k is Ellipsis or k == ()):
            return o
        if isinstance(o, (Poly, bool, Cond)):
            raise PyRaise('TypeError', 'scalar is not subscriptable')
        if o is None:
            raise PyRaise('TypeError', "'NoneType' object is not subscriptable")
        return Unk('item of %r' % (o,))

    def constint(self, k):
        k = self.aslin(k)
        if k is None:
            raise PyRaise('TypeError', 'indices must be integers')
        if k.const is None:
            raise GiveUp('symbolic index into a sequence')
        return int(k.const)

    def expandkey(self, a, k):
        ks = list(k) if isinstance(k, tuple) else [k]
        n = len(a.shape)
        used = sum(1 for x in ks if x is not None and x is not Ellipsis)
        for x in ks:
            if isinstance(x, Arr) and x.bool and len(x.shape) > 1:
                used += len(x.shape) - 1
        out = []
        hit = False
        for x in ks:
            if x is Ellipsis and not hit:
                out.extend([slice(None)] * (n - used))
                hit = True
            else:
                out.append(x)
        if not hit:
            out.extend([slice(None)] * (n - used))
        cnt = 0
        for x in out:
            if x is not None:
                cnt += len(x.shape) if isinstance(x, Arr) and x.bool else 1
        if cnt > n:
            raise PyRaise('IndexError', 'too many indices for array')
        return out

    def view(self, a, k):
        if isinstance(k, WhereIdx) or (isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], WhereIdx)):
            return self.select(a, k if isinstance(k, WhereIdx) else k[0])
        if isinstance(k, Arr) and k.bool and (len(k.shape) > 1 or k.flat):
            return self.select(a, WhereIdx(k))
        if a.flat:
            if isinstance(k, Arr) and k.bool and k.flat:
                return self.select(a, WhereIdx(k))
            a = self.unflat(a)
        if isinstance(k, Arr) and k.bool and len(a.shape) == 1 and len(k.shape) == 1:
            pass
        ks = self.expandkey(a, k)
        arrs = [x for x in ks if isinstance(x, (Arr, ListV)) and not (isinstance(x, Arr) and self.aslin(x) is not None
                                                                      and len(x.shape) == 0)]
        shape = []
        sel = {}
        mp = {}
        ax = 0
        pos = []
        gather = []
        for x in ks:
            if x is None:
                shape.append(ONE)
                continue
            s = a.shape[ax]
            asel = a.sel.get(ax - len(a.shape))
            if isinstance(x, slice):
                st, step, n = self.slicebounds(x, s)
                if asel is not None:
                    if not (x.start is None and x.stop is None and x.step is None):
                        raise GiveUp('slice of a selection')
                    sel[len(shape)] = asel
                mp[T._IXS[ax]] = (st, step, len(shape))
                shape.append(n)
            elif isinstance(x, (ListV,)):
                x = self.np.asarray(self, x)
                gather.append((ax, len(shape), x))
                if x.bool:
                    sel[len(shape)] = self.lamof(x)
                    mp[T._IXS[ax]] = (ZERO, ONE, len(shape))
                    shape.append(s)
                else:
                    mp[T._IXS[ax]] = ('g', x, len(shape))
                    shape.append(x.shape[0])
            elif isinstance(x, Arr) and x.bool:
                if len(x.shape) != 1 or x.flat:
                    raise GiveUp('mask of rank > 1')
                r = self.same(x.shape[0], s)
                if r is False:
                    raise PyRaise('IndexError', 'boolean index did not match')
                sel[len(shape)] = self.lamof(x)
                mp[T._IXS[ax]] = (ZERO, ONE, len(shape))
                shape.append(s)
            elif isinstance(x, Arr) and len(x.shape) == 1 and not (x.shape[0].const == 1 and False):
                if x.sel or len(arrs) > 1:
                    raise GiveUp('fancy index')
                mp[T._IXS[ax]] = ('g', x, len(shape))
                shape.append(x.shape[0])
            else:
                i = self.aslin(x)
                if i is None:
                    if isinstance(x, Unk):
                        raise GiveUp('unknown index')
                    if isinstance(x, (str, Obj)) or isinstance(x, tuple):
                        raise GiveUp('index %r' % (x,))
                    raise GiveUp('index %r' % (x,))
                if isinstance(i.const, Fraction):
                    raise PyRaise('IndexError', 'only integers are valid indices')
                if asel is not None:
                    raise GiveUp('index into a selection')
                mp[T._IXS[ax]] = (self.normidx(i, s), None, None)
            ax += 1
        fancy = any(v[0] == 'g' for v in mp.values() if isinstance(v[0], str))
        idx = []
        full = {}
        for j in range(len(a.shape)):
            v = mp[T._IXS[j]]
            if isinstance(v[0], str):
                e = self.relem(v[1])
                e = subst(e, {T._IXS[0]: ix(v[2])})
                full[T._IXS[j]] = self.normidx_arr(e, a.shape[j], v)
            elif v[1] is None:
                full[T._IXS[j]] = v[0]
            else:
                full[T._IXS[j]] = add(v[0], mul(v[1], ix(v[2])))
        n = len(shape)
        rsel = {k2 - n: l for k2, l in sel.items()}
        if 'all' in a.sel:
            raise GiveUp('index of a selection')
        if fancy:
            e = subst_any(self.read(a), full)
            return self.newarr(shape, e, None, False, rsel)
        base = a.idx if a.idx is not None else tuple(ix(j) for j in range(len(a.shape)))
        nidx = tuple(subst(p, full) for p in base)
        if n == 0:
            return self._scalar(subst_any(self.h[a.cid].elem, {T._IXS[j]: p for j, p in enumerate(nidx)}))
        ident = len(nidx) == n and all(p is ix(j) for j, p in enumerate(nidx)) and \
            all(x is y for x, y in zip(shape, self.h[a.cid].shape))
        return Arr(a.cid, shape, None if ident else nidx, False, rsel, a.bool)

    def normidx_arr(self, e, size, v):
        c = self.ctx.with_range(ix(v[2]), ZERO, sub(v[1].shape[0], ONE))
        if c.prove(e):
            return e
        if c.prove(sub(neg(e), ONE)):
            return add(size, e)
        return ite(c_ge(e), e, add(size, e))

    def _scalar(self, e):
        if isinstance(e, Cond):
            return self.tobool(e)
        if e.fv:
            e = self.simp(e, ())
        return e

    def select(self, a, w):
        c = w.arr
        if a.flat and c.flat or (not a.flat and not c.flat and len(a.shape) == len(c.shape)):
            sh, (e, ce), fl, sel = self.broadcast([a, c])
            if 'all' in sel or sel:
                raise GiveUp('selection of a selection')
            ce = ce if isinstance(ce, Cond) else c_not(c_eq(ce))
            return self.newarr(sh, e, None, fl, {'all': lam(sh, ce)})
        if not a.flat and not c.flat and len(c.shape) < len(a.shape) and len(c.shape) == 1:
            return self.view(a, (Arr(c.cid, c.shape, c.idx, c.flat, c.sel, True),))
        raise GiveUp('selection')

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, Unk):
            return
        if isinstance(o, DictV):
            d = dict(self.h[o.id])
            d[self.key(k)] = v
            self.setc(o.id, d)
            return
        if isinstance(o, ListV):
            l = list(self.h[o.id])
            if isinstance(k, slice):
                raise GiveUp('slice assignment to list')
            try:
                l[self.constint(k)] = v
            except IndexError:
                raise PyRaise('IndexError', 'list assignment index out of range')
            self.setc(o.id, tuple(l))
            return
        if isinstance(o, Obj):
            m = self.class_lookup(o.cls, '__setitem__')
            if m is not None:
                self.call(self.bind(m, o), [k, v], {})
                return
            return self.np.xr_setitem(self, o, k, v)
        if isinstance(o, Choice):
            raise GiveUp('store into a choice')
        if not isinstance(o, Arr):
            raise PyRaise('TypeError', 'object does not support item assignment')
        if isinstance(k, Unk) or isinstance(v, Unk):
            raise GiveUp((k if isinstance(k, Unk) else v).why)
        v = self.plain(v)
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], WhereIdx):
            k = k[0]
        if isinstance(k, Arr) and k.bool and len(k.shape) > 1:
            k = WhereIdx(k)
        if isinstance(k, WhereIdx):
            c = k.arr
            if o.flat or c.flat:
                raise GiveUp('masked store into flat array')
            if len(c.shape) == 1 and len(o.shape) > 1:
                k = Arr(c.cid, c.shape, c.idx, False, {}, True)
            else:
                mask = [self.read(c)]
                for i, (x, y) in enumerate(zip(c.shape, o.shape)):
                    if x is not y:
                        mask.append(c_ge(sub(sub(x, ONE), ix(i))))
                m = c_and(*mask)
                if isinstance(v, Arr):
                    if set(v.sel) != {'all'} and not all(s.const == 1 for s in v.shape):
                        raise GiveUp('masked store of array')
                    e = self.read(v)
                else:
                    e = T.c_const(v) if isinstance(v, bool) else v
                self.write(o, e, m)
                return
        if o.flat:
            raise GiveUp('store into flattened array')
        w = self.view(o, k)
        if not isinstance(w, Arr):
            # a single element
            ks = self.expandkey(o, k)
            idx = [self.normidx(self.aslin(x), s) for x, s in zip([q for q in ks if q is not None], o.shape)]
            base = o.idx if o.idx is not None else tuple(ix(j) for j in range(len(o.shape)))
            nidx = tuple(subst(p, {T._IXS[j]: q for j, q in enumerate(idx)}) for p in base)
            if isinstance(v, Arr):
                if not all(s.const == 1 for s in v.shape):
                    if any(self.ctx.prove(sub(s, num(2))) for s in v.shape):
                        raise PyRaise('ValueError', 'setting an array element with a sequence')
                    raise GiveUp('array stored in an element')
                v = subst_any(self.read(v), {T._IXS[i]: ZERO for i in range(len(v.shape))})
            if not isinstance(v, (Poly, Cond, bool)):
                raise GiveUp('store of %r' % (v,))
            self.write(Arr(o.cid, (), nidx), T.c_const(v) if isinstance(v, bool) else v)
            return
        if w.cid != o.cid:
            raise GiveUp('store through fancy index')
        if isinstance(v, Arr):
            v = self.unflat(v)
            n = len(w.shape)
            vs = list(v.shape)
            while len(vs) > n and vs[0].const == 1:
                v = self.view(v, (ZERO,))
                vs = list(v.shape)
            if len(vs) > n:
                raise PyRaise('ValueError', 'could not broadcast input array')
            off = n - len(vs)
            mp = {}
            for j, s in enumerate(vs):
                ws = w.shape[off + j]
                if s.const == 1 and ws.const != 1:
                    mp[T._IXS[j]] = ZERO
                    continue
                r = self.same(s, ws)
                if r is False:
                    vk, wk = v.sel.get(j - len(vs)), w.sel.get(j - len(vs))
                    raise PyRaise('ValueError', 'could not broadcast input array from shape %s into %s' % (
                        list(vs), list(w.shape)))
                if r is None:
                    self.note('assumed equal sizes in store: %s = %s' % (s, ws))
                mp[T._IXS[j]] = ix(off + j)
            for kk in set(v.sel) | set(w.sel):
                if v.sel.get(kk) is not w.sel.get(kk):
                    if kk != 'all' and -kk <= len(vs) and vs[kk].const == 1 and kk not in v.sel:
                        continue
                    if kk != 'all' and kk not in v.sel and -kk > len(vs):
                        continue
                    raise GiveUp('selection store')
            e = self.read(v)
            mp = {p: q for p, q in mp.items() if of(p) is not q}
            e = subst_any(e, mp) if mp else e
        elif isinstance(v, (Poly, Cond, bool)):
            e = T.c_const(v) if isinstance(v, bool) else v
        else:
            if v is None:
                raise PyRaise('TypeError', 'float() argument must not be NoneType')
            raise GiveUp('store of %r' % (v,))
        mask = TRUE
        for kk, l in w.sel.items():
            mask = c_and(mask, T.apply_lam(l, [ix(len(w.shape) + kk)]))
        self.write(w, e, mask)


def of(a):
    return T.of_atom(a)
