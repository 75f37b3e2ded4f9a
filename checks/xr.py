"""Labelled arrays for the checks of the dataset layer."""
from sa import world, oop, compare as C, terms as T, xrmodel
from sa.pyval import Arr, Unk, Obj
from sa.terms import ref, ix, num, ZERO, ONE, sub, lift


class Xr:
    def __init__(self, I):
        self.I = I
        self.ns = I.h[xrmodel.model(I).nsid]

    def module(self):
        m = self.I.load_module('falwa.xarrayinterface')
        return self.I.h[m.nsid]

    def fn(self, name):
        f = self.module().get(name)
        if f is None:
            raise oop.AnchorLost('falwa.xarrayinterface.%s' % name)
        return f

    def array(self, data, dims, coords=None, name=None, attrs=None):
        I = self.I
        kw = {'dims': tuple(dims), 'name': name, 'attrs': I.newdict(attrs or {})}
        if coords:
            kw['coords'] = I.newdict(dict(coords))
        return I.call(self.ns['DataArray'], [data], kw)

    def dataset(self, variables, attrs=None):
        I = self.I
        return I.call(self.ns['Dataset'], [I.newdict(dict(variables))], {'attrs': I.newdict(attrs or {})})

    def data(self, o):
        return self.I.getattr_(o, 'data')

    def dims(self, o):
        return self.I.getattr_(o, 'dims')

    def has(self, o, name):
        return self.I.contains(name, o)

    def names(self, o):
        """data variables and coordinates"""
        h = self.I.h[o.id]
        return list(self.I.h[h['_data'].id]) if '_data' in h else [], list(self.I.h[h['_coords'].id])

    def side(self, v):
        return oop.snapshot(self.I, v)


def reverse(e, axis, n):
    """the element term with one axis reversed"""
    return T.subst(e, {ix(axis).single(): sub(sub(n, ONE), ix(axis))})


def permuted(e, mp):
    return T.subst(e, {ix(i).single(): v for i, v in mp.items()})


def fix(side, idx):
    """the part of an array at leading indices idx"""
    k = len(idx)
    n = len(side.shape)
    mp = {ix(i).single(): num(v) for i, v in enumerate(idx)}
    mp.update({ix(i).single(): ix(i - k) for i in range(k, n)})
    return C.Side(side.shape[k:], T.subst(side.elem, mp) if not isinstance(side.elem, T.Cond)
                  else T.subst_cond(side.elem, mp))
