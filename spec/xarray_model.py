"""The part of xarray's semantics the package builds on, written as source which
the abstract interpreter reads in place of the library.  Never executed.

find(values, v)      position of the value v in the coordinate values
locate(old, new)     1-d array: position in old of every value of new
same(a, b)           whether two arrays are the same: True, False (or undecided: gives up)
missing(kind, name)  an attribute of the real class which is not modelled here
unmodelled(why)      gives up
seconds()            the time unit of one second
is_time(a)           whether the values are points in time or time differences

A variable is a tuple (dims, array, attrs)."""
import numpy as np
from hnbuiltins import find, locate, same, missing, unmodelled, seconds, is_time, hashable, record


def as_variable(name, v, dims=None):
    if isinstance(v, DataArray):
        return (v._dims, v.__data__, dict(v._attrs))
    if isinstance(v, tuple):
        d = v[0]
        if isinstance(d, str):
            d = (d,)
        arr = v[1].__data__ if isinstance(v[1], DataArray) else np.asarray(v[1])
        att = dict(v[2]) if len(v) > 2 and v[2] is not None else {}
        d = tuple(d)
        if len(d) != arr.ndim:
            raise ValueError('dimensions and shape of %s do not match' % name)
        return (d, arr, att)
    arr = np.asarray(v)
    if arr.ndim == 0:
        return ((), arr, {})
    if arr.ndim == 1:
        return ((name,), arr, {})
    raise ValueError('dimensions of %s are missing' % name)


def vsize(v, dim):
    return v[1].shape[v[0].index(dim)]


def drop_axis(t, axis):
    return tuple(t[:axis]) + tuple(t[axis + 1:])


def take(v, dim, k):
    """select along a dimension of a variable"""
    if dim not in v[0]:
        return v
    axis = v[0].index(dim)
    key = tuple([slice(None)] * axis + [k])
    if isinstance(k, slice):
        return (v[0], v[1][key], v[2])
    karr = np.asarray(k)
    if karr.ndim == 0:
        return (drop_axis(v[0], axis), v[1][key], v[2])
    return (v[0], np.take(v[1], karr, axis=axis), v[2])


def take_all(d, dim, k):
    return {n: take(v, dim, k) for n, v in d.items()}


def position(coords, sizes, dim, label):
    """position(s) of label(s) along a dimension"""
    if dim not in sizes:
        if dim in coords:
            raise KeyError('no index found for coordinate %s' % dim)
        raise KeyError('%s is not a valid dimension or coordinate' % dim)
    if isinstance(label, slice):
        if label.start is None and label.stop is None:
            return label
        unmodelled('selection by a range of labels')
    if isinstance(label, DataArray):
        label = label.__data__
    label = np.asarray(label)
    if dim not in coords:
        return label
    if label.ndim == 0:
        return find(coords[dim][1], label)
    return locate(coords[dim][1], label)


def indexers_of(indexers, kw):
    r = {}
    if indexers is not None:
        r.update(dict(indexers))
    r.update(kw)
    return r


def fits(v, dims):
    for d in v[0]:
        if d not in dims:
            return False
    return True


def align_exact(a, b):
    """whether the dimension coordinates which two mappings of coordinates share are the same"""
    for n, v in a.items():
        if n in v[0] and n in b:
            if not same(v[1], b[n][1]):
                return False
    return True


def join_coords(a, b, drop):
    """coordinates of both; conflicting ones are dropped or refused"""
    r = dict(a)
    for n, v in b.items():
        if n not in r:
            r[n] = v
        elif r[n][0] != v[0] or not same(r[n][1], v[1]):
            if not drop:
                raise MergeError('conflicting values for variable %s' % n)
            del r[n]
    return r


def spread(v, dims):
    """the array of a variable broadcast to dims (missing ones get length one)"""
    order = [d for d in dims if d in v[0]]
    arr = v[1]
    if tuple(order) != tuple(v[0]):
        arr = np.transpose(arr, [v[0].index(d) for d in order])
    key = tuple([slice(None) if d in v[0] else None for d in dims])
    return arr[key] if len(order) != len(dims) else arr


class MergeError(ValueError):
    pass


class AlignmentError(ValueError):
    pass


class Coordinates:
    def __init__(self, owner):
        self._owner = owner

    def __contains__(self, name):
        return name in self._owner._coords

    def __getitem__(self, name):
        o = self._owner
        if name in o._coords or name in o.sizes:
            return o._getcoord(name)
        raise KeyError(name)

    def __setitem__(self, name, v):
        self._owner._setcoord(name, v)

    def keys(self):
        return self._owner._coords.keys()

    def __iter__(self):
        return iter(list(self._owner._coords.keys()))

    def __len__(self):
        return len(self._owner._coords)

    def items(self):
        return [(n, self._owner._getcoord(n)) for n in self._owner._coords]

    def values(self):
        return [self._owner._getcoord(n) for n in self._owner._coords]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def _variables(self):
        return dict(self._owner._coords)

    def to_dataset(self):
        return make_dataset({}, dict(self._owner._coords), {})

    @property
    def dims(self):
        return self._owner.dims

    @property
    def sizes(self):
        return self._owner.sizes

    def __getattr__(self, name):
        return missing('Coordinates', name)


def coords_mapping(coords, dims):
    """coordinate variables out of the coords argument"""
    r = {}
    if coords is None:
        return r
    if isinstance(coords, Coordinates):
        return coords._variables()
    if isinstance(coords, (DataArray, Dataset)):
        return dict(coords._coords)
    if hasattr(coords, 'items'):
        for n, v in coords.items():
            if isinstance(v, DataArray):
                if n in v._dims and len(v._dims) > 1:
                    raise MergeError('coordinate %s shares its name with one of several dimensions' % n)
                r[n] = (v._dims, v.__data__, dict(v._attrs))
            elif isinstance(v, tuple):
                r[n] = as_variable(n, v)
            else:
                arr = np.asarray(v)
                if arr.ndim == 0:
                    r[n] = ((), arr, {})
                elif arr.ndim == 1 and n in dims:
                    r[n] = ((n,), arr, {})
                else:
                    raise ValueError('dimensions of coordinate %s are missing' % n)
        return r
    items = list(coords)
    if len(items) != len(dims):
        raise ValueError('wrong number of coordinates')
    for d, v in zip(dims, items):
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
            r[d] = ((d,), np.asarray(v[1]), {})
        elif isinstance(v, DataArray):
            r[d] = ((d,), v.__data__, dict(v._attrs))
        else:
            r[d] = ((d,), np.asarray(v), {})
    return r


def make(dims, data, coords, name, attrs):
    o = DataArray.__new__(DataArray)
    o._dims = tuple(dims)
    o.__data__ = data
    o._coords = coords
    o.name = name
    o._attrs = attrs
    return o


class DataArray:
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, indexes=None, fastpath=False):
        if data is None:
            unmodelled('DataArray without data')
        if isinstance(data, DataArray):
            if coords is None:
                coords = data.coords
            if dims is None:
                dims = data._dims
            if name is None:
                name = data.name
            if attrs is None:
                attrs = data._attrs
            data = data.__data__
        arr = np.asarray(data)
        if dims is None:
            if isinstance(coords, (list, tuple)):
                dims = [c[0] if isinstance(c, tuple) else 'dim_%d' % i for i, c in enumerate(coords)]
            elif coords is None or len(coords) == 0 or arr.ndim == 0:
                dims = ['dim_%d' % i for i in range(arr.ndim)]
            else:
                raise ValueError('inferring dimensions from coords is not supported')
        if isinstance(dims, str):
            dims = (dims,)
        dims = tuple(dims)
        if len(dims) != arr.ndim:
            raise ValueError('different number of dimensions on data and dims')
        cs = coords_mapping(coords, dims)
        sizes = dict(zip(dims, arr.shape))
        for n, v in cs.items():
            for i, d in enumerate(v[0]):
                if d not in sizes:
                    raise ValueError('coordinate %s has a dimension the data has not' % n)
                if v[1].shape[i] != sizes[d]:
                    raise ValueError('conflicting sizes for dimension %s' % d)
            if n in sizes and v[0] != (n,):
                raise ValueError('coordinate %s must be one-dimensional along itself' % n)
        self._dims = dims
        self.__data__ = arr
        self._coords = cs
        self.name = name
        self._attrs = dict(attrs) if attrs is not None else {}

    @property
    def dims(self):
        return self._dims

    @property
    def shape(self):
        return self.__data__.shape

    @property
    def ndim(self):
        return self.__data__.ndim

    @property
    def size(self):
        return self.__data__.size

    @property
    def dtype(self):
        return self.__data__.dtype

    @property
    def sizes(self):
        return dict(zip(self._dims, self.__data__.shape))

    @property
    def data(self):
        return self.__data__

    @property
    def values(self):
        return self.__data__

    @property
    def attrs(self):
        return self._attrs

    @attrs.setter
    def attrs(self, v):
        self._attrs = dict(v)

    @property
    def coords(self):
        return Coordinates(self)

    @property
    def T(self):
        return self.transpose()

    def to_numpy(self):
        return self.__data__

    def item(self, *args):
        return self.__data__.item(*args)

    def _variable(self):
        return (self._dims, self.__data__, dict(self._attrs))

    def _getcoord(self, name):
        v = self._coords[name] if name in self._coords else ((name,), np.arange(self.sizes[name]), {})
        return make(v[0], v[1], {n: c for n, c in self._coords.items() if fits(c, v[0])}, name, dict(v[2]))

    def _setcoord(self, name, v):
        v = as_variable(name, v)
        if not fits(v, self._dims):
            raise ValueError('cannot add coordinate %s with new dimensions' % name)
        cs = dict(self._coords)
        cs[name] = v
        self._coords = cs

    def __len__(self):
        return len(self.__data__)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __bool__(self):
        return bool(self.__data__)

    def __float__(self):
        return float(self.__data__)

    def __int__(self):
        return int(self.__data__)

    def __contains__(self, v):
        return v in self.__data__

    def __getattr__(self, name):
        if name in self._coords or name in self._dims:
            return self._getcoord(name)
        if name in self._attrs:
            return self._attrs[name]
        return missing('DataArray', name)

    def __getitem__(self, key):
        if isinstance(key, str):
            if key in self._coords or key in self._dims:
                return self._getcoord(key)
            raise KeyError(key)
        if hasattr(key, 'keys'):
            return self.isel(key)
        if not isinstance(key, tuple):
            key = (key,)
        if Ellipsis in [k if k is Ellipsis else None for k in key]:
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (len(self._dims) - len(key) + 1) + key[i + 1:]
        if len(key) > len(self._dims):
            raise IndexError('too many indices')
        return self.isel(dict(zip(self._dims, key)))

    def __setitem__(self, key, value):
        if isinstance(key, str):
            self._setcoord(key, value)
            return
        if hasattr(key, 'keys'):
            key = tuple([key[d] if d in key else slice(None) for d in self._dims])
        self.__data__[key] = value.__data__ if isinstance(value, DataArray) else value

    def isel(self, indexers=None, drop=False, missing_dims='raise', **kw):
        v = self._variable()
        cs = dict(self._coords)
        for dim, k in indexers_of(indexers, kw).items():
            if dim not in self._dims:
                if missing_dims == 'raise':
                    raise ValueError('dimension %s does not exist' % dim)
                continue
            if isinstance(k, DataArray):
                if k.ndim > 1 or (k.ndim == 1 and k._dims != (dim,)):
                    unmodelled('selection by an array with other dimensions')
                k = k.__data__
            v = take(v, dim, k)
            cs = take_all(cs, dim, k)
            if drop and dim in cs and dim not in cs[dim][0]:
                del cs[dim]
        return make(v[0], v[1], cs, self.name, v[2])

    def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
        if method is not None:
            unmodelled('selection of the nearest value')
        r = {}
        for dim, k in indexers_of(indexers, kw).items():
            r[dim] = position(self._coords, self.sizes, dim, k)
        return self.isel(r, drop=drop)

    def rename(self, new_name_or_name_dict=None, **names):
        if hasattr(new_name_or_name_dict, 'items') or names:
            m = indexers_of(new_name_or_name_dict, names)
            return make(tuple([m.get(d, d) for d in self._dims]), self.__data__,
                        {m.get(n, n): (tuple([m.get(d, d) for d in v[0]]), v[1], v[2])
                         for n, v in self._coords.items()}, self.name, dict(self._attrs))
        return make(self._dims, self.__data__, dict(self._coords), new_name_or_name_dict, dict(self._attrs))

    def copy(self, deep=True, data=None):
        arr = self.__data__ if data is None else np.asarray(data)
        if deep and data is None:
            arr = np.array(arr)
        return make(self._dims, arr, dict(self._coords), self.name, dict(self._attrs))

    def astype(self, dtype, **kw):
        return make(self._dims, self.__data__.astype(dtype), dict(self._coords), self.name, dict(self._attrs))

    def transpose(self, *dims):
        if not dims:
            dims = tuple(reversed(self._dims))
        if Ellipsis in [d if d is Ellipsis else None for d in dims]:
            i = [d is Ellipsis for d in dims].index(True)
            dims = dims[:i] + tuple([d for d in self._dims if d not in dims]) + dims[i + 1:]
        if sorted(dims) != sorted(self._dims):
            raise ValueError('dimensions do not match')
        return make(dims, np.transpose(self.__data__, [self._dims.index(d) for d in dims]), dict(self._coords),
                    self.name, dict(self._attrs))

    def assign_coords(self, coords=None, **kw):
        r = make(self._dims, self.__data__, dict(self._coords), self.name, dict(self._attrs))
        for n, v in indexers_of(coords, kw).items():
            r._setcoord(n, v)
        return r

    def assign_attrs(self, *args, **kw):
        att = dict(self._attrs)
        for a in args:
            att.update(a)
        att.update(kw)
        return make(self._dims, self.__data__, dict(self._coords), self.name, att)

    def drop_vars(self, names, errors='raise'):
        if isinstance(names, str):
            names = [names]
        for n in names:
            if n not in self._coords and errors == 'raise':
                raise ValueError('no such coordinate')
        return make(self._dims, self.__data__, {n: v for n, v in self._coords.items() if n not in names}, self.name,
                    dict(self._attrs))

    def to_dataset(self, dim=None, name=None, promote_attrs=False):
        if dim is not None:
            unmodelled('to_dataset along a dimension')
        n = name if name is not None else self.name
        if n is None:
            raise ValueError('unable to convert unnamed DataArray')
        return make_dataset({n: self._variable()}, dict(self._coords), {})

    def equals(self, other):
        if not isinstance(other, DataArray) or self._dims != other._dims:
            return False
        if sorted(self._coords) != sorted(other._coords):
            return False
        for n in self._coords:
            if not same(self._coords[n][1], other._coords[n][1]):
                return False
        return same(self.__data__, other.__data__)

    def _reduce(self, f, dim, kw):
        if dim is None or dim is Ellipsis:
            return make((), f(self.__data__), {n: v for n, v in self._coords.items() if not v[0]}, self.name,
                        dict(self._attrs))
        dims = [dim] if isinstance(dim, str) else list(dim)
        arr = self.__data__
        for d in dims:
            if d not in self._dims:
                raise ValueError('dimension %s does not exist' % d)
        left = self._dims
        for d in dims:
            arr = f(arr, axis=left.index(d))
            left = tuple([x for x in left if x != d])
        return make(left, arr, {n: v for n, v in self._coords.items() if fits(v, left)}, self.name,
                    dict(self._attrs))

    def sum(self, dim=None, **kw):
        return self._reduce(np.sum, dim, kw)

    def mean(self, dim=None, **kw):
        return self._reduce(np.mean, dim, kw)

    def max(self, dim=None, **kw):
        return self._reduce(np.max, dim, kw)

    def min(self, dim=None, **kw):
        return self._reduce(np.min, dim, kw)

    def all(self, dim=None, **kw):
        return self._reduce(np.all, dim, kw)

    def any(self, dim=None, **kw):
        return self._reduce(np.any, dim, kw)

    def diff(self, dim, n=1, label='upper'):
        if n != 1:
            unmodelled('higher differences')
        a = self.isel({dim: slice(1, None)})
        b = self.isel({dim: slice(None, -1)})
        c = a if label == 'upper' else b
        return make(self._dims, a.__data__ - b.__data__, c._coords, self.name, dict(self._attrs))

    def integrate(self, coord=None, datetime_unit=None):
        coords = [coord] if isinstance(coord, str) else list(coord)
        v = self._variable()
        cs = dict(self._coords)
        for c in coords:
            if c not in cs and c not in v[0]:
                raise ValueError('coordinate %s does not exist' % c)
            x = self._getcoord(c)
            if x.ndim != 1:
                raise ValueError('coordinate %s must be one-dimensional' % c)
            dim = x._dims[0]
            v = (drop_axis(v[0], v[0].index(dim)),
                 trapezoid(v[1], in_unit(x.__data__, datetime_unit), v[0].index(dim)), v[2])
            cs = {n: w for n, w in cs.items() if dim not in w[0]}
        return make(v[0], v[1], cs, self.name, v[2])

    def reindex(self, indexers=None, method=None, tolerance=None, copy=True, fill_value=None, **kw):
        if method is not None:
            unmodelled('reindex with a method')
        v = self._variable()
        cs = dict(self._coords)
        for dim, target in indexers_of(indexers, kw).items():
            v, cs = reindex_along(v, cs, dim, target)
        return make(v[0], v[1], cs, self.name, v[2])

    # elementwise operations
    def _map(self, f):
        return make(self._dims, f(self.__data__), dict(self._coords), self.name, dict(self._attrs))

    def _combine(self, f, other, swap=False):
        if not isinstance(other, DataArray):
            if isinstance(other, Dataset):
                unmodelled('operation with a dataset')
            o = np.asarray(other)
            if o.ndim == 0:
                return self._map(lambda x: f(o, x) if swap else f(x, o))
            if o.shape != self.__data__.shape:
                unmodelled('operation with an array of another shape')
            return self._map(lambda x: f(o, x) if swap else f(x, o))
        a, b = (other, self) if swap else (self, other)
        if not align_exact(a._coords, b._coords):
            unmodelled('operation on arrays with different indexes')
        dims = a._dims + tuple([d for d in b._dims if d not in a._dims])
        for d in dims:
            if d in a._dims and d in b._dims and a.sizes[d] != b.sizes[d]:
                raise ValueError('sizes of dimension %s differ' % d)
        arr = f(spread(a._variable(), dims), spread(b._variable(), dims))
        name = a.name if a.name == b.name else None
        return make(dims, arr, join_coords(a._coords, b._coords, True), name, dict(a._attrs))

    def __neg__(self):
        return self._map(lambda x: -x)

    def __pos__(self):
        return self._map(lambda x: x)

    def __invert__(self):
        return self._map(lambda x: ~x)

    def __abs__(self):
        return self._map(lambda x: abs(x))

    def __add__(self, o):
        return self._combine(lambda x, y: x + y, o)

    def __radd__(self, o):
        return self._combine(lambda x, y: x + y, o, True)

    def __sub__(self, o):
        return self._combine(lambda x, y: x - y, o)

    def __rsub__(self, o):
        return self._combine(lambda x, y: x - y, o, True)

    def __mul__(self, o):
        return self._combine(lambda x, y: x * y, o)

    def __rmul__(self, o):
        return self._combine(lambda x, y: x * y, o, True)

    def __truediv__(self, o):
        return self._combine(lambda x, y: x / y, o)

    def __rtruediv__(self, o):
        return self._combine(lambda x, y: x / y, o, True)

    def __pow__(self, o):
        return self._combine(lambda x, y: x ** y, o)

    def __rpow__(self, o):
        return self._combine(lambda x, y: x ** y, o, True)

    def __and__(self, o):
        return self._combine(lambda x, y: x & y, o)

    def __or__(self, o):
        return self._combine(lambda x, y: x | y, o)

    def __lt__(self, o):
        return self._combine(lambda x, y: x < y, o)

    def __le__(self, o):
        return self._combine(lambda x, y: x <= y, o)

    def __gt__(self, o):
        return self._combine(lambda x, y: x > y, o)

    def __ge__(self, o):
        return self._combine(lambda x, y: x >= y, o)

    def __eq__(self, o):
        return self._combine(lambda x, y: x == y, o)

    def __ne__(self, o):
        return self._combine(lambda x, y: x != y, o)


def in_unit(x, datetime_unit):
    if not is_time(x):
        return x
    if datetime_unit is None:
        unmodelled('integration in the resolution of the time coordinate')
    return x / (np.timedelta64(1, datetime_unit))


def trapezoid(y, x, axis):
    before = (slice(None),) * axis
    after = (None,) * (y.ndim - axis - 1)
    dx = (x[1:] - x[:-1])[(slice(None),) + after]
    return np.sum(dx * 0.5 * (y[before + (slice(1, None),)] + y[before + (slice(None, -1),)]), axis=axis)


def reindex_along(v, cs, dim, target):
    att = dict(cs[dim][2]) if dim in cs else {}
    if isinstance(target, DataArray):
        att = dict(target._attrs)
        target = target.__data__
    target = np.asarray(target)
    if dim not in cs:
        unmodelled('reindex along a dimension without coordinates')
    if same(cs[dim][1], target):
        return v, cs
    k = locate(cs[dim][1], target)
    r = {n: take(w, dim, k) for n, w in cs.items() if n != dim}
    r[dim] = ((dim,), target, att)
    return take(v, dim, k), r


def make_dataset(data, coords, attrs):
    o = Dataset.__new__(Dataset)
    o._data = data
    o._coords = coords
    o._attrs = attrs
    return o


class DataVars:
    def __init__(self, owner):
        self._owner = owner

    def __contains__(self, name):
        return name in self._owner._data

    def __getitem__(self, name):
        if name not in self._owner._data:
            raise KeyError(name)
        return self._owner[name]

    def keys(self):
        return self._owner._data.keys()

    def __iter__(self):
        return iter(list(self._owner._data.keys()))

    def __len__(self):
        return len(self._owner._data)

    def items(self):
        return [(n, self._owner[n]) for n in self._owner._data]

    def values(self):
        return [self._owner[n] for n in self._owner._data]

    def __getattr__(self, name):
        return missing('DataVars', name)


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self._data = {}
        self._coords = {}
        self._attrs = dict(attrs) if attrs is not None else {}
        items = []
        if data_vars is not None:
            items = [(n, v) for n, v in data_vars.items()]
        known = {}
        if coords is not None:
            names = list(coords.keys()) if hasattr(coords, 'keys') else []
            known = coords_mapping(coords, names)
        cs = dict(known)
        data = {}
        for n, v in items:
            if n in known:
                raise ValueError('variable %s is both a coordinate and a data variable' % n)
            w = as_variable(n, v)
            if isinstance(v, DataArray):
                own = {m: c for m, c in v._coords.items() if m != n}
                if not align_exact(cs, own):
                    unmodelled('variables with different indexes')
                cs = join_coords(cs, own, False)
            if n in w[0]:
                if w[0] != (n,):
                    raise MergeError('variable %s shares its name with one of several dimensions' % n)
                cs[n] = w
            else:
                data[n] = w
        self._data = data
        self._coords = cs
        self._check()

    def _check(self):
        s = {}
        for n, v in list(self._data.items()) + list(self._coords.items()):
            for d, k in zip(v[0], v[1].shape):
                if d in s:
                    if s[d] != k:
                        raise ValueError('conflicting sizes for dimension %s' % d)
                else:
                    s[d] = k

    @property
    def sizes(self):
        s = {}
        for n, v in list(self._data.items()) + list(self._coords.items()):
            for d, k in zip(v[0], v[1].shape):
                if d not in s:
                    s[d] = k
        return s

    @property
    def dims(self):
        return self.sizes

    @property
    def attrs(self):
        return self._attrs

    @attrs.setter
    def attrs(self, v):
        self._attrs = dict(v)

    @property
    def coords(self):
        return Coordinates(self)

    @property
    def data_vars(self):
        return DataVars(self)

    @property
    def variables(self):
        return {n: self[n] for n in list(self._data) + list(self._coords)}

    def __contains__(self, name):
        return name in self._data or name in self._coords

    def __iter__(self):
        return iter(list(self._data.keys()))

    def __len__(self):
        return len(self._data)

    def __bool__(self):
        return len(self._data) > 0

    def keys(self):
        return self._data.keys()

    def items(self):
        return [(n, self[n]) for n in self._data]

    def values(self):
        return [self[n] for n in self._data]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def _getcoord(self, name):
        return self[name]

    def _setcoord(self, name, v):
        if isinstance(v, DataArray) and not align_exact(
                {n: c for n, c in v._coords.items() if n != name},
                {n: c for n, c in self._coords.items() if n != name}):
            unmodelled('coordinate with a different index')
        cs = dict(self._coords)
        cs[name] = as_variable(name, v)
        if name in self._data:
            d = dict(self._data)
            del d[name]
            self._data = d
        self._coords = cs
        self._check()

    def __getitem__(self, name):
        if isinstance(name, list):
            data = {}
            cs = {}
            for n in name:
                if n in self._data:
                    data[n] = self._data[n]
                elif n in self._coords:
                    cs[n] = self._coords[n]
                else:
                    raise KeyError(n)
            dims = []
            for v in list(data.values()) + list(cs.values()):
                dims.extend(list(v[0]))
            for n, v in self._coords.items():
                if fits(v, dims):
                    cs[n] = v
            return make_dataset(data, cs, dict(self._attrs))
        if hasattr(name, 'keys'):
            return self.isel(name)
        if not hashable(name):
            raise TypeError('unhashable')
        if name in self._data:
            v = self._data[name]
        elif name in self._coords:
            v = self._coords[name]
        elif name in self.sizes:
            v = ((name,), np.arange(self.sizes[name]), {})
        else:
            raise KeyError(name)
        return make(v[0], v[1], {n: c for n, c in self._coords.items() if fits(c, v[0])}, name, dict(v[2]))

    def __setitem__(self, name, value):
        w = as_variable(name, value)
        cs = dict(self._coords)
        if isinstance(value, DataArray):
            own = {}
            for n, c in value._coords.items():
                if n == name or (n in cs and n not in c[0]):
                    continue
                own[n] = c
            if not align_exact(cs, own):
                unmodelled('variable with a different index')
            for n, c in own.items():
                if n not in cs:
                    cs[n] = c
        data = dict(self._data)
        if w[0] == (name,) or name in cs:
            cs[name] = w
        elif name in w[0]:
            raise MergeError('variable %s shares its name with one of several dimensions' % name)
        else:
            data[name] = w
        self._data = data
        self._coords = cs
        self._check()

    def __delitem__(self, name):
        if name in self._data:
            d = dict(self._data)
            del d[name]
            self._data = d
        elif name in self._coords:
            d = dict(self._coords)
            del d[name]
            self._coords = d
        else:
            raise KeyError(name)

    def update(self, other):
        for n, v in other.items():
            self[n] = v
        return self

    def __getattr__(self, name):
        if name in self._data or name in self._coords or name in self.sizes:
            return self[name]
        if name in self._attrs:
            return self._attrs[name]
        return missing('Dataset', name)

    def to_netcdf(self, *args, **kw):
        record('to_netcdf', self, args, kw)

    def close(self):
        record('close', self, (), {})

    def load(self):
        return self

    def compute(self):
        return self

    def copy(self, deep=False, data=None):
        d = dict(self._data)
        if deep:
            d = {n: (v[0], np.array(v[1]), dict(v[2])) for n, v in d.items()}
        return make_dataset(d, dict(self._coords), dict(self._attrs))

    def isel(self, indexers=None, drop=False, missing_dims='raise', **kw):
        data, cs = dict(self._data), dict(self._coords)
        for dim, k in indexers_of(indexers, kw).items():
            if dim not in self.sizes:
                if missing_dims == 'raise':
                    raise ValueError('dimension %s does not exist' % dim)
                continue
            if isinstance(k, DataArray):
                if k.ndim > 1 or (k.ndim == 1 and k._dims != (dim,)):
                    unmodelled('selection by an array with other dimensions')
                k = k.__data__
            data = take_all(data, dim, k)
            cs = take_all(cs, dim, k)
            if drop and dim in cs and dim not in cs[dim][0]:
                del cs[dim]
        return make_dataset(data, cs, dict(self._attrs))

    def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
        if method is not None:
            unmodelled('selection of the nearest value')
        r = {}
        for dim, k in indexers_of(indexers, kw).items():
            r[dim] = position(self._coords, self.sizes, dim, k)
        return self.isel(r, drop=drop)

    def reindex(self, indexers=None, method=None, tolerance=None, copy=True, fill_value=None, **kw):
        if method is not None:
            unmodelled('reindex with a method')
        data, cs = dict(self._data), dict(self._coords)
        for dim, target in indexers_of(indexers, kw).items():
            if dim not in self.sizes:
                raise ValueError('indexer %s does not match a dimension' % dim)
            new = {}
            for n, v in data.items():
                new[n] = reindex_along(v, cs, dim, target)[0] if dim in v[0] else v
            cs = reindex_along(((), np.asarray(0.), {}), cs, dim, target)[1]
            data = new
        return make_dataset(data, cs, dict(self._attrs))

    def rename(self, name_dict=None, **names):
        m = indexers_of(name_dict, names)
        for n in m:
            if n not in self and n not in self.sizes:
                raise ValueError('cannot rename %s' % n)
        f = lambda d: {m.get(n, n): (tuple([m.get(x, x) for x in v[0]]), v[1], v[2]) for n, v in d.items()}
        return make_dataset(f(self._data), f(self._coords), dict(self._attrs))

    def assign(self, variables=None, **kw):
        r = self.copy()
        for n, v in indexers_of(variables, kw).items():
            r[n] = v
        return r

    def assign_coords(self, coords=None, **kw):
        r = self.copy()
        for n, v in indexers_of(coords, kw).items():
            r._setcoord(n, v)
        return r

    def assign_attrs(self, *args, **kw):
        att = dict(self._attrs)
        for a in args:
            att.update(a)
        att.update(kw)
        return make_dataset(dict(self._data), dict(self._coords), att)

    def drop_vars(self, names, errors='raise'):
        if isinstance(names, str):
            names = [names]
        for n in names:
            if n not in self and errors == 'raise':
                raise ValueError('no such variable')
        return make_dataset({n: v for n, v in self._data.items() if n not in names},
                            {n: v for n, v in self._coords.items() if n not in names}, dict(self._attrs))

    def map(self, func, keep_attrs=None, args=(), **kw):
        r = Dataset({n: func(self[n], *args, **kw) for n in self._data})
        r._attrs = dict(self._attrs)
        return r

    def integrate(self, coord, datetime_unit=None):
        dim = self[coord]._dims[0]
        data = {}
        cs = {n: v for n, v in self._coords.items() if dim not in v[0]}
        for n, v in self._data.items():
            data[n] = self[n].integrate(coord, datetime_unit)._variable() if dim in v[0] else v
        return make_dataset(data, cs, dict(self._attrs))

    def _map(self, f):
        return make_dataset({n: (v[0], f(v[1]), v[2]) for n, v in self._data.items()}, dict(self._coords),
                            dict(self._attrs))

    def __neg__(self):
        return self._map(lambda x: -x)

    def __abs__(self):
        return self._map(lambda x: abs(x))

    def _combine(self, f, other, swap=False):
        if isinstance(other, Dataset):
            r = Dataset({n: (f(other[n], self[n]) if swap else f(self[n], other[n]))
                         for n in self._data if n in other._data})
        else:
            r = Dataset({n: (f(other, self[n]) if swap else f(self[n], other)) for n in self._data})
        r._attrs = dict(self._attrs)
        return r

    def __add__(self, o):
        return self._combine(lambda x, y: x + y, o)

    def __radd__(self, o):
        return self._combine(lambda x, y: x + y, o, True)

    def __sub__(self, o):
        return self._combine(lambda x, y: x - y, o)

    def __rsub__(self, o):
        return self._combine(lambda x, y: x - y, o, True)

    def __mul__(self, o):
        return self._combine(lambda x, y: x * y, o)

    def __rmul__(self, o):
        return self._combine(lambda x, y: x * y, o, True)

    def __truediv__(self, o):
        return self._combine(lambda x, y: x / y, o)


def merge(objects, compat='no_conflicts', join='outer', fill_value=None, combine_attrs='override'):
    data, cs, attrs = {}, {}, {}
    first = True
    for o in objects:
        if isinstance(o, DataArray):
            if o.name is None:
                raise ValueError('unable to convert unnamed DataArray')
            o = o.to_dataset()
        elif not isinstance(o, Dataset):
            o = Dataset(o)
        if first:
            attrs = dict(o._attrs)
            first = False
        sizes = make_dataset(data, cs, {}).sizes
        for d, k in o.sizes.items():
            if d in sizes and d not in cs and d not in o._coords and sizes[d] != k:
                raise AlignmentError('sizes of dimension %s differ' % d)
        for d, v in o._coords.items():
            if d in v[0] and d in cs and (cs[d][1].shape != v[1].shape or not same(cs[d][1], v[1])):
                if join == 'exact':
                    raise AlignmentError('indexes along dimension %s are not equal' % d)
                unmodelled('join of different indexes')
        cs = join_coords(cs, o._coords, compat == 'minimal')
        for n, v in o._data.items():
            if n in data and compat != 'override':
                if data[n][0] != v[0] or not same(data[n][1], v[1]):
                    raise MergeError('conflicting values for variable %s' % n)
            else:
                if n not in data:
                    data[n] = v
    r = make_dataset(data, cs, attrs)
    r._check()
    return r


def concat(objs, dim, data_vars='all', coords='different', compat='equals', positions=None, fill_value=None,
           join='outer', combine_attrs='override', create_index_for_new_dim=True):
    objs = list(objs)
    if not objs:
        raise ValueError('must supply at least one object to concatenate')
    arrays = isinstance(objs[0], DataArray)
    if arrays:
        name = objs[0].name
        objs = [make_dataset({'<this-array>': o._variable()}, dict(o._coords), dict(o._attrs)) for o in objs]
    if not isinstance(dim, str):
        unmodelled('concatenation along an array')
    f = objs[0]
    if dim not in f.sizes:
        unmodelled('concatenation along a new dimension')
    for o in objs[1:]:
        for n, v in o._coords.items():
            if n in v[0] and n != dim and n in f._coords:
                if f._coords[n][1].shape != v[1].shape or not same(f._coords[n][1], v[1]):
                    unmodelled('concatenation of arrays with different indexes')
    for o in objs[1:]:
        if sorted(o._data) != sorted(f._data):
            unmodelled('concatenation of datasets with different variables')
    total = [o.sizes[dim] for o in objs]

    def stack(variables, n, what):
        vs = [x[n] for x in variables]
        if dim in vs[0][0]:
            k = vs[0][0].index(dim)
            out = []
            for v in vs:
                if v[0] != vs[0][0]:
                    unmodelled('concatenation of differently ordered dimensions')
                out.append(v[1])
            return (vs[0][0], np.concatenate(out, axis=k), vs[0][2])
        different = False
        if what != 'minimal':
            for v in vs[1:]:
                if v[0] != vs[0][0] or not same(vs[0][1], v[1]):
                    different = True
        if what == 'all' or (what == 'different' and different) or (isinstance(what, list) and n in what):
            out = []
            for v, k in zip(vs, total):
                shp = (k,) + tuple(v[1].shape)
                out.append(np.broadcast_to(v[1], shp))
            return ((dim,) + vs[0][0], np.concatenate(out, axis=0), vs[0][2])
        if compat != 'override':
            for v in vs[1:]:
                if v[0] != vs[0][0] or not same(vs[0][1], v[1]):
                    raise MergeError('variable %s not equal across datasets' % n)
        return vs[0]

    data = {n: stack([o._data for o in objs], n, data_vars) for n in f._data}
    cs = {}
    for n in f._coords:
        present = [n in o._coords for o in objs]
        if False in present:
            unmodelled('concatenation of datasets with different coordinates')
        cs[n] = stack([o._coords for o in objs], n, coords)
    r = make_dataset(data, cs, dict(f._attrs))
    if arrays:
        v = r._data['<this-array>']
        return make(v[0], v[1], cs, name, v[2])
    return r


def zeros_like(other, dtype=None):
    return make(other._dims, np.zeros(other.__data__.shape), dict(other._coords), other.name, dict(other._attrs))


def ones_like(other, dtype=None):
    return make(other._dims, np.ones(other.__data__.shape), dict(other._coords), other.name, dict(other._attrs))


def full_like(other, fill_value, dtype=None):
    return make(other._dims, np.full(other.__data__.shape, fill_value), dict(other._coords), other.name,
                dict(other._attrs))
