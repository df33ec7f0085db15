"""A small stand-in for pandas: DataFrame/Series as used for result tables."""
import builtins as _b
import csv as _csv
import io as _io

import numpy as np

__version__ = "1.5.3"
NA = float("nan")
NaT = None


def _isna1(v):
    return v is None or (isinstance(v, (float, np.floating)) and v != v)


def isna(x):
    if isinstance(x, Series):
        return Series([_isna1(v) for v in x._v], x.index, x.name)
    if isinstance(x, DataFrame):
        return DataFrame(dict((c, [_isna1(v) for v in x._d[c]]) for c in x._cols), index=x._idx)
    if isinstance(x, np.ndarray):
        return np.array([_isna1(v) for v in x.ravel()]).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return np.array([_isna1(v) for v in x])
    return _isna1(x)


isnull = isna


def notna(x):
    r = isna(x)
    if isinstance(r, bool):
        return not r
    if isinstance(r, Series):
        return Series([not v for v in r._v], r.index)
    return ~r


notnull = notna


class Index(list):
    name = None

    @property
    def values(self):
        return np.array(list(self))

    def __eq__(self, o):
        if isinstance(o, (list, tuple, np.ndarray)):
            return np.array([a == b for a, b in zip(self, o)], dtype=bool)
        return np.array([a == o for a in self], dtype=bool)

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def __array__(self, dtype=None, copy=None):
        return np.array(list(self), dtype=dtype)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Index(list.__getitem__(self, k))
        if isinstance(k, (list, np.ndarray)):
            k = np.arange(len(self))[np.asarray(k)]
            return Index(list.__getitem__(self, int(i)) for i in k)
        return list.__getitem__(self, k)

    def difference(self, o):
        return Index(sorted(v for v in set(self) if v not in list(o)))

    def intersection(self, o):
        return Index(v for v in self if v in list(o))

    def isin(self, o):
        o = list(o)
        return np.array([v in o for v in self], dtype=bool)

    def drop(self, o):
        o = o if isinstance(o, (list, tuple, np.ndarray)) else [o]
        return Index(v for v in self if v not in list(o))

    def get_loc(self, v):
        if v not in self:
            raise KeyError(v)
        return self.index(v)

    def sort_values(self):
        return Index(sorted(self))

    def unique(self):
        return Index(dict.fromkeys(self))

    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    def tolist(self):
        return list(self)

    to_list = tolist


class Series(object):
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, dict):
            index = list(data.keys())
            data = list(data.values())
        if data is None:
            data = []
        if not hasattr(data, "__len__") or isinstance(data, str):
            data = [data] * len(index if index is not None else [0])
        if isinstance(data, Series) and index is None:
            index = data.index
        self._v = list(data._v if isinstance(data, Series) else data)
        self.index = Index(index if index is not None else range(len(self._v)))
        self.index.name = getattr(index, "name", None)
        self.name = name

    @property
    def shape(self):
        return (len(self._v),)

    size = property(lambda self: len(self._v))

    def keys(self):
        return self.index

    def isin(self, o):
        o = list(o)
        return Series([v in o for v in self._v], self.index, self.name)

    def sort_values(self, ascending=True):
        ii = sorted(range(len(self._v)), key=lambda i: self._v[i])
        # equal values keep their order either way
        if not ascending:
            ii = sorted(range(len(self._v)), key=lambda i: self._v[i], reverse=True)
        return Series([self._v[i] for i in ii], [self.index[i] for i in ii], self.name)

    def sort_index(self, ascending=True):
        ii = sorted(range(len(self._v)), key=lambda i: self.index[i], reverse=not ascending)
        return Series([self._v[i] for i in ii], [self.index[i] for i in ii], self.name)

    def reset_index(self, drop=False):
        if drop:
            return Series(self._v)
        return DataFrame({self.index.name or "index": list(self.index), self.name or 0: list(self._v)})

    def nunique(self):
        return len(set(self._v))

    def value_counts(self):
        c = {}
        for v in self._v:
            c[v] = c.get(v, 0) + 1
        ks = sorted(c, key=lambda k: -c[k])
        return Series([c[k] for k in ks], ks)

    def abs(self):
        return Series([_b.abs(v) for v in self._v], self.index, self.name)

    def rank(self, ascending=True, method="average"):
        return Series(_rank(self._v, ascending, method), self.index, self.name)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    @property
    def values(self):
        return np.array(self._v)

    to_numpy = lambda self, *a, **k: self.values

    def __array__(self, dtype=None, copy=None):
        return np.array(self._v, dtype=dtype)

    def tolist(self):
        return list(self._v)

    to_list = tolist

    @property
    def iloc(self):
        return _SI(self)

    @property
    def loc(self):
        return _SL(self)

    def __getitem__(self, k):
        if isinstance(k, (list, np.ndarray, Series)) and len(k) and isinstance(list(k)[0], (bool, np.bool_)):
            ii = [i for i, b in enumerate(k) if b]
            return Series([self._v[i] for i in ii], [self.index[i] for i in ii], self.name)
        if isinstance(k, slice):
            return Series(self._v[k], list(self.index)[k], self.name)
        return self._v[self.index.index(k)]

    def __setitem__(self, k, v):
        if k in self.index:
            self._v[self.index.index(k)] = v
        else:
            self.index.append(k)
            self._v.append(v)

    def _num(self):
        v = [v for v in self._v if not _isna1(v)]
        if v and all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in v):
            return np.array(v, dtype=int)
        return np.array(v, dtype=float)

    def mean(self, *a, **k):
        v = self._num()
        return float(v.mean()) if len(v) else float("nan")

    def std(self, ddof=1, **k):
        v = self._num()
        return float(v.std(ddof=ddof)) if len(v) > ddof else float("nan")

    def sum(self):
        return self._num().sum()

    def max(self):
        return self._num().max()

    def min(self):
        return self._num().min()

    def median(self):
        return float(np.median(self._num()))

    def isna(self):
        return isna(self)

    isnull = isna

    def any(self):
        return _b.any(self._v)

    def all(self):
        return _b.all(self._v)

    def unique(self):
        o = []
        for v in self._v:
            if v not in o:
                o.append(v)
        return np.array(o)

    def to_dict(self):
        return dict(zip(self.index, self._v))

    def items(self):
        return zip(self.index, self._v)

    def astype(self, t):
        return Series([t(v) for v in self._v], self.index, self.name)

    def round(self, n=0):
        return Series([v if _isna1(v) else type(v)(np.round(v, n)) for v in self._v], self.index, self.name)

    def copy(self, deep=True):
        return Series(list(self._v), self.index, self.name)

    def apply(self, f):
        return Series([f(v) for v in self._v], self.index, self.name)

    def map(self, f):
        return Series([f.get(v, float("nan")) if isinstance(f, dict) else f(v) for v in self._v], self.index, self.name)

    def dropna(self):
        ii = [i for i, v in enumerate(self._v) if not _isna1(v)]
        return Series([self._v[i] for i in ii], [self.index[i] for i in ii], self.name)

    def head(self, n=5):
        return self[:n]

    def count(self):
        return sum(not _isna1(v) for v in self._v)

    def argmax(self):
        return int(np.argmax(self._num()))

    def idxmax(self):
        return self.index[self.argmax()]

    def idxmin(self):
        return self.index[int(np.argmin(self._num()))]

    def between(self, a, b):
        return Series([a <= v <= b for v in self._v], self.index, self.name)

    def reindex(self, index):
        d = dict(zip(self.index, self._v))
        return Series([d.get(i, float("nan")) for i in index], index, self.name)

    def to_frame(self, name=None):
        return DataFrame({name or self.name or 0: list(self._v)}, index=self.index)

    def __abs__(self):
        return self.abs()

    def __neg__(self):
        return self.apply(lambda v: -v)

    def __radd__(self, o):
        return self._cmp(o, lambda a, b: b + a)

    def __rsub__(self, o):
        return self._cmp(o, lambda a, b: b - a)

    def __rmul__(self, o):
        return self._cmp(o, lambda a, b: b * a)

    def __rtruediv__(self, o):
        return self._cmp(o, lambda a, b: b / a)

    def __floordiv__(self, o):
        return self._cmp(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._cmp(o, lambda a, b: a % b)

    def __pow__(self, o):
        return self._cmp(o, lambda a, b: a ** b)

    def _cmp(self, o, f):
        if isinstance(o, Series) and list(o.index) != list(self.index) and len(set(o.index)) == len(o) and len(set(self.index)) == len(self):
            # operands are matched by their labels
            ix = list(self.index) if set(o.index) == set(self.index) else sorted(set(self.index) | set(o.index))
            a, b = self.reindex(ix), o.reindex(ix)
            return Series([f(x, y) for x, y in zip(a._v, b._v)], ix, self.name)
        ov = list(o) if hasattr(o, "__len__") and not isinstance(o, str) else [o] * len(self)
        return Series([f(a, b) for a, b in zip(self._v, ov)], self.index, self.name)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __and__(self, o):
        return self._cmp(o, lambda a, b: a and b)

    def __or__(self, o):
        return self._cmp(o, lambda a, b: a or b)

    def __invert__(self):
        return Series([not v for v in self._v], self.index, self.name)

    def __add__(self, o):
        return self._cmp(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._cmp(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._cmp(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._cmp(o, lambda a, b: a / b)

    __hash__ = None


class _SI(object):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        return self.s._v[i]

    def __setitem__(self, i, v):
        self.s._v[i] = v


class _SL(object):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        return self.s[i]

    def __setitem__(self, i, v):
        self.s[i] = v


def _rank(vals, ascending=True, method="average"):
    out = []
    for v in vals:
        less = sum((w < v) if ascending else (w > v) for w in vals)
        same = sum(w == v for w in vals)
        out.append({"average": less + (same + 1) / 2.0, "min": less + 1.0, "max": float(less + same),
                    "dense": 1.0 + len(set(w for w in vals if ((w < v) if ascending else (w > v))))}[method])
    return out


class _Groups(object):
    def __init__(self, df, by, pick=None):
        self.df, self.by, self.pick = df, [by] if isinstance(by, str) else list(by), pick
        self.many = not isinstance(by, str)
        self.groups_ = {}
        for i in range(len(df)):
            k = tuple(df._d[c][i] for c in self.by)
            self.groups_.setdefault(k if len(self.by) > 1 else k[0], []).append(i)
        self.keys_ = sorted(self.groups_)

    def __getitem__(self, c):
        return _Groups(self.df, self.by, c)

    def __iter__(self):
        for k in self.keys_:
            g = self.df._take(self.groups_[k])
            yield k, (g if self.pick is None else g[self.pick])

    def __len__(self):
        return len(self.keys_)

    def _series(self, vals):
        ix = Index(self.keys_)
        ix.name = self.by[0] if len(self.by) == 1 else None
        return Series(vals, ix, self.pick)

    def size(self):
        return self._series([len(self.groups_[k]) for k in self.keys_])

    def count(self):
        return self._series([len(self.groups_[k]) for k in self.keys_])

    def nunique(self):
        return self._series([g.nunique() for _, g in self])

    def mean(self):
        return self._series([g.mean() for _, g in self])

    def get_group(self, k):
        g = self.df._take(self.groups_[k])
        return g if self.pick is None else g[self.pick]

    def max(self):
        return self._series([g.max() for _, g in self])

    def min(self):
        return self._series([g.min() for _, g in self])

    def sum(self):
        return self._series([g.sum() for _, g in self])

    def median(self):
        return self._series([g.median() for _, g in self])

    def std(self):
        return self._series([g.std() for _, g in self])

    def apply(self, f):
        return self._series([f(g) for _, g in self])

    def agg(self, f):
        return getattr(self, f)() if isinstance(f, str) else self.apply(f)

    def _spread(self, f):
        out = [None] * len(self.df)
        for k in self.keys_:
            v = list(f(self.df._take(self.groups_[k])[self.pick]))
            for i, x in zip(self.groups_[k], v):
                out[i] = x
        return Series(out, self.df._idx, self.pick)

    def rank(self, ascending=True, method="average"):
        return self._spread(lambda g: g.rank(ascending=ascending, method=method))

    def transform(self, f):
        return self._spread(lambda g: [getattr(g, f)()] * len(g) if isinstance(f, str) else f(g))

    def cumcount(self):
        out = [0] * len(self.df)
        for k in self.keys_:
            for j, i in enumerate(self.groups_[k]):
                out[i] = j
        return Series(out, self.df._idx)


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        self._cols, self._d = [], {}
        if isinstance(data, DataFrame):
            self._cols = list(data._cols)
            self._d = dict((c, list(v)) for c, v in data._d.items())
            self._idx = Index(data._idx)
            return
        if data is None:
            self._idx = Index(index if index is not None else [])
            for c in (columns if columns is not None else []):
                self._cols.append(c)
                self._d[c] = [float("nan")] * len(self._idx)
            return
        if isinstance(data, dict):
            cols = list(columns) if columns is not None else list(data.keys())
            n = None
            for v in data.values():
                if index is None and isinstance(v, Series):
                    index = v.index
                if hasattr(v, "__len__") and not isinstance(v, str):
                    n = len(v)
            if index is None:
                index = range(n if n is not None else 1)
            self._idx = Index(index)
            self._idx.name = getattr(index, "name", None)
            for c in cols:
                v = data.get(c, float("nan"))
                if hasattr(v, "__len__") and not isinstance(v, str):
                    v = list(v)
                else:
                    v = [v] * len(self._idx)
                if len(v) != len(self._idx):
                    raise ValueError("All arrays must be of the same length")
                self._cols.append(c)
                self._d[c] = v
            return
        if isinstance(data, (list, tuple)) and len(data) and isinstance(data[0], (dict, Series)):
            rows = [r.to_dict() if isinstance(r, Series) else r for r in data]
            cols = list(columns) if columns is not None else []
            if columns is None:
                for r in rows:
                    for c in r:
                        if c not in cols:
                            cols.append(c)
            self._idx = Index(index if index is not None else range(len(rows)))
            for c in cols:
                self._cols.append(c)
                self._d[c] = [r.get(c, float("nan")) for r in rows]
            return
        if isinstance(data, (list, tuple, np.ndarray)):
            if isinstance(data, np.ndarray) and data.ndim == 1:
                data = data.reshape(-1, 1)
            rows = [list(r) if hasattr(r, "__len__") and not isinstance(r, str) else [r] for r in data]
            k = len(rows[0]) if rows else (len(columns) if columns is not None else 0)
            cols = list(columns) if columns is not None else list(range(k))
            self._idx = Index(index if index is not None else range(len(rows)))
            for j, c in enumerate(cols):
                self._cols.append(c)
                self._d[c] = [r[j] for r in rows]
            return
        # scalar
        self._idx = Index(index if index is not None else [0])
        for c in columns:
            self._cols.append(c)
            self._d[c] = [data] * len(self._idx)

    # -- shape
    @property
    def columns(self):
        return Index(self._cols)

    @columns.setter
    def columns(self, new):
        new = list(new)
        self._d = dict((n, self._d[o]) for n, o in zip(new, self._cols))
        self._cols = new

    @property
    def index(self):
        return self._idx

    @index.setter
    def index(self, v):
        self._idx = Index(v)

    @property
    def shape(self):
        return (len(self._idx), len(self._cols))

    @property
    def ndim(self):
        return 2

    @property
    def size(self):
        return len(self._idx) * len(self._cols)

    @property
    def empty(self):
        return self.size == 0

    @property
    def values(self):
        return np.array([[self._d[c][i] for c in self._cols] for i in range(len(self._idx))])

    def to_numpy(self, *a, **k):
        return self.values

    def __len__(self):
        return len(self._idx)

    def __iter__(self):
        return iter(self._cols)

    def __contains__(self, c):
        return c in self._cols

    def keys(self):
        return Index(self._cols)

    def copy(self, deep=True):
        return DataFrame(self)

    # -- access
    def __getitem__(self, k):
        if isinstance(k, Series) or (isinstance(k, np.ndarray) and k.dtype == bool):
            ii = [i for i, b in enumerate(k) if b]
            return self._take(ii)
        if isinstance(k, (list, Index)):
            o = DataFrame(index=self._idx)
            for c in k:
                o[c] = self._d[c]
            return o
        if isinstance(k, slice):
            return self._take(list(range(len(self._idx)))[k])
        if k not in self._d:
            raise KeyError(k)
        return Series(self._d[k], self._idx, k)

    def __setitem__(self, k, v):
        if hasattr(v, "__len__") and not isinstance(v, str):
            if isinstance(v, Series) and len(self._idx) and list(v.index) != list(self._idx) and len(set(v.index)) == len(v):
                v = v.reindex(list(self._idx))      # by label
            v = list(v)
            if not len(self._idx) and not self._cols:
                self._idx = Index(range(len(v)))
            if len(v) != len(self._idx):
                raise ValueError("Length of values does not match length of index")
        else:
            v = [v] * len(self._idx)
        if k not in self._d:
            self._cols.append(k)
        self._d[k] = v

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        d = self.__dict__.get("_d", {})
        if k in d:
            return self[k]
        raise AttributeError(k)

    def _take(self, ii):
        o = DataFrame(index=[self._idx[i] for i in ii])
        for c in self._cols:
            o._cols.append(c)
            o._d[c] = [self._d[c][i] for i in ii]
        return o

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def at(self):
        return _Loc(self)

    @property
    def iat(self):
        return _ILoc(self)

    def iterrows(self):
        for i, ix in enumerate(self._idx):
            yield ix, Series([self._d[c][i] for c in self._cols], self._cols)

    def itertuples(self, index=True, name=None):
        for i, ix in enumerate(self._idx):
            yield ((ix,) if index else ()) + tuple(self._d[c][i] for c in self._cols)

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict((c, self._d[c][i]) for c in self._cols) for i in range(len(self._idx))]
        if orient == "list":
            return dict((c, list(self._d[c])) for c in self._cols)
        return dict((c, dict(zip(self._idx, self._d[c]))) for c in self._cols)

    def reset_index(self, drop=False, inplace=False):
        o = DataFrame(self)
        if not drop:
            c = getattr(self._idx, "name", None) or "index"
            o._cols.insert(0, c)
            o._d[c] = list(self._idx)
        o._idx = Index(range(len(self._idx)))
        return o

    def set_index(self, c):
        o = DataFrame(self)
        o._idx = Index(o._d.pop(c))
        o._cols.remove(c)
        return o

    def groupby(self, by, **k):
        return _Groups(self, by)

    def sort_values(self, by, ascending=True, ignore_index=False, **k):
        by = [by] if isinstance(by, str) else list(by)
        ii = sorted(range(len(self._idx)), key=lambda i: tuple(self._d[c][i] for c in by), reverse=not ascending)
        o = self._take(ii)
        if ignore_index:
            o._idx = Index(range(len(ii)))
        return o

    def sort_index(self, ascending=True, **k):
        return self._take(sorted(range(len(self._idx)), key=lambda i: self._idx[i], reverse=not ascending))

    def drop_duplicates(self, subset=None, keep="first", **k):
        cs = [subset] if isinstance(subset, str) else list(subset or self._cols)
        rows = [tuple(self._d[c][i] for c in cs) for i in range(len(self._idx))]
        n = len(rows)
        return self._take([i for i in range(n) if rows[i] not in (rows[:i] if keep == "first" else rows[i + 1:])])

    def pivot(self, index=None, columns=None, values=None):
        rs, cs = sorted(set(self._d[index])), sorted(set(self._d[columns]))
        at = dict(((r, c), v) for r, c, v in zip(self._d[index], self._d[columns], self._d[values]))
        if len(at) != len(self._idx):
            raise ValueError("Index contains duplicate entries, cannot reshape")
        o = DataFrame(dict((c, [at.get((r, c), float("nan")) for r in rs]) for c in cs), index=rs, columns=cs)
        o._idx.name = index
        return o

    def pivot_table(self, index=None, columns=None, values=None, aggfunc="mean"):
        rs, cs = sorted(set(self._d[index])), sorted(set(self._d[columns]))
        at = {}
        for r, c, v in zip(self._d[index], self._d[columns], self._d[values]):
            at.setdefault((r, c), []).append(v)
        return DataFrame(dict((c, [float(np.mean(at[r, c])) if (r, c) in at else float("nan") for r in rs]) for c in cs),
                         index=rs, columns=cs)

    @property
    def T(self):
        return DataFrame([[self._d[c][i] for i in range(len(self._idx))] for c in self._cols], index=self._cols, columns=list(self._idx))

    def rank(self, axis=0, ascending=True, method="average"):
        if axis in (1, "columns"):
            return self.T.rank(ascending=ascending, method=method).T
        return DataFrame(dict((c, _rank(self._d[c], ascending, method)) for c in self._cols), index=self._idx, columns=self._cols)

    def append(self, other, ignore_index=False):
        if isinstance(other, dict):
            other = DataFrame([other])
        return concat([self, other], ignore_index=ignore_index)

    def drop(self, labels=None, axis=0, columns=None, index=None):
        o = DataFrame(self)
        if columns is not None or axis == 1:
            for c in ([columns] if isinstance(columns, str) else (columns or labels)):
                o._cols.remove(c)
                del o._d[c]
            return o
        return o._take([i for i, ix in enumerate(o._idx) if ix not in (labels or index)])

    def mean(self, axis=0, **k):
        if axis in (1, "columns"):
            return Series([Series([self._d[c][i] for c in self._cols]).mean() for i in range(len(self._idx))], self._idx)
        return Series([self[c].mean() for c in self._cols], self._cols)

    def std(self, axis=0, **k):
        return self._reduce("std", axis)

    def _reduce(self, f, axis):
        if axis in (1, "columns"):
            return Series([getattr(Series([self._d[c][i] for c in self._cols]), f)() for i in range(len(self._idx))], self._idx)
        return Series([getattr(self[c], f)() for c in self._cols], self._cols)

    def max(self, axis=0, **k):
        return self._reduce("max", axis)

    def min(self, axis=0, **k):
        return self._reduce("min", axis)

    def sum(self, axis=0, **k):
        return self._reduce("sum", axis)

    def median(self, axis=0, **k):
        return self._reduce("median", axis)

    def count(self, axis=0, **k):
        return self._reduce("count", axis)

    def any(self, axis=0, **k):
        return self._reduce("any", axis)

    def all(self, axis=0, **k):
        return self._reduce("all", axis)

    def nunique(self, axis=0):
        return self._reduce("nunique", axis)

    def _map(self, f):
        return DataFrame(dict((c, [f(v) for v in self._d[c]]) for c in self._cols), index=self._idx, columns=self._cols)

    def round(self, n=0):
        return self._map(lambda v: v if _isna1(v) or isinstance(v, str) else type(v)(np.round(v, n)))

    def abs(self):
        return self._map(_b.abs)

    def notna(self):
        return self._map(lambda v: not _isna1(v))

    def dropna(self, axis=0, subset=None, **k):
        cs = [subset] if isinstance(subset, str) else list(subset or self._cols)
        if axis in (1, "columns"):
            return self[[c for c in self._cols if not _b.any(_isna1(v) for v in self._d[c])]]
        return self._take([i for i in range(len(self._idx)) if not _b.any(_isna1(self._d[c][i]) for c in cs)])

    def apply(self, f, axis=0, **k):
        if axis in (1, "columns"):
            return Series([f(Series([self._d[c][i] for c in self._cols], self._cols)) for i in range(len(self._idx))], self._idx)
        return Series([f(self[c]) for c in self._cols], self._cols)

    def items(self):
        for c in self._cols:
            yield c, self[c]

    def head(self, n=5):
        return self._take(list(range(len(self._idx)))[:n])

    def rename(self, columns=None, index=None, **k):
        o = DataFrame(self)
        if columns:
            o.columns = [columns.get(c, c) for c in o._cols]
        if index:
            o._idx = Index(index.get(i, i) for i in o._idx)
        return o

    def reindex(self, index=None, columns=None, **k):
        o = self if columns is None else DataFrame(dict((c, self._d.get(c, [float("nan")] * len(self._idx))) for c in columns), index=self._idx, columns=list(columns))
        if index is not None:
            at = dict((v, i) for i, v in enumerate(o._idx))
            o = DataFrame(dict((c, [o._d[c][at[i]] if i in at else float("nan") for i in index]) for c in o._cols), index=index, columns=o._cols)
        return o

    def assign(self, **k):
        o = DataFrame(self)
        for c, v in k.items():
            o[c] = v(o) if callable(v) else v
        return o

    def _op(self, o, f, axis=None):
        if isinstance(o, DataFrame):
            return DataFrame(dict((c, [f(a, b) for a, b in zip(self._d[c], o._d[c])]) for c in self._cols), index=self._idx, columns=self._cols)
        if isinstance(o, Series):
            if axis in (0, "index"):
                return DataFrame(dict((c, [f(a, b) for a, b in zip(self._d[c], o._v)]) for c in self._cols), index=self._idx, columns=self._cols)
            return DataFrame(dict((c, [f(a, o[c]) for a in self._d[c]]) for c in self._cols), index=self._idx, columns=self._cols)
        return self._map(lambda a: f(a, o))

    def sub(self, o, axis=1):
        return self._op(o, lambda a, b: a - b, axis)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __gt__(self, o):
        return self._op(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._op(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._op(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._op(o, lambda a, b: a <= b)

    def isna(self):
        return isna(self)

    isnull = isna

    def fillna(self, v, inplace=False):
        return DataFrame(dict((c, [v if _isna1(x) else x for x in self._d[c]]) for c in self._cols), index=self._idx)

    def astype(self, t):
        if isinstance(t, dict):
            o = DataFrame(self)
            for c, f in t.items():
                o._d[c] = [_cast(v, f) for v in o._d[c]]
            return o
        return DataFrame(dict((c, [_cast(x, t) for x in self._d[c]]) for c in self._cols), index=self._idx)

    def __eq__(self, o):
        return DataFrame(dict((c, [a == b for a, b in zip(self._d[c], o._d[c])]) for c in self._cols), index=self._idx)

    __hash__ = None

    def equals(self, o):
        return isinstance(o, DataFrame) and self._cols == o._cols and list(self._idx) == list(o._idx) and \
            self._d == o._d

    # -- csv
    def to_csv(self, path_or_buf=None, sep=",", index=True, header=True, mode="w", encoding=None, **kw):
        buf = _io.StringIO()
        w = _csv.writer(buf, delimiter=sep, lineterminator="\n")
        if header:
            w.writerow(([""] if index else []) + list(self._cols))
        for i, ix in enumerate(self._idx):
            w.writerow(([ix] if index else []) + [_fmt(self._d[c][i]) for c in self._cols])
        s = buf.getvalue()
        if path_or_buf is None:
            return s
        if hasattr(path_or_buf, "write"):
            path_or_buf.write(s)
            return None
        from simlib import disk
        disk.write_text(path_or_buf, s, mode)
        return None


def _cast(v, f):
    if f in ("object", object):
        return v
    if f in ("float", "float64", float, np.float64):
        return float(v)
    if f in ("int", "int64", int, np.int64):
        return int(v)
    if f in ("str", str):
        return str(v)
    return v


def _fmt(v):
    if _isna1(v):
        return ""
    if isinstance(v, (np.floating, float)):
        return repr(float(v))
    if isinstance(v, (np.integer,)):
        return str(int(v))
    return v


def read_csv(path, index_col=None, sep=",", header="infer", dtype=None, **kw):
    if hasattr(path, "read"):
        text = path.read()
    else:
        with open(path, newline="") as f:
            text = f.read()
    rows = list(_csv.reader(_io.StringIO(text), delimiter=sep))
    rows = [r for r in rows if r]
    if not rows:
        raise errors.EmptyDataError("No columns to parse from file")
    head = rows[0]
    cols = [c if c else "Unnamed: %d" % i for i, c in enumerate(head)]
    body = []
    for k, r in enumerate(rows[1:]):
        if len(r) > len(cols):
            raise errors.ParserError("Expected %d fields in line %d, saw %d" % (len(cols), k + 2, len(r)))
        body.append(r + [""] * (len(cols) - len(r)))
    d = {}
    for j, c in enumerate(cols):
        d[c] = _infer([r[j] for r in body])
    idx = range(len(body))
    if index_col is not None and index_col is not False:
        ic = cols[index_col] if isinstance(index_col, int) else index_col
        idx = d.pop(ic)
        cols = [c for c in cols if c != ic]
    return DataFrame(d, index=list(idx), columns=cols)


_NA = {"", "nan", "NaN", "NA", "N/A", "null", "NULL", "None", "#N/A", "n/a", "-nan", "-NaN", "<NA>"}


def _infer(vals):
    na = [v in _NA for v in vals]
    try:
        if not any(na):
            return [int(v) for v in vals]
    except ValueError:
        pass
    try:
        return [float("nan") if n else float(v) for v, n in zip(vals, na)]
    except ValueError:
        return [float("nan") if n else v for v, n in zip(vals, na)]


class _Loc(object):
    def __init__(self, df):
        self.df = df

    def _rows(self, r):
        df = self.df
        if isinstance(r, slice):
            lo = 0 if r.start is None else df._idx.index(r.start)
            hi = len(df._idx) if r.stop is None else df._idx.index(r.stop) + 1
            return list(range(lo, hi)), True
        if isinstance(r, (list, np.ndarray, Series, Index)):
            r = list(r)
            if r and isinstance(r[0], (bool, np.bool_)):
                return [i for i, b in enumerate(r) if b], True
            return [df._idx.index(x) for x in r], True
        return [df._idx.index(r)], False

    def __getitem__(self, k):
        df = self.df
        if isinstance(k, tuple):
            r, c = k
        else:
            r, c = k, slice(None)
        try:
            ii, many = self._rows(r)
        except ValueError:
            raise KeyError(r)
        if isinstance(c, slice):
            if many:
                return df._take(ii)
            return Series([df._d[x][ii[0]] for x in df._cols], df._cols)
        if isinstance(c, (list, Index)):
            if many:
                return df[list(c)]._take(ii)
            return Series([df._d[x][ii[0]] for x in c], list(c))
        if c not in df._d:
            raise KeyError(c)
        if many:
            return Series([df._d[c][i] for i in ii], [df._idx[i] for i in ii], c)
        return df._d[c][ii[0]]

    def __setitem__(self, k, v):
        df = self.df
        if isinstance(k, tuple):
            r, c = k
        else:
            r, c = k, list(df._cols)
        cl = list(c) if isinstance(c, (list, Index)) else ([c] if not isinstance(c, slice) else list(df._cols))
        for x in cl:
            if x not in df._d:
                df._cols.append(x)
                df._d[x] = [float("nan")] * len(df._idx)
        try:
            ii, many = self._rows(r)
        except ValueError:
            df._idx.append(r)
            for x in df._cols:
                df._d[x].append(float("nan"))
            ii, many = [len(df._idx) - 1], False
        if isinstance(v, dict):
            v = [v.get(x, float("nan")) for x in cl]
        seq = hasattr(v, "__len__") and not isinstance(v, str)
        if seq:
            v = list(v)
        for a, i in enumerate(ii):
            for b, x in enumerate(cl):
                if not seq:
                    df._d[x][i] = v
                elif many and len(cl) == 1:
                    df._d[x][i] = v[a]
                else:
                    df._d[x][i] = v[b]


class _ILoc(object):
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        df = self.df
        if isinstance(k, tuple):
            r, c = k
            if isinstance(c, slice) or isinstance(r, slice):
                cs = df._cols[c] if isinstance(c, slice) else [df._cols[c]]
                rs = list(range(len(df)))[r] if isinstance(r, slice) else [r]
                return df[cs]._take(rs)
            return df._d[df._cols[c]][r]
        if isinstance(k, slice):
            return df._take(list(range(len(df)))[k])
        if isinstance(k, (list, np.ndarray)):
            return df._take(list(k))
        return Series([df._d[c][k] for c in df._cols], df._cols)

    def __setitem__(self, k, v):
        df = self.df
        r, c = k
        df._d[df._cols[c]][r] = v


def concat(objs, axis=0, ignore_index=False, **k):
    objs = [o for o in objs]
    if axis == 1:
        o = DataFrame(index=objs[0]._idx)
        for x in objs:
            for c in x._cols:
                o[c] = x._d[c]
        return o
    cols = []
    for x in objs:
        for c in x._cols:
            if c not in cols:
                cols.append(c)
    idx = []
    d = dict((c, []) for c in cols)
    for x in objs:
        idx.extend(x._idx)
        for c in cols:
            d[c].extend(x._d.get(c, [float("nan")] * len(x)))
    return DataFrame(d, index=range(len(idx)) if ignore_index else idx, columns=cols)


class errors(object):
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass


def option_context(*a, **k):
    import contextlib
    return contextlib.nullcontext()


def set_option(*a, **k):
    pass
