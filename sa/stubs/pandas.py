"""Model of pandas.Series and DataFrame: arrays whose labels are unknown
to the package (a selected data set keeps the labels of its rows)."""
import numpy as np
import sa


def _values(x):
    return x._array if isinstance(x, Series) else x


def _wrap(array):
    s = Series.__new__(Series)
    s._array = array
    s.name = None
    return s


class Series:
    __array_priority__ = 1000

    def __init__(self, data=None, index=None, dtype=None, name=None, copy=False):
        self._array = np.array(_values(data), dtype=dtype)
        self.name = name

    def __array__(self, dtype=None, copy=None):
        return self._array if dtype is None else self._array.astype(dtype)

    def __len__(self):
        return len(self._array)

    def __iter__(self):
        return iter(self._array)

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            raise KeyError(k)
        if isinstance(k, slice):
            return _wrap(self._array[k])
        k = np.asarray(_values(k))
        if k.dtype != bool:
            raise KeyError("labels")
        return _wrap(self._array[k])

    def __setitem__(self, k, v):
        if isinstance(k, (int, np.integer)):
            raise KeyError(k)
        if isinstance(k, slice):
            self._array[k] = _values(v)
            return
        k = np.asarray(_values(k))
        if k.dtype != bool:
            raise KeyError("labels")
        self._array[k] = _values(v)

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def __add__(self, o):
        return _wrap(self._array + _values(o))

    def __radd__(self, o):
        return _wrap(_values(o) + self._array)

    def __sub__(self, o):
        return _wrap(self._array - _values(o))

    def __rsub__(self, o):
        return _wrap(_values(o) - self._array)

    def __mul__(self, o):
        return _wrap(self._array * _values(o))

    def __rmul__(self, o):
        return _wrap(_values(o) * self._array)

    def __truediv__(self, o):
        return _wrap(self._array / _values(o))

    def __rtruediv__(self, o):
        return _wrap(_values(o) / self._array)

    def __pow__(self, o):
        return _wrap(self._array ** _values(o))

    def __rpow__(self, o):
        return _wrap(_values(o) ** self._array)

    def __neg__(self):
        return _wrap(-self._array)

    def __abs__(self):
        return _wrap(abs(self._array))

    def __invert__(self):
        return _wrap(~self._array)

    def __iadd__(self, o):
        self._array += _values(o)
        return self

    def __isub__(self, o):
        self._array -= _values(o)
        return self

    def __imul__(self, o):
        self._array *= _values(o)
        return self

    def __itruediv__(self, o):
        self._array /= _values(o)
        return self

    def __ipow__(self, o):
        self._array **= _values(o)
        return self

    def __lt__(self, o):
        return _wrap(self._array < _values(o))

    def __le__(self, o):
        return _wrap(self._array <= _values(o))

    def __gt__(self, o):
        return _wrap(self._array > _values(o))

    def __ge__(self, o):
        return _wrap(self._array >= _values(o))

    def __eq__(self, o):
        return _wrap(self._array == _values(o))

    def __ne__(self, o):
        return _wrap(self._array != _values(o))

    def __and__(self, o):
        return _wrap(self._array & _values(o))

    def __or__(self, o):
        return _wrap(self._array | _values(o))

    @property
    def values(self):
        return self._array

    @property
    def array(self):
        return self._array

    @property
    def size(self):
        return len(self._array)

    @property
    def shape(self):
        return self._array.shape

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return self._array.dtype

    @property
    def iloc(self):
        return self._array

    @property
    def empty(self):
        return len(self._array) == 0

    def to_numpy(self, dtype=None, copy=False):
        r = self._array if dtype is None else self._array.astype(dtype)
        return np.copy(r) if copy else r

    def to_list(self):
        return self._array.tolist()

    def tolist(self):
        return self._array.tolist()

    def copy(self, deep=True):
        return Series(self._array)

    def astype(self, dtype, copy=True):
        return _wrap(self._array.astype(dtype))

    def abs(self):
        return _wrap(np.abs(self._array))

    def pow(self, o):
        return _wrap(self._array ** _values(o))

    def sum(self):
        return self._array.sum()

    def mean(self):
        return self._array.mean()

    def min(self):
        return self._array.min()

    def max(self):
        return self._array.max()

    def any(self):
        return self._array.any()

    def all(self):
        return self._array.all()

    def isna(self):
        return _wrap(np.isnan(self._array))

    def isnull(self):
        return _wrap(np.isnan(self._array))

    def notna(self):
        return _wrap(~np.isnan(self._array))

    def reset_index(self, drop=False):
        return Series(self._array)

    def between(self, left, right, inclusive=True):
        return _wrap((self._array >= left) & (self._array <= right))


class DataFrame:
    def __init__(self, data=None):
        self._columns = {}
        for k in data:
            self._columns[k] = Series(data[k])

    def __getitem__(self, k):
        return self._columns[k]

    def __setitem__(self, k, v):
        self._columns[k] = Series(v)

    def __contains__(self, k):
        return k in self._columns

    def __len__(self):
        for k in self._columns:
            return len(self._columns[k])
        return 0

    @property
    def columns(self):
        return list(self._columns)
