"""Numeric pandas columns whose cells are symbols (missing cells are NaN)."""
from __future__ import annotations

import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype, register_extension_dtype

from . import sym as S
from .sym import Sym, const


@register_extension_dtype
class SymDtype(ExtensionDtype):
    name = "symbolic number"
    type = Sym
    kind = "f"
    na_value = np.nan
    _is_numeric = True

    @classmethod
    def construct_array_type(cls):
        return SymArray


def _na(v):
    return v is None or v is pd.NA or isinstance(v, float) and v != v


class SymArray(ExtensionArray):
    def __init__(self, values):
        self._v = np.empty(len(values), dtype=object)
        for i, v in enumerate(values):
            self._v[i] = np.nan if _na(v) else v
        self._dtype = SymDtype()

    @classmethod
    def _from_sequence(cls, scalars, *, dtype=None, copy=False):
        return cls(list(scalars))

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(list(values))

    @classmethod
    def _concat_same_type(cls, parts):
        return cls([v for p in parts for v in p._v])

    @property
    def dtype(self):
        return self._dtype

    @property
    def nbytes(self):
        return self._v.nbytes

    def __len__(self):
        return len(self._v)

    def __getitem__(self, i):
        i = pd.api.indexers.check_array_indexer(self, i)
        r = self._v[i]
        return SymArray(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        self._v[i] = v

    def isna(self):
        return np.array([_na(v) for v in self._v], dtype=bool)

    def take(self, indices, *, allow_fill=False, fill_value=None):
        out = []
        for i in indices:
            if allow_fill and i == -1:
                out.append(np.nan)
            else:
                out.append(self._v[i])
        return SymArray(out)

    def copy(self):
        return SymArray(self._v)

    def astype(self, dtype, copy=True):
        if isinstance(dtype, SymDtype) or dtype in (float, np.float64, "float"):
            return self.copy()
        return np.array(self._v, dtype=dtype)

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return np.array(self._v, dtype=object)

    def __array__(self, dtype=None, copy=None):
        return np.array(self._v, dtype=object)

    def __eq__(self, o):
        return np.array([a is b for a, b in zip(self._v, o if isinstance(o, SymArray) else [o] * len(self))])

    def _binary(self, o, f):
        if isinstance(o, (pd.Series, pd.Index, pd.DataFrame)):
            return NotImplemented
        b = list(o) if isinstance(o, (SymArray, np.ndarray, list)) else [o] * len(self)
        return SymArray([np.nan if _na(x) or _na(y) else f(x, y) for x, y in zip(self._v, b)])

    def __add__(self, o):
        return self._binary(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._binary(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._binary(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._binary(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._binary(o, lambda x, y: x / y)

    def __rtruediv__(self, o):
        return self._binary(o, lambda x, y: y / x)

    def _reduce(self, name, *, skipna=True, keepdims=False, **kw):
        r = reduce_cells(name, list(self._v))
        return SymArray([r]) if keepdims else r

    def _groupby_op(self, *, how, has_dropped_na, min_count, ngroups, ids, **kw):
        groups = [[] for _ in range(ngroups)]
        for v, i in zip(self._v, ids):
            if i >= 0:
                groups[i].append(v)
        return SymArray([reduce_cells(how, g, min_count) for g in groups])


def reduce_cells(how, cells, min_count=-1):
    """What pandas computes for a group of numeric cells (missing ones are skipped)."""
    given = [v for v in cells if not _na(v)]
    if how == "sum":
        return sum(given, const(0))
    if how in ("size", "count"):
        return len(given if how == "count" else cells)
    if not given:
        return np.nan
    if how == "mean":
        return sum(given[1:], S.lift(given[0])) / len(given)
    if how in ("first", "any_value"):
        return given[0]
    if how == "last":
        return given[-1]
    if how in ("min", "max"):
        r = given[0]
        for v in given[1:]:
            r = v if ((v < r) if how == "min" else (v > r)) else r
        return r
    if how == "median":
        s = []
        for v in given:
            k = 0
            while k < len(s) and s[k] <= v:
                k += 1
            s.insert(k, v)
        m = len(s) // 2
        return s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2
    if how == "prod":
        r = const(1)
        for v in given:
            r = r * v
        return r
    raise S.NeedFloat(f"symbolic column: {how}") if False else TypeError(f"{how} of a symbolic column is not modelled")
