"""Symbolic texts and the builtin conversions the configuration code applies to user values."""
from __future__ import annotations

import contextlib
import re

import numpy as np

from . import model as M
from . import smt
from . import sym as S
from .sym import Sym, const

_CODES = {}


def code(text):
    return const(_CODES.setdefault(str(text), 1000 + len(_CODES)))


MARKERS = {}  # marker text -> name: an arbitrary text inside a longer one


def marker(name):
    m = f"\u27e8{name}\u27e9"
    MARKERS[m] = name
    return m


def text_parts(text):
    text = str.__str__(text)
    return [("var", MARKERS[p]) if p in MARKERS else ("lit", p) for p in re.split("(\u27e8[^\u27e8\u27e9]*\u27e9)", text) if p]


class Tok(str):
    """An arbitrary text: equality with every concrete text is a symbolic condition."""

    def __new__(cls, name):
        t = str.__new__(cls, marker(name))
        t.name = name
        t.sym = S.var("text:" + name)
        return t

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Tok):
            return S.eq(self.sym, o.sym)
        if isinstance(o, str):
            if str.__eq__(self, o):
                return True  # a copy of this very text
            return S.eq(self.sym, code(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else S.not_(r)

    def __hash__(self):
        # needed when the code looks the text up in a set or dictionary: fork over the texts seen so far
        cur = S.CUR
        if cur is None:
            return hash(str.__str__(self))
        memo = ("which text", self.name)
        if memo not in cur.known:
            t = cur.known[memo] = S.choose(list(_CODES) + [None], f"which text is {self.name}")
            facts = []
            for u, c in _CODES.items():
                e = S.eq(self.sym, const(c))
                n = S.not_(e)
                if cur.known.get(e.id, u == t) != (u == t) or cur.known.get(n.id, u != t) != (u != t):
                    raise S.Abort("contradicts an earlier comparison")
                cur.known[e.id], cur.known[n.id] = u == t, u != t
                if u == t or t is None:
                    facts.append(e if u == t else n)
            cur.pc.append(S.and_(*facts))
        t = cur.known[memo]
        return hash(t) if t is not None else hash(str.__str__(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return self

    def __repr__(self):
        return str.__str__(self)

    def __format__(self, spec):
        return str.__repr__(self)


class NumText(str):
    """The text form of an arbitrary number."""

    def __new__(cls, sym, integral=False):
        t = str.__new__(cls, "<numeric text>")
        t.sym, t.integral = sym, integral
        return t

    def __eq__(self, o):
        return o is self  # never one of the words true/false/yes/no

    def __ne__(self, o):
        return o is not self

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __call__(cls, *a):
        if a and isinstance(a[0], Sym):
            return a[0]
        if a and isinstance(a[0], NumText):
            return a[0].sym
        if a and isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].size == 1:
            return cls(a[0].item())
        return float(*a)


class FloatShim(float, metaclass=_FloatMeta):
    dtype = np.dtype(float)  # also usable as a data type


FloatShim.__name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __call__(cls, *a):
        if a and isinstance(a[0], NumText):
            if not a[0].integral:
                raise ValueError("invalid literal for int(): a decimal fraction")
            return a[0].sym
        if a and isinstance(a[0], Sym):
            return S.trunc(a[0])
        return int(*a)


class IntShim(int, metaclass=_IntMeta):
    dtype = np.dtype(int)


IntShim.__name__ = "int"


@contextlib.contextmanager
def shims(*modules):
    """`float` and `int` inside the modules of the package (and the given ones) accept symbols.
    (The data modules also use them as array types and are left alone unless given.)"""
    import sys

    from .harness import patched

    modules = list(modules) + [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "mimosa" and m not in modules and not n.startswith(("mimosa.common.data", "mimosa.concrete_model.simulation_mode", "mimosa.export"))]
    with patched([(m, "float", FloatShim) for m in modules] + [(m, "int", IntShim) for m in modules]):
        yield


# ---------------------------------------------------------------- numbers inside quantity texts

MAGIC = {}


def numeral(sym):
    """A decimal literal that Pint's tokenizer turns into the given symbol."""
    for k, v in MAGIC.items():
        if v is sym:
            return k
    k = f"9876543{len(MAGIC):03d}.0625"
    MAGIC[k] = sym
    return k


def magic_var(name):
    """A symbol that also stands for itself when it is printed into a text and parsed again."""
    k = f"9876543{len(MAGIC):03d}.0625"
    v = S.var(k)
    MAGIC[k] = v
    return v


@contextlib.contextmanager
def symbolic_numerals():
    import pint.util as pu

    real = pu.ParserHelper.eval_token

    def ev(token, non_int_type=float):
        s = MAGIC.get(token.string)
        return s if s is not None else real(token, non_int_type=non_int_type)

    saved = pu.ParserHelper.__dict__["eval_token"]
    pu.ParserHelper.eval_token = staticmethod(ev)
    try:
        yield
    finally:
        pu.ParserHelper.eval_token = saved


# ---------------------------------------------------------------- interpolation of symbolic data


def has_symbols(y):
    return any(isinstance(v, Sym) for v in np.asarray(y, dtype=object).ravel())


_RESPONSE = {}


def _constants(columns):
    """Responses to the unit vectors -> per result element the list of (index, weight)."""
    cols = [np.asarray(c, dtype=float) for c in columns]
    return cols[0].shape, {idx: [(i, const(float(c[idx]))) for i, c in enumerate(cols) if abs(c[idx]) > 1e-14] for idx in np.ndindex(cols[0].shape)}


def combine(response, y):
    """sum_i y[i] * (response to the i-th unit vector)."""
    shape, weights = response
    out = np.empty(shape, dtype=object)
    for idx, ws in weights.items():
        acc = const(0)
        for i, w in ws:
            acc = S.add(acc, S.mul(S.lift(y[i]), w))
        out[idx] = acc
    return out


def linear(ctor):
    """An interpolator of scipy that is linear in the data, applied to symbolic data through its
    response to the unit vectors (computed by the real one)."""

    class Interpolator:
        def __new__(cls, x, y, *a, **k):
            if not has_symbols(y):
                return ctor(x, y, *a, **k)
            o = object.__new__(cls)
            o.y = list(np.asarray(y, dtype=object).ravel())
            x = np.asarray(x, dtype=float)
            o.x, o.args = x, (a, k)
            return o

        def __call__(self, xnew, *a, **k):
            key = (ctor, self.x.tobytes(), repr(self.args), len(self.y), np.asarray(xnew, dtype=float).tobytes(), np.shape(xnew), repr((a, k)))
            if key not in _RESPONSE:
                c, kw = self.args
                _RESPONSE[key] = _constants([ctor(self.x, e, *c, **kw)(xnew, *a, **k) for e in np.eye(len(self.y))])
            return combine(_RESPONSE[key], self.y)

    return Interpolator


def linear_interp(x, xp, fp, *a, **k):
    if not has_symbols(fp):
        return _np_interp(x, xp, fp, *a, **k)
    fp = list(np.asarray(fp, dtype=object).ravel())
    xp = np.asarray(xp, dtype=float)
    key = ("interp", xp.tobytes(), repr((x, a, k)), len(fp))
    if key not in _RESPONSE:
        _RESPONSE[key] = _constants([_np_interp(x, xp, e, *a, **k) for e in np.eye(len(fp))])
    r = combine(_RESPONSE[key], fp)
    return r if r.shape else r.item()


_np_interp = np.interp


@contextlib.contextmanager
def interpolators(*modules):
    """numpy's and scipy's interpolators accept symbolic data (in scipy, in the package and in the given modules)."""
    import sys

    import scipy.interpolate as si

    from .harness import patched

    names = ("interp1d", "CubicSpline", "InterpolatedUnivariateSpline", "make_interp_spline", "PchipInterpolator", "Akima1DInterpolator")
    # the last two are not linear in the data: left as they are
    pairs = [(np, "interp", linear_interp)]
    for n in names[:4]:
        real, w = getattr(si, n), None
        w = linear(real)
        pairs.append((si, n, w))
        for m in list(modules) + [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "mimosa"]:
            for attr, v in list(vars(m).items()):
                if v is real:
                    pairs.append((m, attr, w))
    with patched(pairs):
        yield


def concrete(x, env):
    """The plain value of a symbolic one under env (name -> number)."""
    if isinstance(x, Sym):
        return S.evaluate(x, {n: float(env.get(n, 1)) for n in S.variables(x)})
    if isinstance(x, NumText):
        f = concrete(x.sym, env)
        return str(int(f)) if x.integral else repr(f)
    if isinstance(x, Tok):
        c = env.get("text:" + x.name)
        for t, k in _CODES.items():
            if c is not None and k == int(c):
                return t
        return "some other text"
    if isinstance(x, list):
        return [concrete(v, env) for v in x]
    if isinstance(x, dict):
        return {concrete(k, env): concrete(v, env) for k, v in x.items()}
    return x


_ = (M, smt)
