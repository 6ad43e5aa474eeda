"""Run the real MIMOSA model construction on symbolic parameter values.

The code path is the user's: `MIMOSA(params)` -> check_params -> create_abstract_model ->
RegionalParamStore / DataStore -> InstantiatedModel -> AbstractModel.create_instance ->
(simulation mode).  Only two things are replaced:
  * the numeric leaves of the dictionary handed to `AbstractModel.create_instance` become
    symbolic variables named after the *configuration path* the parameter declares
    (`::a.b`, `regional::cat.name`, `timeandregional::v`);
  * `TransformationFactory` (solver pre-processing) is a no-op.
Afterwards every active constraint, variable bound and the objective of the concrete
Pyomo model is translated to the DAG of sym.py.
"""
from __future__ import annotations

import contextlib
import copy
import io
import logging
import math
import pickle
import sys
import types

import numpy as np
import yaml

REPO = "/repo"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import pyomo.environ as pe  # noqa: E402
from pyomo.common.numeric_types import RegisterNumericType  # noqa: E402
from pyomo.core.expr import numeric_expr  # noqa: E402
from pyomo.core.expr.relational_expr import EqualityExpression, InequalityExpression, RangedExpression  # noqa: E402

from . import sym as S  # noqa: E402
from .sym import Sym, SymBool  # noqa: E402

RegisterNumericType(Sym)

# The configuration files are parsed once per text (PyYAML itself, not the repository's code).
_yaml_load, _yaml_memo = yaml.safe_load, {}


def _safe_load(stream):
    text = stream.read() if hasattr(stream, "read") else stream
    if text not in _yaml_memo:
        _yaml_memo[text] = pickle.dumps(_yaml_load(text))
    return pickle.loads(_yaml_memo[text])


yaml.safe_load = _safe_load


class _MathProxy(types.ModuleType):
    """`math` for Pyomo's intrinsic-function dispatch: exact on floats, symbolic on Sym."""

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real):
            return real
        if name in ("exp", "log", "atan", "sqrt", "tanh"):
            def f(x, *a, _real=real, _n=name):
                if isinstance(x, Sym):
                    return S.fn(_n, x)
                return _real(x, *a)
        elif name in ("floor", "ceil", "trunc"):
            def f(x, _real=real, _n=name):
                if isinstance(x, Sym):
                    return getattr(x, f"__{_n}__")()
                return _real(x)
        elif name in ("isnan", "isinf"):
            def f(x, _real=real):
                return False if isinstance(x, Sym) else _real(x)
        else:
            return real
        f.__name__ = name
        setattr(self, name, f)
        return f


numeric_expr.math = _MathProxy()

import mimosa  # noqa: E402
import mimosa.mimosa as mm  # noqa: E402
from mimosa.common import regional_params  # noqa: E402
from mimosa.common.config.parseconfig import check_params, load_params, parse_param_values  # noqa: E402

_REAL_CREATE = pe.AbstractModel.create_instance

# parameters the construction branches on; symbolic only in the checks that ask for it
DEFAULT_KEEP = ("economics.damages.percentage reversible", "effort sharing.percapconv_year")

STRUCTURAL = {"beginyear", "dt", "tf", "t", "year2100", "regions"}


class _NoTransform:
    def __init__(self, name, log):
        self.name, self.log = name, log

    def apply_to(self, m, **kw):
        self.log.append((self.name, "apply_to"))

    def update_variables(self, m, **kw):
        self.log.append((self.name, "update_variables"))


def canonical(name, comp, params):
    """Symbol name for a Param: the configuration/data path its declaration asks for."""
    doc = comp.doc
    if callable(doc):
        doc = doc(params)
    doc = str(doc) if doc is not None else ""
    for pre in ("::", "regional::", "timeandregional::"):
        if doc.startswith(pre):
            return doc.split("::", 1)[1]
    return name


def idx_str(idx):
    if idx is None:
        return ""
    if not isinstance(idx, tuple):
        idx = (idx,)
    return "[" + ",".join(str(i) for i in idx) + "]"


def mimosa_class():
    return mm.MIMOSA


class Injected(float):
    """A number placed by the harness (numeric replay)."""


def deep_update(d, path, val):
    keys = path if isinstance(path, (list, tuple)) else path.split(".")
    for k in keys[:-1]:
        d = d.setdefault(k, {})
    d[keys[-1]] = val


def small_params(overrides=None, regions=("CAN", "USA", "INDIA"), start=2020, end=2035, dt=5):
    p = load_params()
    p["regions"] = {r: {} for r in regions}
    p["time"]["start"], p["time"]["end"], p["time"]["dt"] = start, end, dt
    for path, v in (overrides or {}).items():
        deep_update(p, path, v)
    return p


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    lg = logging.getLogger("pyomo")
    lv = lg.level
    lg.setLevel(logging.CRITICAL + 1)
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        lg.setLevel(lv)


class SymModel:
    """The concrete Pyomo model plus its translation."""

    def __init__(self, mimosa_obj, params, sources):
        self.mimosa = mimosa_obj
        self.m = mimosa_obj.concrete_model
        self.params = params
        self.sources = sources  # canonical name -> component name
        self.tlog = []
        self._cons = None

    # ------------------------------------------------------------- translate
    def var_sym(self, vd):
        """VarData -> symbolic variable; fixed variables contribute an equality."""
        name = vd.parent_component().name + idx_str(vd.index() if vd.parent_component().is_indexed() else None)
        return S.var(name)

    def expr(self, e):
        if isinstance(e, Sym):
            return e
        if isinstance(e, (int, float, np.integer, np.floating)):
            f = float(e)
            if math.isnan(f):
                return S.var(f"NaN!{id(e)}")
            if math.isinf(f):
                return S.var("Inf!+" if f > 0 else "Inf!-")
            return S.const(e)
        if hasattr(e, "is_variable_type") and e.is_variable_type():
            if e.fixed and self.use_fixed:
                return self.expr(e.value)
            return self.var_sym(e)
        if hasattr(e, "is_parameter_type") and e.is_parameter_type():
            v = e.value if not callable(getattr(e, "value", None)) else e()
            return self.expr(v)
        if e.is_expression_type():
            return self._node(e)
        raise TypeError(f"cannot translate {type(e)}")

    use_fixed = True

    def _node(self, e):
        # iterative would be safer for very deep sums, but sums are n-ary in Pyomo
        if isinstance(e, (EqualityExpression, InequalityExpression, RangedExpression)):
            return self.relation(e)
        args = [self.expr(a) for a in e.args]
        if isinstance(e, numeric_expr.UnaryFunctionExpression):
            n = e.getname()
            if n in ("exp", "log", "atan", "sqrt", "tanh"):
                return S.fn(n, args[0])
            if n in ("floor", "ceil"):
                return getattr(args[0], f"__{n}__")()
            if n == "log10":
                return S.fn("log", args[0]) / S.fn("log", S.const(10))
            raise TypeError(f"unary function {n}")
        if isinstance(e, numeric_expr.AbsExpression):
            return abs(args[0])
        if isinstance(e, numeric_expr.Expr_ifExpression):
            return S.ite(args[0], args[1], args[2])
        r = e._apply_operation(args)
        r2 = S.lift(r)
        if r2 is None:
            raise TypeError(f"translated {type(e)} to {r!r}")
        return r2

    def relation(self, e):
        a = [self.expr(x) for x in e.args]
        if isinstance(e, EqualityExpression):
            return S.eq(a[0], a[1])
        if isinstance(e, RangedExpression):
            return S.and_(S.le(a[0], a[1]), S.le(a[1], a[2]))
        return S.lt(a[0], a[1]) if getattr(e, "strict", False) is True else S.le(a[0], a[1])

    def constraints(self):
        """list of (constraint name, index, SymBool), active only."""
        if self._cons is None:
            out = []
            for c in self.m.component_objects(pe.Constraint, active=True, descend_into=True):
                for idx in c:
                    cd = c[idx]
                    if not cd.active:
                        continue
                    out.append((c.name, idx, self.relation(cd._expr if cd._expr is not None else cd.expr)))
            for v in self.m.component_objects(pe.Var, descend_into=True):
                for idx in v:
                    vd = v[idx]
                    x = self.var_sym(vd)
                    for lo, hi in ((vd._lb, vd._ub), vd.domain.bounds()):
                        if lo is not None and not (isinstance(lo, float) and math.isinf(lo)):
                            out.append((f"{v.name}.lower", idx, S.le(self.expr(lo), x)))
                        if hi is not None and not (isinstance(hi, float) and math.isinf(hi)):
                            out.append((f"{v.name}.upper", idx, S.le(x, self.expr(hi))))
                    if not vd.domain.isdiscrete() is False and vd.domain.isdiscrete():
                        out.append((f"{v.name}.discrete", idx, S.eq(S.fn("floor", x), x)))
                    if vd.fixed:
                        out.append((f"{v.name}.fixed", idx, S.eq(x, self.expr(vd.value))))
            self._cons = out
        return self._cons

    def objective(self):
        objs = [o for o in self.m.component_data_objects(pe.Objective, active=True)]
        return [(o.sense, self.expr(o.expr)) for o in objs]

    def param(self, name, *idx):
        """Value of a model Param as a Sym."""
        c = getattr(self.m, name)
        v = c[idx if len(idx) > 1 else idx[0]] if idx else c
        return self.expr(pe.value(v) if not hasattr(v, "is_expression_type") else v)

    def has(self, name):
        return hasattr(self.m, name)


def symbolise(abstract, data, params, keep, rename, nominal):
    """Replace the numeric leaves of create_instance's dictionary by symbols.  Leaves that are
    symbols already (injected at the regional parameter store) keep their own name."""
    out, sources = {}, {}
    for name, entry in data[None].items():
        comp = getattr(abstract, name, None)
        if name in STRUCTURAL or comp is None or not isinstance(comp, pe.Param) or not isinstance(entry, dict):
            out[name] = entry
            continue
        canon = canonical(name, comp, params)
        regional = str(comp.doc(params) if callable(comp.doc) else comp.doc).startswith("regional::")
        sources[canon] = name
        new = {}
        for idx, v in entry.items():
            if isinstance(v, (bool, str, Sym)) or v is None or canon in keep:
                new[idx] = v
            elif rename(canon) + idx_str(idx) in keep:
                new[idx] = v
                nominal[rename(canon) + idx_str(idx)] = float(v)
            elif regional:
                new[idx] = v  # a literal of the instantiation code, not a store value
            elif isinstance(v, (int, float, np.integer, np.floating)):
                if isinstance(v, (float, np.floating)) and math.isnan(v):
                    new[idx] = S.var(f"NaN!{canon}{idx_str(idx)}")
                else:
                    new[idx] = S.var(rename(canon) + idx_str(idx))
                    nominal[rename(canon) + idx_str(idx)] = float(v)
            else:
                new[idx] = v
        out[name] = new
    return {None: out}, sources


def override(abstract, data, params, values):
    """Numeric twin of `symbolise`: put the given numbers at the leaves of the same names."""
    for name, entry in data[None].items():
        comp = getattr(abstract, name, None)
        if name in STRUCTURAL or comp is None or not isinstance(comp, pe.Param) or not isinstance(entry, dict):
            continue
        canon = canonical(name, comp, params)
        regional = str(comp.doc(params) if callable(comp.doc) else comp.doc).startswith("regional::")
        for idx in list(entry):
            if isinstance(entry[idx], (bool, str)) or entry[idx] is None:
                continue
            key = canon + idx_str(idx)
            if key in values and not isinstance(entry[idx], Injected) and not regional:
                entry[idx] = float(values[key])


def build(params, symbolic=True, keep=None, instance_hook=None, rename=lambda c: c, patches=None, values=None):
    """Construct MIMOSA(params) through its public constructor."""
    values = values or {}
    keep = set(DEFAULT_KEEP if keep is None else keep)
    state = {}
    nominal = {}
    real_get = regional_params.RegionalParamStore.get
    real_getr = regional_params.RegionalParamStore.getregional

    def regional_value(category, paramname, r, v):
        if isinstance(v, (float, int, np.integer, np.floating)) and not isinstance(v, (bool, Injected)):
            name = f"{category}.{paramname}[{r}]"
            nan = isinstance(v, (float, np.floating)) and math.isnan(v)
            nominal[name] = float(v)
            if symbolic and name not in keep:
                return S.var("NaN!" + name if nan else name)
            return Injected(values.get(name, v))
        return v

    def store_get(self, category, paramname):
        return {r: regional_value(category, paramname, r, v) for r, v in real_get(self, category, paramname).items()}

    def store_getregional(self, category, paramname, region):
        return regional_value(category, paramname, region, real_getr(self, category, paramname, region))

    parsed = check_params(copy.deepcopy(params))
    parsed = parse_param_values(parsed)

    def create_instance(self, data=None, *a, **kw):
        sources = {}
        if symbolic:
            data, sources = symbolise(self, data, parsed, keep, rename, nominal)
        elif values:
            override(self, data, parsed, values)
        if instance_hook is not None:
            instance_hook(self, data)
        state["sources"] = sources
        state["data"] = data
        return _REAL_CREATE(self, data, *a, **kw)

    tlog = []
    saved = {}

    def setp(obj, name, val):
        if (obj, name) not in saved:
            saved[(obj, name)] = (obj, name, getattr(obj, name, None), name in vars(obj))
        setattr(obj, name, val)

    try:
        setp(pe.AbstractModel, "create_instance", create_instance)
        setp(regional_params.RegionalParamStore, "get", store_get)
        setp(regional_params.RegionalParamStore, "getregional", store_getregional)
        setp(mm, "TransformationFactory", lambda n: _NoTransform(n, tlog))
        for (obj, name), val in (patches or {}).items():
            setp(obj, name, val)
        with quiet():
            mod = mm.MIMOSA(params)
    finally:
        for obj, name, val, own in reversed(list(saved.values())):
            if own:
                setattr(obj, name, val)
            else:
                delattr(obj, name)
    sm = SymModel(mod, parsed, state.get("sources", {}))
    sm.data = state.get("data")
    sm.tlog = tlog
    sm.nominal = nominal
    return sm


# ------------------------------------------------------------------ symbolic time grid

class SymbolicDataStore:
    """Stand-in for DataStore whose values are symbols named by (variable, period, region): the
    period is the k for which the requested year is ring-equal to start + k*dt."""

    grid = None  # (start, dt, n)

    def __init__(self, params):
        self.params = params
        self.log = []

    def interp_data(self, year, region, variable):
        start, dt, n = SymbolicDataStore.grid
        y = S.lift(year)
        for k in range(n):
            if S.lift(y).id == S.lift(start + dt * k).id:
                return S.var(f"{variable}[{k},{region}]")
        from . import smt
        for k in range(n):
            if smt.prove([], S.eq(y, start + dt * k)).status == "unsat":
                return S.var(f"{variable}[{k},{region}]")
        return S.var(f"{variable}@[{S.show(y)},{region}]")


def symbolic_int(x, base=None):
    """`int` for modules under symbolic execution: a term with few feasible values is forked
    over, any other stays symbolic (truncation)."""
    if isinstance(x, SymBool):
        return int(bool(x))
    if not isinstance(x, Sym):
        return int(x) if base is None else int(x, base)
    if x.op == "const":
        return int(x.args[0])
    from . import smt
    t = S.trunc(x)
    if isinstance(t, Sym) and S.CUR is not None:
        try:
            smt.all_int_values(S.CUR.assumptions + S.CUR.pc, t, 2)
        except (S.TooManyPaths, RuntimeError):
            return t
        return S.CUR.concretise(t)
    return t


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __call__(cls, *a):
        return symbolic_int(*a) if a else 0


class IntShim(metaclass=_IntMeta):
    """Injected under the name `int` in the module that turns the time settings into indices."""


def symbolic_grid_patches(n):
    """patches for `build` making time.start, time.end, time.dt symbolic with n periods."""
    import mimosa.common.data as data_pkg
    import mimosa.concrete_model.instantiate_params as ip

    start, end, dt = S.var("time.start"), S.var("time.end"), S.var("time.dt")
    SymbolicDataStore.grid = (start, dt, n)
    real = mm.parse_param_values

    def parse(params):
        p = real(params)
        p["time"]["start"], p["time"]["end"], p["time"]["dt"] = start, end, dt
        return p

    patches = {(mm, "parse_param_values"): parse, (data_pkg, "DataStore"): SymbolicDataStore, (ip, "int"): IntShim}
    # documented ranges of the time settings; exactly n periods, the last one reaching `end`
    assume = [S.le(S.const(1900), start), S.le(start, S.const(2100)), S.le(end, S.const(2300)),
              S.le(S.const(0.5), dt), S.le(dt, S.const(20)),
              S.le(start + dt * (n - 2 + 1e-6), end), S.le(end, start + dt * (n - 1))]
    return patches, assume, (start, dt, n)
