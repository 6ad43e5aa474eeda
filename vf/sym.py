"""Symbolic numbers and the path explorer.

`Sym` is a hash-consed DAG of exact real arithmetic: rational constants, named
symbolic variables, + * / **, and uninterpreted-but-axiomatised functions
(exp, log, atan, pow, inv, floor).  The real Python code of /repo is executed
on these objects; comparisons give `SymBool`, and asking a `SymBool` for its
truth value forks the execution (see `Explorer`), the feasibility of either
side being decided by z3.
"""
from __future__ import annotations

import math
import numbers
import sys
from fractions import Fraction

import numpy as np


class Abort(BaseException):
    """Internal control flow (path abandoned). BaseException: code under test must not catch it."""


_table = {}


def _mk(op, args):
    key = (op,) + tuple(a.id if isinstance(a, (Sym, SymBool)) else a for a in args)
    node = _table.get(key)
    if node is None:
        node = (SymBool if op in _BOOL_OPS else Sym)._new(op, args, len(_table) + 1)
        _table[key] = node
    return node


_BOOL_OPS = {"le", "lt", "eq", "and", "or", "not", "bconst", "seq"}


def frac(x) -> Fraction:
    """Exact rational for a Python number; floats are read as their shortest decimal
    (0.1 -> 1/10), which is how a user writes them."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            raise ValueError("non-finite float in symbolic expression")
        return Fraction(repr(f))
    raise TypeError(type(x))


def const(x):
    return _mk("const", (frac(x),))


def var(name):
    return _mk("var", (name,))


def is_num(x):
    if isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction)):
        return True
    # 0-d arrays
    return False


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return ite(x, const(1), const(0))
    if is_num(x):
        try:
            return const(x)
        except ValueError:
            return None
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


# ---------------------------------------------------------------- constructors


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] + b.args[0])
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    return _mk("add", (a, b))


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.args[0] == 0:
                return const(0)
            if x.args[0] == 1:
                return y
    return _mk("mul", (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, neg(b))


def inv(b):
    if b.op == "const":
        if b.args[0] == 0:
            raise ZeroDivisionError("division by zero")
        return const(1 / b.args[0])
    if b.op == "inv":
        return b.args[0]
    return _mk("inv", (b,))


def div(a, b):
    return mul(a, inv(b))


def _ipow(a, n):
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return const(1) if r is None else r


def power(a, b):
    if b.op == "const":
        e = b.args[0]
        if e.denominator == 1 and abs(e.numerator) <= 64:
            n = e.numerator
            return _ipow(a, n) if n >= 0 else inv(_ipow(a, -n))
        if a.op == "const":
            if a.args[0] in (0, 1):
                return a
            if a.args[0] > 0:
                # keep as an uninterpreted constant (its numeric value is bracketed by lemmas)
                return _mk("pow", (a, b))
    if a.op == "const" and a.args[0] == 1:
        return a
    return _mk("pow", (a, b))


def fn(name, a):
    if a.op == "const":
        c = a.args[0]
        if name == "exp" and c == 0:
            return const(1)
        if name == "log" and c == 1:
            return const(0)
        if name == "atan" and c == 0:
            return const(0)
        if name == "floor":
            return const(math.floor(c))
    return _mk(name, (a,))


FN_OPS = ("exp", "log", "atan", "floor", "sqrt", "tanh")


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if c.op == "bconst":
        return a if c.args[0] else b
    if a is b:
        return a
    return _mk("ite", (c, a, b))


def _caller_is_pyomo(depth):
    name = sys._getframe(depth).f_globals.get("__name__", "")
    return name.startswith("pyomo")


DIV_GUARD = None  # called with every divisor (None: division is total, 1/0 is an arbitrary number)


class Sym:
    __slots__ = ("op", "args", "id", "__weakref__")

    @classmethod
    def _new(cls, op, args, id_):
        o = object.__new__(cls)
        o.op, o.args, o.id = op, args, id_
        return o

    def __hash__(self):
        return hash(("Sym", self.id))

    # --- arithmetic
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, self)

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else sub(self, o)

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else sub(o, self)

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, self)

    def __truediv__(self, o):
        o = lift(o)
        if DIV_GUARD is not None and o is not None:
            DIV_GUARD(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if DIV_GUARD is not None and o is not None:
            DIV_GUARD(self)
        return NotImplemented if o is None else div(o, self)

    def __pow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(le(const(0), self), self, neg(self))

    # in-place forms fall back on the above

    # --- comparisons
    def __le__(self, o):
        o2 = lift(o)
        if o2 is None:
            return _cmp_inf(self, o, "le")
        return le(self, o2)

    def __lt__(self, o):
        o2 = lift(o)
        if o2 is None:
            return _cmp_inf(self, o, "lt")
        return lt(self, o2)

    def __ge__(self, o):
        o2 = lift(o)
        if o2 is None:
            return _cmp_inf(self, o, "ge")
        return le(o2, self)

    def __gt__(self, o):
        o2 = lift(o)
        if o2 is None:
            return _cmp_inf(self, o, "gt")
        return lt(o2, self)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, bool):
            # `x in [0, False, ...]`: Python semantics of comparing a number with a bool
            o2 = const(int(o))
        else:
            o2 = lift(o)
        if o2 is None:
            if isinstance(o, float):
                return False  # nan/inf
            return NotImplemented
        return eq(self, o2)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return not_(r)

    def __bool__(self):
        if self.op == "const":
            return self.args[0] != 0
        if _caller_is_pyomo(2):
            if DIV_GUARD is not None and sys._getframe(1).f_code.co_name.startswith("_div_"):
                DIV_GUARD(self)
            return True  # Pyomo's "drop a zero term" shortcut only; never taken for a symbol
        return bool(not_(eq(self, const(0))))

    def __int__(self):
        return concretise_int(self)

    def __index__(self):
        return concretise_int(self)

    def __float__(self):
        if self.op == "const":
            return float(self.args[0])
        raise NeedFloat(f"float() of symbolic {self!r}", self)

    def __round__(self, n=None):
        # ties (a set without interior) go up here, to even in CPython
        k = const(Fraction(10) ** (n or 0))
        return mul(fn("floor", add(mul(self, k), const(Fraction(1, 2)))), inv(k))

    def __trunc__(self):
        return trunc(self)

    def __ceil__(self):
        return neg(fn("floor", neg(self)))

    def __floor__(self):
        return fn("floor", self)

    # numpy object-array unary ufuncs call these methods
    def ceil(self):
        return self.__ceil__()

    def floor(self):
        return self.__floor__()

    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def arctan(self):
        return fn("atan", self)

    def sqrt(self):
        return fn("sqrt", self)

    def tanh(self):
        return fn("tanh", self)

    def is_integer(self):
        return bool(eq(fn("floor", self), self))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "__call__":
            return NotImplemented
        kwargs.pop("out", None)
        if any(isinstance(i, np.ndarray) and i.ndim > 0 for i in inputs):
            f = np.frompyfunc(lambda *xs: apply_ufunc(ufunc.__name__, *xs), len(inputs), 1)
            return f(*[_box(i) for i in inputs])
        return apply_ufunc(ufunc.__name__, *inputs)

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        return f"<{self!r}:{spec}>" if spec else repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("Sym is not picklable")


def _box(i):
    if isinstance(i, Sym):
        a = np.empty((), dtype=object)
        a[()] = i
        return a
    return i


class NeedFloat(TypeError):
    """The code under test needs a machine number where a symbol was given."""

    def __init__(self, msg, term=None):
        super().__init__(msg)
        self.term = term



numbers.Number.register(Sym)


def _cmp_inf(a, o, kind):
    if isinstance(o, (float, np.floating)):
        f = float(o)
        if math.isnan(f):
            return False
        if math.isinf(f):
            return {"le": f > 0, "lt": f > 0, "ge": f < 0, "gt": f < 0}[kind]
    return NotImplemented


def trunc(x):
    if x.op == "const":
        return const(math.trunc(x.args[0]))
    return ite(le(const(0), x), fn("floor", x), neg(fn("floor", neg(x))))


def apply_ufunc(name, *xs):
    xs = [x.item() if isinstance(x, np.generic) else x for x in xs]
    if name in ("add",):
        return xs[0] + xs[1]
    if name == "subtract":
        return xs[0] - xs[1]
    if name == "multiply":
        return xs[0] * xs[1]
    if name in ("divide", "true_divide"):
        return xs[0] / xs[1]
    if name == "power" or name == "float_power":
        return xs[0] ** xs[1]
    if name == "negative":
        return -xs[0]
    if name == "positive":
        return xs[0]
    if name in ("maximum", "fmax"):
        return smax(xs[0], xs[1])
    if name in ("minimum", "fmin"):
        return smin(xs[0], xs[1])
    if name in ("isnan", "isinf"):
        return False
    if name == "isfinite":
        return True
    if name in ("absolute", "fabs"):
        return abs(xs[0])
    if name == "less":
        return xs[0] < xs[1]
    if name == "less_equal":
        return xs[0] <= xs[1]
    if name == "greater":
        return xs[0] > xs[1]
    if name == "greater_equal":
        return xs[0] >= xs[1]
    if name == "equal":
        return xs[0] == xs[1]
    if name == "not_equal":
        return xs[0] != xs[1]
    if name == "square":
        return xs[0] * xs[0]
    if name == "reciprocal":
        return 1 / xs[0]
    m = {"exp": "exp", "log": "log", "arctan": "arctan", "sqrt": "sqrt", "tanh": "tanh",
         "ceil": "ceil", "floor": "floor", "conjugate": "conjugate"}.get(name)
    if m is None:
        raise NeedFloat(f"numpy ufunc {name} on symbolic value")
    return getattr(lift(xs[0]), m)()


def smax(a, b):
    a2, b2 = lift(a), lift(b)
    if a2 is None or b2 is None:
        return max(a, b)
    return ite(le(b2, a2), a2, b2)


def smin(a, b):
    a2, b2 = lift(a), lift(b)
    if a2 is None or b2 is None:
        return min(a, b)
    return ite(le(a2, b2), a2, b2)


# ---------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("op", "args", "id", "__weakref__")

    @classmethod
    def _new(cls, op, args, id_):
        o = object.__new__(cls)
        o.op, o.args, o.id = op, args, id_
        return o

    def __hash__(self):
        return hash(("SymBool", self.id))

    def __bool__(self):
        if self.op == "bconst":
            return self.args[0]
        if _caller_is_pyomo(2):
            # Domain membership tests inside Pyomo: declared domains are checked
            # separately (see model.py), never by forking.
            return True
        return branch(self)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __repr__(self):
        return show(self)


def bconst(b):
    return _mk("bconst", (bool(b),))


TRUE = None
FALSE = None


def _lb(x):
    return bconst(x) if isinstance(x, (bool, np.bool_)) else x


def le(a, b):
    if a is b:
        return bconst(True)
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] <= b.args[0])
    return _mk("le", (a, b))


def lt(a, b):
    if a is b:
        return bconst(False)
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] < b.args[0])
    return _mk("lt", (a, b))


def eq(a, b):
    if a is b:
        return bconst(True)
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] == b.args[0])
    if b.id < a.id:
        a, b = b, a
    return _mk("eq", (a, b))


def not_(a):
    a = _lb(a)
    if a.op == "bconst":
        return bconst(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,))


def and_(*xs):
    out = []
    for x in xs:
        x = _lb(x)
        if x.op == "bconst":
            if not x.args[0]:
                return bconst(False)
            continue
        out.append(x)
    if not out:
        return bconst(True)
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        x = _lb(x)
        if x.op == "bconst":
            if x.args[0]:
                return bconst(True)
            continue
        out.append(x)
    if not out:
        return bconst(False)
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def show(n, depth=6):
    if not isinstance(n, (Sym, SymBool)):
        return str(n)
    if n.op == "const":
        f = n.args[0]
        return str(f) if f.denominator == 1 else (str(float(f)))
    if n.op == "var":
        return n.args[0]
    if n.op == "bconst":
        return str(n.args[0])
    if depth == 0:
        return "…"
    s = [show(a, depth - 1) for a in n.args]
    sym = {"add": "+", "mul": "*", "pow": "**", "le": "<=", "lt": "<", "eq": "==", "and": "&", "or": "|"}.get(n.op)
    if sym:
        return "(" + f" {sym} ".join(s) + ")"
    return f"{n.op}(" + ", ".join(s) + ")"


# ---------------------------------------------------------------- traversal


def postorder(roots):
    """All nodes reachable from roots, children before parents."""
    seen, out = set(), []
    stack = [(r, False) for r in roots if isinstance(r, (Sym, SymBool))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, (Sym, SymBool)) and a.id not in seen:
                stack.append((a, False))
    return out


def dump(nodes):
    """Nodes as plain data, for another process: (list of (op, args), positions of `nodes`)."""
    order = postorder(nodes)
    at = {n.id: k for k, n in enumerate(order)}
    return [(n.op, tuple(("n", at[a.id]) if isinstance(a, (Sym, SymBool)) else ("v", a) for a in n.args)) for n in order], [at[n.id] for n in nodes]


def undump(data):
    made = []
    for op, args in data[0]:
        a = tuple(made[v] if k == "n" else v for k, v in args)
        if op == "eq" and a[1].id < a[0].id:
            a = a[::-1]
        made.append(_mk(op, a))
    return [made[k] for k in data[1]]


_vars_cache = {}


def variables(node):
    """frozenset of variable names in node"""
    r = _vars_cache.get(node.id)
    if r is not None:
        return r
    for n in postorder([node]):
        if n.id in _vars_cache:
            continue
        if n.op == "var":
            _vars_cache[n.id] = frozenset((n.args[0],))
        else:
            s = frozenset()
            for a in n.args:
                if isinstance(a, (Sym, SymBool)):
                    s |= _vars_cache[a.id]
            _vars_cache[n.id] = s
    return _vars_cache[node.id]


def substitute(node, mapping):
    """mapping: var name -> Sym"""
    cache = {}
    for n in postorder([node]):
        if n.op == "var":
            cache[n.id] = mapping.get(n.args[0], n)
        elif n.op in ("const", "bconst"):
            cache[n.id] = n
        else:
            args = [cache[a.id] if isinstance(a, (Sym, SymBool)) else a for a in n.args]
            cache[n.id] = rebuild(n.op, args)
    return cache[node.id]


def rebuild(op, args):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "inv":
        return inv(*args)
    if op == "pow":
        return power(*args)
    if op in FN_OPS:
        return fn(op, args[0])
    if op == "ite":
        return ite(*args)
    if op == "le":
        return le(*args)
    if op == "lt":
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    raise KeyError(op)


def evaluate(node, env):
    """Float evaluation with real functions. env: name -> float."""
    cache = {}
    for n in postorder([node]):
        o = n.op
        a = [cache[x.id] if isinstance(x, (Sym, SymBool)) else x for x in n.args]
        if o == "const":
            v = float(n.args[0])
        elif o == "var":
            v = env[n.args[0]]
        elif o == "add":
            v = a[0] + a[1]
        elif o == "mul":
            v = a[0] * a[1]
        elif o == "inv":
            v = 1 / a[0]
        elif o == "pow":
            v = a[0] ** a[1]
            if isinstance(v, complex):
                raise ValueError("complex power")
        elif o in ("exp", "log", "atan", "floor", "sqrt", "tanh"):
            v = getattr(math, o)(a[0])
        elif o == "ite":
            v = a[1] if a[0] else a[2]
        elif o == "le":
            v = a[0] <= a[1]
        elif o == "lt":
            v = a[0] < a[1]
        elif o == "eq":
            v = abs(a[0] - a[1]) <= 1e-9 * max(1.0, abs(a[0]), abs(a[1]))
        elif o == "not":
            v = not a[0]
        elif o == "and":
            v = all(a)
        elif o == "or":
            v = any(a)
        elif o == "bconst":
            v = n.args[0]
        else:
            raise KeyError(o)
        cache[n.id] = v
    return cache[node.id]


# ---------------------------------------------------------------- path exploration

CUR = None  # the active Explorer


def branch(cond):
    if CUR is None:
        raise RuntimeError(f"symbolic branch outside an explorer: {cond!r}")
    return CUR.branch(cond)


def concretise_int(x):
    if x.op == "const":
        f = x.args[0]
        return int(f)
    if CUR is None:
        raise RuntimeError("symbolic int outside an explorer")
    return CUR.concretise(trunc(x))


def choose(options, label="choice"):
    """Structural nondeterminism: fork over every option."""
    if CUR is None:
        raise RuntimeError("choose outside an explorer")
    return CUR.choose(list(options), label)


class TooManyPaths(Exception):
    pass


class Explorer:
    """Depth-first enumeration of the paths of `fn` by re-execution.

    Every path carries its path condition (list of SymBool).  Branch feasibility is
    decided by z3; `unknown` keeps the branch (sound: an infeasible extra path can only
    make a later proof harder, never hide a violation)."""

    def __init__(self, assumptions=(), max_paths=20000, feas_timeout=3000):
        self.assumptions = [a for a in assumptions]
        self.max_paths = max_paths
        self.feas_timeout = feas_timeout
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_branches = 0

    # --- state of the current path
    def _reset(self):
        self.pos = 0
        self.pc = []
        self.known = {}
        self.labels = []
        self._feas_cache = getattr(self, "_feas_cache", {})

    def feasible(self, extra):
        from . import smt
        import time

        if extra.op == "bconst":
            return bool(extra.args[0])
        # the other conjuncts share no variable with these and are satisfiable (path condition so far)
        few = smt.relevant([_lb(a) for a in self.assumptions] + self.pc + [extra])
        key = (frozenset(c.id for c in few), extra.id)
        r = self._feas_cache.get(key)
        if r is None:
            t = time.time()
            r = smt.satisfiable(few[1:] + [extra], timeout=self.feas_timeout)
            self.queries += 1
            self.solver_s += time.time() - t
            if r == "unknown":
                self.unknown_branches += 1
            self._feas_cache[key] = r
        return r != "unsat"

    def _decide(self, n_options, make):
        """Generic decision point."""
        if self.pos < len(self.trace):
            i = self.trace[self.pos][0]
        else:
            i = 0
            self.trace.append([0, n_options])
        self.pos += 1
        return i

    def branch(self, cond):
        if cond.id in self.known:
            return self.known[cond.id]
        neg_ = not_(cond)
        if neg_.id in self.known:
            return not self.known[neg_.id]
        if self.pos < len(self.trace):
            kind, val, alts = self.trace[self.pos]
        else:
            t = self.feasible(cond)
            f = self.feasible(neg_)
            if t and f:
                alts = [False]
                val = True
            elif t:
                alts, val = [], True
            elif f:
                alts, val = [], False
            else:
                raise Abort("infeasible path")
            self.trace.append(["b", val, alts])
        self.pos += 1
        self.known[cond.id] = val
        self.pc.append(cond if val else neg_)
        return val

    def choose(self, options, label):
        if self.pos < len(self.trace):
            kind, val, alts = self.trace[self.pos]
        else:
            val = 0
            alts = list(range(1, len(options)))
            self.trace.append(["c", val, alts])
        self.pos += 1
        self.labels.append((label, options[val]))
        return options[val]

    def concretise(self, x, limit=400):
        """Fork over every feasible integer value of x."""
        from . import smt

        if self.pos < len(self.trace):
            kind, val, alts = self.trace[self.pos]
        else:
            vals = smt.all_int_values(self.assumptions + self.pc, x, limit)
            self.queries += len(vals) + 1
            if not vals:
                raise Abort("infeasible path")
            val, alts = vals[0], vals[1:]
            self.trace.append(["i", val, alts])
        self.pos += 1
        c = eq(x, const(val))
        self.known[c.id] = True
        if c.op != "bconst":
            self.pc.append(c)
        return val

    def run(self, fn_):
        """Yield (result, exception, path_condition, labels) for every feasible path."""
        global CUR
        self.trace = []
        while True:
            self._reset()
            prev, CUR = CUR, self
            res = exc = None
            aborted = False
            try:
                res = fn_()
            except Abort:
                aborted = True
            except Exception as e:  # noqa: BLE001 - the code under test may raise anything
                exc = e
            finally:
                CUR = prev
            if not aborted:
                self.paths += 1
                yield res, exc, list(self.pc), list(self.labels)
            # backtrack
            del self.trace[self.pos:]
            while self.trace and not self.trace[-1][2]:
                self.trace.pop()
            if not self.trace:
                return
            last = self.trace[-1]
            last[1] = last[2].pop(0)
            if self.paths > self.max_paths:
                raise TooManyPaths(f"more than {self.max_paths} paths")
