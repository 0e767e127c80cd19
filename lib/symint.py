"""Symbolic integers in the real Python/JAX code: a JAX trace whose values are z3 terms.

The code under test runs unmodified.  Scalars created by Engine.var are JAX tracers; every JAX
primitive applied to them is executed on z3 integer (real, boolean) terms.  Where Python needs a
concrete truth value or number (if, int(), numpy) the engine asks the solver which outcomes are
possible under the path condition and explores all of them, one run per path.
"""
import builtins
import contextlib
import operator
import sys

import numpy as np

from lib import boot  # noqa: F401
from lib.boot import z3
import jax
from jax._src import core

from lib import jaxsym, solve
from lib.sym import Unsupported


class PathLimit(Exception):
    pass


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def norm(x):
    """z3 constants back to Python numbers."""
    if is_z3(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    elif isinstance(x, np.generic):
        return x.item()
    return x


def simp(x):
    return norm(z3.simplify(x)) if is_z3(x) else norm(x)


def as_bool(x):
    if is_z3(x):
        return x if z3.is_bool(x) else x != 0
    return z3.BoolVal(bool(x))


def num(x):
    """Number term/number from a bool, int or float."""
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        if not np.isfinite(x):
            raise Unsupported("non-finite number with symbolic integers")
        return z3.RealVal(repr(float(x)))
    return x


def _ite(c, a, b):
    if not is_z3(c):
        return a if c else b
    if (is_z3(a) and z3.is_bool(a)) or (is_z3(b) and z3.is_bool(b)) or isinstance(a, bool) and isinstance(b, bool):
        return z3.If(c, as_bool(a), as_bool(b))
    a, b = num(a), num(b)
    a = a if is_z3(a) else z3.IntVal(a)
    b = b if is_z3(b) else z3.IntVal(b)
    if z3.is_real(a) != z3.is_real(b):
        a, b = (z3.ToReal(t) if z3.is_int(t) else t for t in (a, b))
    return z3.If(c, a, b)


def _real(x):
    x = num(x)
    if not is_z3(x):
        return z3.RealVal(x)
    return z3.ToReal(x) if z3.is_int(x) else x


def _isreal(x):
    return isinstance(x, float) or (is_z3(x) and z3.is_real(x))


def fdiv(a, b):
    """floor division of ints, as z3/Python does it for positive b."""
    return a // b if not is_z3(a) and not is_z3(b) else a / b


def _tdiv(a, b):
    a, b = num(a), num(b)
    if _isreal(a) or _isreal(b):
        return _real(a) / _real(b)
    if not is_z3(b):
        if b == 0:
            raise Unsupported("integer division by zero")
        if b < 0:
            return -_tdiv(a, -b)
        return _ite(a >= 0, fdiv(a, b), -fdiv(-a, b))
    q = fdiv(_ite(a >= 0, a, -a), _ite(b >= 0, b, -b))
    return _ite((a >= 0) == (b >= 0), q, -q)


def _trem(a, b):
    if _isreal(a) or _isreal(b):
        raise Unsupported("remainder of reals")
    return num(a) - num(b) * num(_tdiv(a, b))


def _floor(a):
    a = num(a)
    return z3.ToReal(z3.ToInt(a)) if is_z3(a) and z3.is_real(a) else a


def _ceil(a):
    a = num(a)
    return -z3.ToReal(z3.ToInt(-a)) if is_z3(a) and z3.is_real(a) else a


def _logic(op):
    def f(a, b):
        ba = isinstance(a, (bool, np.bool_)) or (is_z3(a) and z3.is_bool(a))
        bb = isinstance(b, (bool, np.bool_)) or (is_z3(b) and z3.is_bool(b))
        if not (ba and bb):
            if not is_z3(a) and not is_z3(b):
                return {"and": operator.and_, "or": operator.or_, "xor": operator.xor}[op](int(a), int(b))
            if op == "and" and (not is_z3(a) and a == 1 or not is_z3(b) and b == 1):
                return _trem_pos2(b if not is_z3(a) else a)
            raise Unsupported("bitwise %s" % op)
        a, b = as_bool(a), as_bool(b)
        return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, b)

    return f


def _trem_pos2(a):
    return a % 2


def _cmp(op):
    return lambda a, b: op(num(a), num(b)) if not (isinstance(a, float) or isinstance(b, float)) or is_z3(num(a)) else op(a, b)


EW = {
    "add": lambda a, b: num(a) + num(b),
    "add_any": lambda a, b: num(a) + num(b),
    "sub": lambda a, b: num(a) - num(b),
    "mul": lambda a, b: num(a) * num(b),
    "neg": lambda a: -num(a),
    "abs": lambda a: _ite(num(a) >= 0, a, -num(a)),
    "sign": lambda a: _ite(num(a) > 0, 1, _ite(num(a) < 0, -1, 0)),
    "max": lambda a, b: _ite(num(a) >= num(b), a, b),
    "min": lambda a, b: _ite(num(a) <= num(b), a, b),
    "div": _tdiv,
    "rem": _trem,
    "floor": _floor,
    "ceil": _ceil,
    "lt": _cmp(operator.lt),
    "le": _cmp(operator.le),
    "gt": _cmp(operator.gt),
    "ge": _cmp(operator.ge),
    "eq": _cmp(operator.eq),
    "ne": _cmp(operator.ne),
    "and": _logic("and"),
    "or": _logic("or"),
    "xor": _logic("xor"),
    "not": lambda a: z3.Not(as_bool(a)),
    "square": lambda a: num(a) * num(a),
}
MOVE = (
    "reshape transpose rev squeeze expand_dims broadcast_in_dim slice concatenate split pad gather "
    "dynamic_slice copy copy_p device_put stop_gradient"
).split()


def _reduce(f, init):
    def r(p, a):
        axes = tuple(p["axes"])
        keep = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            v = list(b[i])
            acc = v[0] if v else init
            for w in v[1:]:
                acc = f(acc, w)
            out[i] = acc
        return out

    return r


def _convert(p, a):
    nd = np.dtype(p["new_dtype"])

    def one(x):
        if nd == np.bool_:
            return as_bool(x) if is_z3(x) else bool(x)
        if np.issubdtype(nd, np.integer):
            x = num(x)
            if is_z3(x) and z3.is_real(x):
                return _ite(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return x
        return _real(x)

    return jaxsym._map(one, a)


def _select(p, c, *cases):
    return jaxsym._map(lambda k, *v: _ite(as_bool(k) if is_z3(k) else bool(k), v[1], v[0]), c, *cases)


def _clamp(p, lo, x, hi):
    return jaxsym._map(lambda l, v, h: EW["min"](EW["max"](v, l), h), lo, x, hi)


OTHER = {
    "convert_element_type": _convert,
    "select_n": _select,
    "clamp": _clamp,
    "reduce_sum": _reduce(EW["add"], 0),
    "reduce_max": _reduce(EW["max"], 0),
    "reduce_min": _reduce(EW["min"], 0),
    "reduce_prod": _reduce(EW["mul"], 1),
    "reduce_and": _reduce(lambda a, b: z3.And(as_bool(a), as_bool(b)), True),
    "reduce_or": _reduce(lambda a, b: z3.Or(as_bool(a), as_bool(b)), False),
}


def narrow(x, dtype):
    """Integers of 8 and 16 bits wrap around (32 bits hold everything within the bounds)."""
    if not np.issubdtype(dtype, np.integer) or dtype.itemsize > 2 or isinstance(x, (bool, np.bool_)):
        return x
    info = np.iinfo(dtype)
    x = num(x)
    return (x - int(info.min)) % (1 << info.bits) + int(info.min)


class SymTracer(core.Tracer):
    __slots__ = ["val", "_aval"]

    def __init__(self, trace, val, aval):
        super().__init__(trace)
        self.val = val
        self._aval = aval

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        return self

    def __bool__(self):
        return bool(self._trace.engine.choose(self.val))

    def __int__(self):
        return int(self._trace.engine.choose(self.val))

    def __index__(self):
        return int(self._trace.engine.choose(self.val))

    def __float__(self):
        return float(self._trace.engine.choose(self.val))

    def _whole(self, f):
        v = num(self.val.reshape(())[()])
        v = f(v) if is_z3(v) and z3.is_real(v) else v
        return self._trace.engine.tracer(simp(v))

    def __floor__(self):
        return self._whole(z3.ToInt)

    def __ceil__(self):
        return self._whole(lambda v: -z3.ToInt(-v))

    def __trunc__(self):
        return self._whole(lambda v: z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))

    def __array__(self, *a, **k):
        return self._trace.engine.concrete(self)

    def tolist(self):
        return self._trace.engine.concrete(self).tolist()

    def item(self):
        return self.tolist()

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        return "<symbolic>"

    def __repr__(self):
        return "<symbolic %s>" % (self._aval,)

    __str__ = __repr__


class _IntType(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymTracer):
            return x.aval.shape == () and np.issubdtype(x.aval.dtype, np.integer)
        return isinstance(x, builtins.int)


class Int(metaclass=_IntType):
    """Stands for the built-in int in the modules under test: leaves symbolic numbers symbolic."""

    def __new__(cls, x=0, *a):
        if isinstance(x, SymTracer) and x.val.size == 1:
            return x.__trunc__()
        return builtins.int(x, *a)


@contextlib.contextmanager
def stand_ins(on):
    """int() and numpy work on symbolic numbers within the modules under test."""
    done = []
    if on:
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] == "groco" and mod is not None:
                d = vars(mod)
                for k in [k for k, v in d.items() if v is np]:
                    done.append((d, k, np))
                    d[k] = jax.numpy
                if "int" not in d:
                    done.append((d, "int", None))
                    d["int"] = Int
    try:
        yield
    finally:
        for d, k, v in done:
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v


class SymTrace(core.Trace):
    def __init__(self, engine):
        self.engine = engine

    def process_primitive(self, prim, tracers, params):
        jaxsym.PRIMS_SEEN[prim.name] = jaxsym.PRIMS_SEEN.get(prim.name, 0) + 1
        if not any(isinstance(t, SymTracer) for t in tracers):
            with core.set_current_trace(core.eval_trace):
                return prim.bind_with_trace(core.eval_trace, tracers, params)
        name = prim.name
        if name in ("pjit", "closed_call", "core_call", "remat", "checkpoint"):
            j = params.get("jaxpr") or params.get("call_jaxpr")
            with core.set_current_trace(self):
                return core.eval_jaxpr(j.jaxpr, j.consts, *tracers)
        vals = [t.val if isinstance(t, SymTracer) else jaxsym.obj(np.asarray(t)) for t in tracers]
        try:
            out = self.rule(name, params, vals)
        except Unsupported:
            # explore every value the operands can take
            args = [
                jax.numpy.asarray(self.engine.concrete(t)) if isinstance(t, SymTracer) else t for t in tracers
            ]
            with core.set_current_trace(core.eval_trace):
                return prim.bind_with_trace(core.eval_trace, args, params)
        avals = [t.aval if isinstance(t, SymTracer) else core.get_aval(t) for t in tracers]
        with core.set_current_trace(core.eval_trace):
            aval, _ = prim.abstract_eval(*avals, **params)
        if prim.multiple_results:
            return [self.wrap(o, a) for o, a in zip(out, aval)]
        return self.wrap(out, aval)

    def rule(self, name, params, vals):
        if name in EW:
            return jaxsym._map(EW[name], *vals)
        if name in OTHER:
            return OTHER[name](params, *vals)
        if name in MOVE:
            conc = [
                np.array([norm(e) for e in v.ravel()]).reshape(v.shape).astype("int64")
                if i and name in ("gather", "dynamic_slice") and not any(is_z3(e) for e in v.ravel()) else v
                for i, v in enumerate(vals)
            ]
            return jaxsym.RULES[name](params, *conc)
        raise Unsupported(name)

    def wrap(self, out, aval):
        out = jaxsym.obj(np.asarray(out, dtype=object))
        assert out.shape == tuple(aval.shape), (out.shape, aval)
        flat = np.empty(out.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            flat[i] = simp(narrow(out[i], aval.dtype))
        if not any(is_z3(e) for e in flat.ravel()):
            arr = np.array([float(e) if np.issubdtype(aval.dtype, np.floating) else e for e in flat.ravel()])
            return jax.numpy.asarray(arr.reshape(out.shape).astype(aval.dtype))
        return SymTracer(self, flat, aval)

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, *, symbolic_zeros):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, out_trees, symbolic_zeros):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)


class Engine:
    """Explores every path of a function of symbolic integers."""

    symbolic = True

    def __init__(self, limit=600, shadow=True):
        self.limit = limit
        self.shadow = shadow
        self.paths = 0

    # ---- inside a run
    def var(self, name, lo, hi):
        v = z3.Int(name)
        self.names[name] = v
        self.assume(z3.And(v >= lo, v <= hi))
        return self.tracer(v)

    def tracer(self, term):
        a = np.empty((), dtype=object)
        a[()] = term
        return SymTracer(self.trace, a, core.ShapedArray((), np.dtype("int32"), weak_type=True))

    def assume(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def choose(self, val):
        """A value `val` can take here; the other values are explored by later runs."""
        t = val.reshape(())[()] if isinstance(val, np.ndarray) else val
        t = simp(t)
        if not is_z3(t):
            return t
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self.assume(self.is_value(t, v))
            return v
        v = self.pick(t, [])
        others = self.solver_has_other(t, [v])
        self.taken.append((self.prefix + [v], v))
        if others is not None:
            self.todo.append((self.prefix[:], [v], self.pos))
        self.prefix = self.prefix + [v]
        self.assume(self.is_value(t, v))
        return v

    def is_value(self, t, v):
        if z3.is_bool(t):
            return t if v else z3.Not(t)
        return t == v

    def pick(self, t, tried):
        r = solve._check(self.solver)
        if r != z3.sat:
            raise solve.Inconclusive("path condition is %s" % r)
        m = self.solver.model()
        v = m.eval(t, model_completion=True)
        return self.value(v)

    def value(self, v):
        if z3.is_bool(v):
            return z3.is_true(v)
        if z3.is_int_value(v):
            return v.as_long()
        return float(v.as_fraction())

    def solver_has_other(self, t, tried):
        self.solver.push()
        for w in tried:
            self.solver.add(z3.Not(self.is_value(t, w)))
        r = solve._check(self.solver)
        out = None
        if r == z3.sat:
            out = self.value(self.solver.model().eval(t, model_completion=True))
        elif r != z3.unsat:
            self.solver.pop()
            raise solve.Inconclusive("solver gave up on a branch")
        self.solver.pop()
        return out

    def concrete(self, tr):
        out = np.empty(tr.val.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = self.choose(tr.val[i])
        return np.array(out.tolist(), dtype=tr.aval.dtype).reshape(out.shape)

    def raw(self, x):
        """z3 term or Python number of anything the code returned."""
        if isinstance(x, SymTracer):
            return norm(x.val.reshape(())[()])
        if is_z3(x) or x is None:
            return x
        return norm(np.asarray(x).reshape(())[()])

    # ---- exploration
    def run(self, fn):
        """fn(engine) -> list of (label, goal).  Decides every goal on every path.

        Returns None or {"label", "values"} of a counterexample."""
        stack = [([], [])]  # (prefix, values tried at the next choice)
        self.claims = 0
        self.reached = {}
        while stack:
            prefix, tried = stack.pop()
            self.paths += 1
            # more than 60 outcomes of one choice: there is no end to it
            if self.paths > self.limit or len(tried) > 60:
                raise PathLimit()
            self.solver = z3.Solver()
            self.solver.set("timeout", 60000)
            self.pc, self.names = [], {}
            self.pos, self.taken, self.todo = 0, [], []
            self.prefix = list(prefix)
            self._avoid = (len(prefix), list(tried))
            self.trace = SymTrace(self)
            goals = self._execute(fn)
            for label, goal in goals:
                self.claims += 1
                g = as_bool(goal)
                r = self._decide(g)
                key = label
                self.reached[key] = self.reached.get(key, 0) + 1
                if r is not None:
                    return {"label": label, "values": {n: r.eval(v, model_completion=True).as_long() for n, v in self.names.items()}}
            for pre, done, _ in self.todo:
                stack.append((pre, done))
        return None

    def example(self):
        """Sizes that lead along the current path."""
        if solve._check(self.solver) != z3.sat:
            raise solve.Inconclusive("path condition of an exception")
        m = self.solver.model()
        return {n: m.eval(v, model_completion=True).as_long() for n, v in self.names.items()}

    def _decide(self, g):
        return solve.prove(self.pc, g)

    def _execute(self, fn):
        at, tried = self._avoid
        if tried:
            orig = self.choose

            def choose(val, _orig=orig):
                t = simp(val.reshape(())[()] if isinstance(val, np.ndarray) else val)
                if is_z3(t) and self.pos == at:
                    v = self.solver_has_other(t, tried)
                    if v is None:
                        raise solve.Inconclusive("exploration lost a branch")
                    if self.solver_has_other(t, tried + [v]) is not None:
                        self.todo.append((self.prefix[:at], tried + [v], at))
                    self.pos += 1
                    self.prefix = self.prefix[:at] + [v]
                    self.assume(self.is_value(t, v))
                    return v
                return _orig(val)

            self.choose = choose
        old = core.concrete_or_error

        def concrete_or_error(force, val, context=""):
            if isinstance(val, SymTracer):
                val = self.concrete(val)
                val = val[()] if val.ndim == 0 else val
            return old(force, val, context)

        core.concrete_or_error = concrete_or_error
        try:
            with jax.disable_jit(), core.set_current_trace(self.trace), stand_ins(self.shadow):
                return list(fn(self))
        finally:
            core.concrete_or_error = old
            if tried:
                del self.choose

    def both(self, *c):
        return z3.And(*[as_bool(x) for x in c])

    def either(self, *c):
        return z3.Or(*[as_bool(x) for x in c])

    def no(self, c):
        return z3.Not(as_bool(c))

    def ite(self, c, a, b):
        return _ite(c, a, b)


class Concrete:
    """The same interface on plain integers, for the replay on the real code."""

    symbolic = False

    def __init__(self, values):
        self.values = values

    def var(self, name, lo, hi):
        return int(self.values[name])

    def assume(self, c):
        if not c:
            raise ValueError("values outside the assumptions")

    def raw(self, x):
        return None if x is None else norm(np.asarray(x).reshape(())[()])

    def both(self, *c):
        return all(c)

    def either(self, *c):
        return any(c)

    def no(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b


def decide(fn, case):
    """fn(case, engine, bound) -> goals.  Falls back to a smaller bound if the code forces
    more paths than can be explored, and to no stand-ins where these do not do."""
    why = "more paths than can be explored"
    for bound, shadow in (("wide", True), ("wide", False), ("narrow", True), ("narrow", False)):
        eng = Engine(limit=400, shadow=shadow)
        try:
            bad = eng.run(lambda e: fn(case, e, bound))
        except PathLimit:
            continue
        except (Unsupported, solve.Inconclusive) as e:
            why = "%s: %s" % (type(e).__name__, e)
            continue
        except harness_errors():
            raise
        except Exception as e:
            # some size within the path leads here
            bad = {"label": "raised %s: %s" % (type(e).__name__, str(e)[:200]), "values": eng.example()}
        info = {"claims": eng.claims, "twins": 0, "degenerate": 0, "elements": eng.claims, "paths": eng.paths, "bound": bound}
        if not bad:
            return [], info
        values = dict(bad["values"], label=bad["label"])
        if not shadow or replay(fn, case, values):
            return [{"msg": "%s at %s" % (bad["label"], bad["values"]), "values": values}], info
    raise solve.Inconclusive(why)


def harness_errors():
    from lib import harness

    return harness.Timeout, harness.Skip


def replay(fn, case, values):
    for bound in ("wide", "narrow"):
        try:
            for label, ok in fn(case, Concrete(values), bound):
                if not ok:
                    return "%s at %s" % (label, {k: v for k, v in values.items() if k != "label"})
        except Exception as e:
            return "raised %s: %s at %s" % (type(e).__name__, str(e)[:200], {k: v for k, v in values.items() if k != "label"})
        return None


def sizes(bound, axes, wide, narrow):
    """Largest sizes: fewer of them where every combination is a path of its own."""
    return wide if bound == "wide" else tuple({1: a, 2: min(a, 4), 3: min(a, 3)}[axes] for a in narrow)
