"""Symbolic real expressions used by the jaxpr interpreter.

A value is a Python/numpy number or a `Poly`: a polynomial with exact rational coefficients
over *variables* (tensor entries) and *atoms* (interned non-polynomial terms: max, ite,
uninterpreted functions).  Atoms keep their arguments, so that the solver encoding can state
their defining axioms.
"""
from fractions import Fraction
import math

import numpy as np


class Unsupported(Exception):
    """The encoding does not cover something the code did: the run is inconclusive."""


NAMES = [None]  # id -> variable name or None for atoms
ATOMS = {}  # id -> ("max", (Poly...)) | ("ite", Bool, a, b) | ("uf", name, (args...))
_INTERN = {}
KIND = {}  # id of a variable -> dtype whose values it ranges over, where a check says so


def reset():
    KIND.clear()
    del NAMES[1:]
    ATOMS.clear()
    _INTERN.clear()


def num(c):
    """Exact rational (int or Fraction) of a concrete number; infinities stay floats."""
    if isinstance(c, (bool, np.bool_)):
        return int(c)
    if isinstance(c, (int, Fraction)):
        return c
    if isinstance(c, np.integer):
        return int(c)
    f = float(c)
    if math.isinf(f) or math.isnan(f):
        return f
    if f == int(f):
        return int(f)
    return Fraction(f)


class Poly:
    __slots__ = ("d", "_h")
    __array_priority__ = 1000

    def __init__(self, d):
        self.d = d
        self._h = None

    # -- structure
    def key(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def same(self, other):
        return isinstance(other, Poly) and self.d == other.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def ids(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, Poly):
            o = num(o)
            if isinstance(o, float):
                return o
            if o == 0:
                return self
            o = Poly({(): o})
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = num(o)
            if isinstance(o, float):
                raise Unsupported("symbolic times non-finite constant")
            if o == 0:
                return 0
            if o == 1:
                return self
            return Poly({m: c * o for m, c in self.d.items()})
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return Poly(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Poly):
            if o.is_const():
                o = o.const()
            else:
                return self * uf("recip", o)
        o = num(o)
        if o == 0 or isinstance(o, float):
            return uf("div_by_%s" % o, self)
        return self * (Fraction(1) / o)

    def __rtruediv__(self, o):
        return uf("recip", self) * o

    def __repr__(self):
        out = []
        for m, c in list(self.d.items())[:8]:
            out.append("*".join([str(c)] * (c != 1 or not m) + [name(i) for i in m]))
        return " + ".join(out) + (" + ..." if len(self.d) > 8 else "")


def name(i):
    return NAMES[i] or "atom%d" % i


def var(nm):
    NAMES.append(nm)
    return Poly({(len(NAMES) - 1,): 1})


def var_array(prefix, shape):
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        a[idx] = var(prefix + "[" + ",".join(map(str, idx)) + "]")
    return a


def _atom(kind, *args):
    k = (kind,) + tuple(_akey(a) for a in args)
    i = _INTERN.get(k)
    if i is None:
        NAMES.append(None)
        i = len(NAMES) - 1
        _INTERN[k] = i
        ATOMS[i] = (kind,) + args
    return Poly({(i,): 1})


def _akey(a):
    if isinstance(a, Poly):
        return a.key()
    if isinstance(a, Bool):
        return a.key()
    if isinstance(a, tuple):
        return tuple(_akey(x) for x in a)
    if isinstance(a, frozenset):
        return a
    return num(a) if not isinstance(a, str) else a


def rounding(nm, x):
    """What the conversion `nm` (to_<dtype>) does to a number."""
    from lib.boot import jnp_dtype

    if nm == "to_int":
        return int(x)
    dt = jnp_dtype(nm[3:])
    if np.issubdtype(dt, np.integer):
        return int(np.asarray(int(x)).astype(dt))
    return num(np.asarray(float(x)).astype(dt).astype("float64").item())


def kind(x, default):
    """The dtype whose values x ranges over, if x is a variable or a rounded value."""
    if isinstance(x, Poly) and len(x.d) == 1:
        ((m, c),) = x.d.items()
        if len(m) == 1 and c == 1:
            a = ATOMS.get(m[0])
            if a and a[0] == "uf" and a[1].startswith("to_") and a[1] != "to_int":
                return a[1][3:]
            return KIND.get(m[0], default) if not a else default
    return default


def uf(nm, *args):
    return _atom("uf", nm, tuple(args))


def lift(c):
    return c if isinstance(c, Poly) else Poly({} if num(c) == 0 else {(): num(c)})


def smax(vals):
    """Maximum of a list of values."""
    consts, polys = [], {}
    for v in vals:
        if isinstance(v, Poly) and not v.is_const():
            if len(v.d) == 1:
                ((m, c),) = v.d.items()
                if c == 1 and len(m) == 1 and m[0] in ATOMS and ATOMS[m[0]][0] == "max":
                    for w in ATOMS[m[0]][1]:
                        if w.is_const():
                            consts.append(w.const())
                        else:
                            polys[w.key()] = w
                    continue
            polys[v.key()] = v
        else:
            consts.append(v.const() if isinstance(v, Poly) else num(v))
    if any(isinstance(c, float) and math.isnan(c) for c in consts):
        raise Unsupported("nan in max")
    c = max(consts) if consts else None
    if not polys:
        return c
    if c == math.inf:
        return c
    if c is not None and c != -math.inf:
        p = lift(c)
        polys[p.key()] = p
    if len(polys) == 1:
        return next(iter(polys.values()))
    k = ("max", frozenset(polys))
    i = _INTERN.get(k)
    if i is None:
        NAMES.append(None)
        i = len(NAMES) - 1
        _INTERN[k] = i
        ATOMS[i] = ("max", tuple(polys.values()))
    return Poly({(i,): 1})


def smin(vals):
    m = smax([-v for v in vals])
    return -m


# ---------------------------------------------------------------- booleans
class Bool:
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def key(self):
        return (self.op,) + tuple(_akey(a) for a in self.args)

    def __bool__(self):
        raise Unsupported("branch on a symbolic boolean")


def cmp(op, a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
    d = a - b
    if not isinstance(d, Poly) or d.is_const():
        c = d.const() if isinstance(d, Poly) else d
        return {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op]
    return Bool(op, d)


def bnot(a):
    return Bool("not", a) if isinstance(a, Bool) else not a


def band(a, b):
    if not isinstance(a, Bool):
        return b if a else False
    if not isinstance(b, Bool):
        return a if b else False
    return Bool("and", a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b):
    if not isinstance(c, Bool):
        return a if c else b
    if isinstance(a, Bool) or isinstance(b, Bool) or isinstance(a, bool) or isinstance(b, bool):
        return bor(band(c, a), band(bnot(c), b))
    pa, pb = lift(a), lift(b)
    if pa.same(pb):
        return a
    return _atom("ite", c, pa, pb)


# ---------------------------------------------------------------- exact evaluation
def evaluate(v, env):
    """Exact value of `v` with variables given by env (id -> Fraction); atoms computed."""
    cache = {}

    def atom(i):
        if i in env:
            return env[i]
        if i not in ATOMS:
            return 0
        if i in cache:
            return cache[i]
        a = ATOMS[i]
        if a[0] == "max":
            r = max(poly(p) for p in a[1])
        elif a[0] == "ite":
            r = poly(a[2]) if boolean(a[1]) else poly(a[3])
        else:
            if a[1].startswith("to_"):
                r = rounding(a[1], poly(a[2][0]))
                cache[i] = r
                return r
            r = Fraction(hash((a[1],) + tuple(poly(p) for p in a[2])) % 1009)
        cache[i] = r
        return r

    def poly(p):
        if not isinstance(p, Poly):
            return num(p)
        t = Fraction(0)
        for m, c in p.d.items():
            x = c
            for i in m:
                x = x * atom(i)
                if x == 0:
                    break
            t += x
        return t

    def boolean(b):
        if not isinstance(b, Bool):
            return bool(b)
        if b.op == "not":
            return not boolean(b.args[0])
        if b.op == "and":
            return all(boolean(x) for x in b.args)
        x = poly(b.args[0])
        return {"lt": x < 0, "le": x <= 0, "eq": x == 0}[b.op]

    return poly(v)
