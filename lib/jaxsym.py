"""Symbolic execution of jaxprs: the intermediate representation JAX makes of the real code.

Every value is a numpy array: numeric dtype when concrete, dtype object (numbers and
`sym.Poly`/`sym.Bool`) when symbolic.  Primitives on concrete values that have no rule here
are evaluated by JAX itself.  Pure data movement without a rule is executed by JAX on an
array of element numbers and replayed on the symbolic elements, so its meaning is JAX's own.
"""
import itertools
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore
from jax import lax
from jax.extend import linear_util as lu
from jax.interpreters import partial_eval as pe

from lib import sym
from lib.sym import Bool, Poly, Unsupported

PRIMS_SEEN = {}


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def to_np(x):
    if isinstance(x, np.ndarray):
        return x
    return np.asarray(x)


def obj(a):
    return a if is_sym(a) else np.asarray(a).astype(object)


def _map(f, *arrs):
    arrs = np.broadcast_arrays(*[obj(a) for a in arrs])
    out = np.empty(arrs[0].shape, dtype=object)
    of = out.reshape(-1)
    fl = [a.reshape(-1) if a.flags.c_contiguous else a.ravel() for a in arrs]
    for i in range(of.shape[0]):
        of[i] = f(*[a[i] for a in fl])
    return out


# ------------------------------------------------------------------ rules
RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def _ew(fn):
    return lambda p, *a: _map(fn, *a)


RULES["add"] = RULES["add_any"] = _ew(lambda a, b: _add(a, b))
RULES["sub"] = _ew(lambda a, b: _add(a, _neg(b)))
RULES["mul"] = _ew(lambda a, b: _mul(a, b))
RULES["div"] = _ew(lambda a, b: _div(a, b))
RULES["max"] = _ew(lambda a, b: sym.smax([a, b]))
RULES["min"] = _ew(lambda a, b: sym.smin([a, b]))
RULES["neg"] = _ew(lambda a: _neg(a))
RULES["abs"] = _ew(lambda a: sym.smax([a, -a]))
RULES["square"] = _ew(lambda a: _mul(a, a))
RULES["lt"] = _ew(lambda a, b: sym.cmp("lt", a, b))
RULES["le"] = _ew(lambda a, b: sym.cmp("le", a, b))
RULES["gt"] = _ew(lambda a, b: sym.cmp("lt", b, a))
RULES["ge"] = _ew(lambda a, b: sym.cmp("le", b, a))
RULES["eq"] = _ew(lambda a, b: sym.cmp("eq", a, b))
RULES["ne"] = _ew(lambda a, b: sym.bnot(sym.cmp("eq", a, b)))
RULES["and"] = _ew(lambda a, b: sym.band(a, b))
RULES["or"] = _ew(lambda a, b: sym.bor(a, b))
RULES["not"] = _ew(lambda a: sym.bnot(a))


def _num(a):
    return a if isinstance(a, (Poly, int, Fraction)) else sym.num(a)


def _add(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return a + b
    return _num(a) + _num(b)


def _neg(a):
    return -a if isinstance(a, Poly) else -_num(a)


def _mul(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return a * b
    return _num(a) * _num(b)


def _div(a, b):
    if isinstance(a, Poly):
        return a / b
    if isinstance(b, Poly):
        return sym.uf("recip", b) * _num(a)
    a, b = _num(a), _num(b)
    if b == 0 or isinstance(a, float) or isinstance(b, float):
        return float(a) / float(b) if b != 0 else float("nan")
    return Fraction(a) / b


def _uf(name):
    def f(p, a):
        def one(x):
            if isinstance(x, Poly):
                return sym.uf(name, x)
            return sym.uf(name, sym.lift(x))

        return _map(one, a)

    return f


for _n in (
    "exp exp2 log log1p expm1 tanh logistic sqrt rsqrt cbrt sin cos tan asin acos atan sinh "
    "cosh erf erfc erf_inv floor ceil round sign is_finite lgamma digamma"
).split():
    RULES[_n] = _uf(_n)


@rule("integer_pow")
def _ipow(p, a):
    y = p["y"]

    def f(x):
        r = 1
        for _ in range(abs(y)):
            r = _mul(r, x)
        return r if y >= 0 else _div(1, r)

    return _map(f, a)


@rule("pow")
def _pow(p, a, b):
    def f(x, y):
        if not isinstance(y, Poly) and _num(y) in (0, 1, 2, 3):
            r = 1
            for _ in range(int(y)):
                r = _mul(r, x)
            return r
        return sym.uf("pow", sym.lift(x), sym.lift(y))

    return _map(f, a, b)


@rule("stop_gradient", "copy", "copy_p", "device_put", "optimization_barrier")
def _ident(p, *a):
    return a[0] if len(a) == 1 else list(a)


# Conversions that lose digits are uninterpreted, unless a check is about dtype policies.
EXACT_CASTS = False


def rounded(name):
    def f(x):
        return sym.uf(name, x) if isinstance(x, Poly) else sym.rounding(name, x)

    return f


@rule("reduce_precision")
def _reduce_precision(p, a):
    if EXACT_CASTS or p["mantissa_bits"] >= 23:
        return a
    return _map(lambda x: sym.uf("reduced_%d" % p["mantissa_bits"], sym.lift(x)), a)


def _lossy(old, new):
    """The name of the rounding when converting old to new, or None if no digit is lost."""
    if old is None or old == new or old == np.bool_ or new == np.bool_:
        return None
    integer = lambda d: np.issubdtype(d, np.integer)  # noqa: E731
    if integer(new):
        return None if integer(old) and np.can_cast(old, new) else "to_int" if not integer(old) else "to_" + new.name
    bits = np.iinfo(old).bits - (np.iinfo(old).min < 0) if integer(old) else jnp.finfo(old).nmant + 1
    if EXACT_CASTS or bits <= jnp.finfo(new).nmant + 1:
        return None
    return "to_" + new.name


@rule("convert_element_type")
def _convert(p, a):
    nd = np.dtype(p["new_dtype"])
    old = np.dtype(p["old_dtype"]) if "old_dtype" in p else None
    if old is not None and any(_lossy(np.dtype(k), nd) is None for k in {sym.kind(x, None) for x in a.ravel()} if k):
        same = _map(lambda x: sym.kind(x, None) and _lossy(np.dtype(sym.kind(x, None)), nd) is None, a)
        if all(s or not isinstance(x, (Poly, Bool)) for s, x in zip(same.ravel(), a.ravel())):
            return _map(lambda x: x if isinstance(x, Poly) else sym.num(np.asarray(x).astype(nd).item()), a)
    name = _lossy(old, nd)
    if name and name != "to_int":
        return _map(lambda x: rounded(name)(sym.ite(x, 1, 0) if isinstance(x, Bool) else x), a)
    if np.issubdtype(nd, np.integer) and not (old is not None and name is None):
        return _map(
            lambda x: sym.uf("to_int", x)
            if isinstance(x, Poly)
            else (sym.ite(x, 1, 0) if isinstance(x, Bool) else int(x)),
            a,
        )
    if nd == np.bool_:
        return _map(
            lambda x: sym.bnot(sym.cmp("eq", x, 0)) if isinstance(x, Poly) else
            (x if isinstance(x, Bool) else bool(x)),
            a,
        )
    return _map(lambda x: sym.ite(x, 1, 0) if isinstance(x, Bool) else x, a)


@rule("select_n")
def _select(p, c, *cases):
    if not is_sym(c):
        out = obj(cases[0]).copy()
        c = np.broadcast_to(np.asarray(c), out.shape)
        for i, cs in enumerate(cases):
            m = c == i
            out[m] = obj(cs)[m]
        return out
    if len(cases) != 2:
        raise Unsupported("select_n")
    return _map(lambda k, a, b: sym.ite(k, b, a), c, cases[0], cases[1])


@rule("clamp")
def _clamp(p, lo, x, hi):
    return _map(lambda l, v, h: sym.smin([sym.smax([v, l]), h]), lo, x, hi)


# ---- data movement
@rule("reshape")
def _reshape(p, a, *r):
    if p.get("dimensions") is not None:
        a = a.transpose(p["dimensions"])
    return a.reshape(p["new_sizes"])


@rule("transpose")
def _transpose(p, a):
    return a.transpose(p["permutation"])


@rule("rev")
def _rev(p, a):
    return np.flip(a, p["dimensions"])


@rule("squeeze")
def _squeeze(p, a):
    return np.squeeze(a, tuple(p["dimensions"]))


@rule("expand_dims")
def _expand(p, a):
    return np.expand_dims(a, tuple(p["dimensions"]))


@rule("broadcast_in_dim")
def _bcast(p, a, *dyn):
    shape = p["shape"]
    new = [1] * len(shape)
    for i, d in enumerate(p["broadcast_dimensions"]):
        new[d] = a.shape[i]
    return np.broadcast_to(a.reshape(new), shape)


@rule("slice")
def _slice(p, a):
    st = p["strides"] or (1,) * a.ndim
    return a[tuple(slice(b, e, s) for b, e, s in zip(p["start_indices"], p["limit_indices"], st))]


@rule("concatenate")
def _concat(p, *a):
    if any(is_sym(x) for x in a):
        a = [obj(x) for x in a]
    return np.concatenate(a, axis=p["dimension"])


@rule("split")
def _split(p, a):
    return np.split(a, np.cumsum(p["sizes"])[:-1], axis=p["axis"])


@rule("pad")
def _pad(p, a, v):
    cfg = p["padding_config"]
    a, v = obj(a), obj(v).reshape(())[()]
    shape = [lo + hi + max(n, 0) + max(n - 1, 0) * it for n, (lo, hi, it) in zip(a.shape, cfg)]
    out = np.empty([max(s, 0) for s in shape], dtype=object)
    out[...] = v
    src, dst = [], []
    for n, (lo, hi, it), m in zip(a.shape, cfg, out.shape):
        pos = [(i, lo + i * (it + 1)) for i in range(n)]
        pos = [(i, j) for i, j in pos if 0 <= j < m]
        src.append([i for i, _ in pos])
        dst.append([j for _, j in pos])
    if all(src) or a.ndim == 0:
        out[np.ix_(*dst)] = a[np.ix_(*src)]
    return out


@rule("gather")
def _gather(p, a, idx):
    if is_sym(idx):
        raise Unsupported("gather with symbolic indices")
    dn = p["dimension_numbers"]
    ss = p["slice_sizes"]
    # jnp.take along one axis
    if (
        len(dn.start_index_map) == 1
        and dn.collapsed_slice_dims == dn.start_index_map
        and not dn.operand_batching_dims
        and idx.shape[-1] == 1
    ):
        ax = dn.start_index_map[0]
        if all(ss[d] == a.shape[d] for d in range(a.ndim) if d != ax) and ss[ax] == 1:
            ii = idx[..., 0]
            if ii.size == 0 or (ii.min() >= 0 and ii.max() < a.shape[ax]):
                r = np.take(a, ii, axis=ax)  # index dims at position ax
                nb = ii.ndim
                batch = [d for d in range(r.ndim) if d not in dn.offset_dims]
                perm = [None] * r.ndim
                off = [d for d in range(r.ndim) if not ax <= d < ax + nb]
                for o, s in zip(dn.offset_dims, off):
                    perm[o] = s
                for o, s in zip(batch, range(ax, ax + nb)):
                    perm[o] = s
                return r.transpose(perm)
    return _by_index("gather", p, [a], [idx])


@rule("dynamic_slice")
def _dynslice(p, a, *st):
    if any(is_sym(s) for s in st):
        raise Unsupported("dynamic_slice with symbolic start")
    sl = []
    for n, m, s in zip(a.shape, p["slice_sizes"], st):
        s = min(max(int(s), 0), n - m)
        sl.append(slice(s, s + m))
    return a[tuple(sl)]


@rule("dynamic_update_slice")
def _dynupd(p, a, u, *st):
    if any(is_sym(s) for s in st):
        raise Unsupported("dynamic_update_slice with symbolic start")
    a = obj(a).copy()
    sl = []
    for n, m, s in zip(a.shape, u.shape, st):
        s = min(max(int(s), 0), n - m)
        sl.append(slice(s, s + m))
    a[tuple(sl)] = u
    return a


def _by_index(name, params, syms, rest):
    """Run a data-movement primitive on element numbers, then replay it on the elements."""
    prim = getattr(lax, name + "_p")
    ids, flat, off = [], [], 0
    for a in syms:
        ids.append(jnp.asarray(np.arange(off, off + a.size, dtype=np.int32).reshape(a.shape)))
        flat += list(obj(a).ravel())
        off += a.size
    params = dict(params)
    if "fill_value" in params:
        params["fill_value"] = -1
    out = np.asarray(prim.bind(*ids, *[jnp.asarray(r) for r in rest], **params))
    res = np.empty(out.shape, dtype=object)
    rf, of = res.reshape(-1), out.ravel()
    for i, k in enumerate(of):
        rf[i] = flat[k] if k >= 0 else float("nan")
    return res


def _scatter(combine):
    def f(p, a, idx, u):
        if is_sym(idx):
            raise Unsupported("scatter with symbolic indices")
        # where does every update element go: scatter its number onto an all -1 operand,
        # one update at a time (updates may collide)
        res = obj(a).copy()
        flat = res.reshape(-1)
        u = obj(u)
        dn = p["dimension_numbers"]
        nums = _scatter_targets(dn, a.shape, np.asarray(idx), u.shape, p["mode"])
        for pos, t in zip(np.ndindex(*u.shape), nums):
            if t is None:
                continue
            flat[t] = combine(flat[t], u[pos])
        return res

    return f


def _scatter_targets(dn, oshape, idx, ushape, mode):
    uw = dn.update_window_dims
    ins = dn.inserted_window_dims
    s2o = dn.scatter_dims_to_operand_dims
    if getattr(dn, "operand_batching_dims", ()):
        raise Unsupported("scatter batching dims")
    win = [d for d in range(len(oshape)) if d not in ins]
    # window size per operand dim
    size = [1] * len(oshape)
    for d, w in zip(win, uw):
        size[d] = ushape[w]
    for pos in np.ndindex(*ushape):
        bpos = tuple(pos[d] for d in range(len(ushape)) if d not in uw)
        start = [0] * len(oshape)
        for k, d in enumerate(s2o):
            start[d] = int(idx[bpos + (k,)])
        if any(not 0 <= start[d] <= oshape[d] - size[d] for d in range(len(oshape))):
            yield None  # FILL_OR_DROP; CLIP is not used by the code
            continue
        t = list(start)
        for d, w in zip(win, uw):
            t[d] += pos[w]
        yield int(np.ravel_multi_index(t, oshape))


RULES["scatter-add"] = RULES["scatter_add"] = _scatter(lambda a, b: _add(a, b))
RULES["scatter"] = _scatter(lambda a, b: b)


# ---- reductions
def _reduce(fn):
    def f(p, a):
        axes = tuple(p["axes"])
        a = obj(a)
        keep = [d for d in range(a.ndim) if d not in axes]
        b = a.transpose(keep + list(axes)).reshape([a.shape[d] for d in keep] + [int(np.prod([a.shape[d] for d in axes], dtype=int))])
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = fn(list(b[i]))
        return out

    return f


def _sum(vals):
    d = {}
    c = 0
    for v in vals:
        if isinstance(v, Poly):
            for m, k in v.d.items():
                d[m] = d.get(m, 0) + k
        else:
            c = c + _num(v)
    if isinstance(c, float):
        return c
    if c:
        d[()] = d.get((), 0) + c
    return Poly({m: k for m, k in d.items() if k != 0})


def _prod(vals):
    r = 1
    for v in vals:
        r = _mul(r, v)
    return r


def _fold(fn, init):
    def f(vals):
        r = init
        for v in vals:
            r = fn(r, v)
        return r

    return f


RULES["reduce_sum"] = _reduce(_sum)
RULES["reduce_max"] = _reduce(sym.smax)
RULES["reduce_min"] = _reduce(sym.smin)
RULES["reduce_prod"] = _reduce(_prod)
RULES["reduce_and"] = _reduce(_fold(sym.band, True))
RULES["reduce_or"] = _reduce(_fold(sym.bor, False))


@rule("cumsum")
def _cumsum(p, a):
    a = np.moveaxis(obj(a).copy(), p["axis"], 0)
    r = range(1, a.shape[0])
    if p["reverse"]:
        a = a[::-1]
    for i in r:
        a[i] = _map(_add, a[i], a[i - 1])
    if p["reverse"]:
        a = a[::-1]
    return np.moveaxis(a, 0, p["axis"])


@rule("dot_general")
def _dot(p, a, b):
    (lc, rc), (lb, rb) = p["dimension_numbers"]
    a, b = obj(a), obj(b)
    lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
    bs = [a.shape[d] for d in lb]
    A = a.transpose(list(lb) + lf + list(lc)).reshape(bs + [int(np.prod([a.shape[d] for d in lf], dtype=int)), int(np.prod([a.shape[d] for d in lc], dtype=int))])
    B = b.transpose(list(rb) + rf + list(rc)).reshape(bs + [int(np.prod([b.shape[d] for d in rf], dtype=int)), int(np.prod([b.shape[d] for d in rc], dtype=int))])
    out = np.empty(bs + [A.shape[-2], B.shape[-2]], dtype=object)
    for bi in np.ndindex(*bs):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-2]):
                out[bi + (i, j)] = _dotsum(A[bi + (i,)], B[bi + (j,)])
    return out.reshape(bs + [a.shape[d] for d in lf] + [b.shape[d] for d in rf])


def _dotsum(xs, ys):
    d = {}
    for x, y in zip(xs, ys):
        _acc(d, x, y)
    return Poly({m: k for m, k in d.items() if k != 0})


def _acc(d, x, y):
    px, py = isinstance(x, Poly), isinstance(y, Poly)
    if px and py:
        if len(x.d) == 1 and len(y.d) == 1:
            ((m1, c1),) = x.d.items()
            ((m2, c2),) = y.d.items()
            if len(m1) == 1 and len(m2) == 1:
                a, b = m1[0], m2[0]
                m = (a, b) if a <= b else (b, a)
            else:
                m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + (c1 * c2)
            return
        for m, c in (x * y).d.items():
            d[m] = d.get(m, 0) + c
        return
    if not px and not py:
        v = _num(x) * _num(y)
        if isinstance(v, float):
            raise Unsupported("non-finite product")
        if v:
            d[()] = d.get((), 0) + v
        return
    if py:
        x, y = y, x
    c2 = _num(y)
    if isinstance(c2, float):
        raise Unsupported("non-finite product")
    if c2 == 0:
        return
    for m, c in x.d.items():
        d[m] = d.get(m, 0) + c * c2


def _zero(v):
    return not v.d if isinstance(v, Poly) else not isinstance(v, Bool) and v == 0


@rule("conv_general_dilated")
def _conv(p, lhs, rhs):
    dn = p["dimension_numbers"]
    if p["batch_group_count"] != 1:
        return _conv_batch_group(p, lhs, rhs)
    L = obj(lhs).transpose(dn.lhs_spec)  # N C spatial
    R = obj(rhs).transpose(dn.rhs_spec)  # O I spatial
    nd = L.ndim - 2
    fg = p["feature_group_count"]
    strides, pads = p["window_strides"], p["padding"]
    ld = p["lhs_dilation"] or (1,) * nd
    rd = p["rhs_dilation"] or (1,) * nd
    taps = []  # per axis: list over output position of [(lhs index, rhs index)]
    for ax in range(nd):
        n, k = L.shape[2 + ax], R.shape[2 + ax]
        nd_ = 0 if n == 0 else (n - 1) * ld[ax] + 1
        kd = (k - 1) * rd[ax] + 1
        lo, hi = pads[ax]
        m = max((nd_ + lo + hi - kd) // strides[ax] + 1, 0)
        per = []
        for o in range(m):
            t = []
            for j in range(k):
                q = o * strides[ax] + j * rd[ax] - lo
                if 0 <= q < nd_ and q % ld[ax] == 0:
                    t.append((q // ld[ax], j))
            per.append(t)
        taps.append(per)
    N, O = L.shape[0], R.shape[0]
    I = R.shape[1]
    if I * fg != L.shape[1] or O % fg:
        raise Unsupported("conv channel mismatch")
    out = np.empty((N, O) + tuple(len(t) for t in taps), dtype=object)
    og = O // fg
    finite = not any(isinstance(v, (float, np.floating)) and not np.isfinite(v) for v in R.ravel())
    for pos in itertools.product(*[range(len(t)) for t in taps]):
        combos = list(itertools.product(*[taps[a][pos[a]] for a in range(nd)]))
        lidx = [tuple(c[0] for c in cb) for cb in combos]
        ridx = [tuple(c[1] for c in cb) for cb in combos]
        for n in range(N):
            live = [
                [(c, k, v) for c in range(I) for k, li in enumerate(lidx) for v in [L[(n, g * I + c) + li]] if not (finite and _zero(v))]
                for g in range(fg)
            ]
            for o in range(O):
                g = o // og
                d = {}
                for c, k, v in live[g]:
                    _acc(d, v, R[(o, c) + ridx[k]])
                out[(n, o) + pos] = Poly({m: v for m, v in d.items() if v != 0})
    inv = np.argsort(dn.out_spec)
    return out.transpose(inv)


def _conv_batch_group(p, lhs, rhs):
    # used by gradients of grouped convolutions: split the batch, convolve group by group
    bg = p["batch_group_count"]
    dn = p["dimension_numbers"]
    q = dict(p, batch_group_count=1)
    ls = np.split(obj(lhs), bg, axis=dn.lhs_spec[0])
    rs = np.split(obj(rhs), bg, axis=dn.rhs_spec[0])
    outs = [_conv(q, a, b) for a, b in zip(ls, rs)]
    return np.concatenate(outs, axis=dn.out_spec[1])


def _window(fn):
    def f(p, a, *rest):
        return _reduce_window(obj(a), fn, p)

    return f


def _reduce_window(a, fn, p):
    wd, ws = p["window_dimensions"], p["window_strides"]
    pads = p["padding"]
    bd = p.get("base_dilation") or (1,) * a.ndim
    wdil = p.get("window_dilation") or (1,) * a.ndim
    taps = []
    for ax in range(a.ndim):
        n = a.shape[ax]
        nd_ = 0 if n == 0 else (n - 1) * bd[ax] + 1
        kd = (wd[ax] - 1) * wdil[ax] + 1
        lo, hi = pads[ax]
        m = max((nd_ + lo + hi - kd) // ws[ax] + 1, 0)
        per = []
        for o in range(m):
            t = []
            for j in range(wd[ax]):
                q = o * ws[ax] + j * wdil[ax] - lo
                if 0 <= q < nd_ and q % bd[ax] == 0:
                    t.append(q // bd[ax])
            per.append(t)
        taps.append(per)
    out = np.empty([len(t) for t in taps], dtype=object)
    for pos in np.ndindex(*out.shape):
        out[pos] = fn([a[i] for i in itertools.product(*[taps[x][pos[x]] for x in range(a.ndim)])])
    return out


RULES["reduce_window_max"] = _window(lambda v: sym.smax(v) if v else -np.inf)
RULES["reduce_window_min"] = _window(lambda v: sym.smin(v) if v else np.inf)
RULES["reduce_window_sum"] = _window(_sum)


@rule("argmax", "argmin", "sort", "top_k")
def _nope(p, *a):
    raise Unsupported("order-dependent primitive on symbolic values")


# ------------------------------------------------------------------ concrete evaluation
# numpy rules for the concrete case: used by the interpreter, and (speed only) to replace
# XLA compilation of every new shape while a layer is built
def _np_rules():
    r = {}

    def same(f):
        return lambda p, *a: f(*a)

    r["add"] = r["add_any"] = same(np.add)
    r["sub"] = same(np.subtract)
    r["mul"] = same(np.multiply)
    r["neg"] = same(np.negative)
    r["max"] = same(np.maximum)
    r["min"] = same(np.minimum)
    r["lt"], r["le"], r["gt"], r["ge"] = map(
        same, (np.less, np.less_equal, np.greater, np.greater_equal)
    )
    r["eq"], r["ne"] = same(np.equal), same(np.not_equal)
    r["and"], r["or"], r["not"], r["xor"] = map(
        same, (np.bitwise_and, np.bitwise_or, np.invert, np.bitwise_xor)
    )
    r["abs"] = same(np.abs)
    r["sign"] = same(np.sign)

    def div(p, a, b):
        if np.issubdtype(a.dtype, np.integer):
            if np.any(b == 0):
                raise Unsupported("integer division by zero")
            q = np.abs(a) // np.abs(b)
            return (np.sign(a) * np.sign(b) * q).astype(a.dtype)
        return np.divide(a, b)

    def rem(p, a, b):
        if np.issubdtype(a.dtype, np.integer) and np.any(b == 0):
            raise Unsupported("integer remainder by zero")
        return np.fmod(a, b)

    r["div"], r["rem"] = div, rem

    def conv(p, a):
        return a.astype(p["new_dtype"])

    r["convert_element_type"] = conv

    def sel(p, c, *cases):
        if len(cases) == 2:
            return np.where(c.astype(bool), cases[1], cases[0])
        return np.choose(c, cases)

    r["select_n"] = sel
    for n in "reshape transpose rev squeeze expand_dims broadcast_in_dim slice concatenate".split():
        r[n] = RULES[n]
    r["iota"] = lambda p: np.broadcast_to(
        np.arange(p["shape"][p["dimension"]], dtype=p["dtype"]).reshape(
            [-1 if i == p["dimension"] else 1 for i in range(len(p["shape"]))]
        ),
        p["shape"],
    )

    def red(f):
        return lambda p, a: f(a, axis=tuple(p["axes"]))

    r["reduce_sum"] = lambda p, a: np.sum(a, axis=tuple(p["axes"]), dtype=a.dtype)
    r["reduce_max"], r["reduce_min"] = red(np.max), red(np.min)
    r["reduce_and"], r["reduce_or"] = red(np.all), red(np.any)

    def pad(p, a, v):
        cfg = p["padding_config"]
        if any(it for _, _, it in cfg) or any(lo < 0 or hi < 0 for lo, hi, _ in cfg):
            raise NotImplementedError
        return np.pad(a, [(lo, hi) for lo, hi, _ in cfg], constant_values=v[()])

    r["pad"] = pad

    def gather(p, a, idx):
        dn, ss = p["dimension_numbers"], p["slice_sizes"]
        if not (
            len(dn.start_index_map) == 1
            and dn.collapsed_slice_dims == dn.start_index_map
            and not dn.operand_batching_dims
            and idx.shape[-1] == 1
        ):
            raise NotImplementedError
        ax = dn.start_index_map[0]
        ii = idx[..., 0]
        if not all(ss[d] == a.shape[d] for d in range(a.ndim) if d != ax) or ss[ax] != 1:
            raise NotImplementedError
        if ii.size and (ii.min() < 0 or ii.max() >= a.shape[ax]):
            raise NotImplementedError
        return _gather(p, a, idx)

    r["gather"] = gather
    r["dynamic_slice"] = RULES["dynamic_slice"]
    r["copy"] = r["copy_p"] = r["stop_gradient"] = lambda p, a: a
    return r


NP_RULES = _np_rules()


def eval_concrete(prim, params, vals):
    f = NP_RULES.get(prim.name)
    if f is not None:
        try:
            return np.asarray(f(params, *vals))
        except (NotImplementedError, Unsupported):
            pass
    out = prim.bind(*[jnp.asarray(v) for v in vals], **params)
    if prim.multiple_results:
        return [np.asarray(o) for o in out]
    return np.asarray(out)


_INSTALLED = []


def install_fast_eager():
    """Evaluate eager primitives on concrete arrays with numpy instead of compiling each new
    shape with XLA.  Speed only: checks cross-validate against plain JAX (see
    harness.validate) and every counterexample is replayed without it."""
    if _INSTALLED:
        return
    from jax._src import core as _core

    prims = set()
    for modname in ("lax", "slicing", "convolution", "windowed_reductions"):
        mod = __import__("jax._src.lax." + modname, fromlist=["x"])
        for v in vars(mod).values():
            if isinstance(v, _core.Primitive):
                prims.add(v)
    for prim in prims:
        f = NP_RULES.get(prim.name)
        if f is None or prim.multiple_results:
            continue
        orig = prim.impl

        def impl(*args, _f=f, _orig=orig, _prim=prim, **params):
            try:
                vals = [np.asarray(a) for a in args]
                out = np.asarray(_f(params, *vals))
            except (NotImplementedError, Unsupported):
                return _orig(*args, **params)
            aval, _ = _prim.abstract_eval(
                *[jcore.get_aval(a) if not isinstance(a, np.generic) else jcore.get_aval(a) for a in args],
                **params,
            )
            if out.shape != aval.shape or out.dtype != aval.dtype:
                return _orig(*args, **params)
            return jnp.asarray(np.array(out, order="C"))

        prim.def_impl(impl)
        _INSTALLED.append(prim)


# ------------------------------------------------------------------ interpreter
def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, jcore.Literal):
            return np.asarray(v.val)
        return env[v]

    def write(v, x):
        env[v] = x

    for v, c in zip(jaxpr.constvars, consts):
        write(v, to_np(c))
    for v, a in zip(jaxpr.invars, args):
        write(v, a)
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        params = eqn.params
        if eqn.primitive.name == "convert_element_type" and any(is_sym(v) for v in vals):
            params = dict(params, old_dtype=eqn.invars[0].aval.dtype)
        out = apply(eqn.primitive, params, vals)
        if not eqn.primitive.multiple_results:
            out = [out]
        for v, o in zip(eqn.outvars, out):
            if type(v).__name__ == "DropVar":
                continue
            if tuple(o.shape) != tuple(v.aval.shape):
                raise Unsupported(
                    "encoding of %s gave shape %s, jax says %s"
                    % (eqn.primitive.name, o.shape, v.aval.shape)
                )
            write(v, o)
    return [read(v) for v in jaxpr.outvars]


def _closed(cj, vals):
    if hasattr(cj, "consts"):
        return eval_jaxpr(cj.jaxpr, cj.consts, vals)
    return eval_jaxpr(cj, [], vals)


def apply(prim, params, vals):
    name = prim.name
    PRIMS_SEEN[name] = PRIMS_SEEN.get(name, 0) + 1
    if name in ("pjit", "closed_call", "core_call", "remat", "remat2", "checkpoint", "xla_call"):
        return _closed(params.get("jaxpr") or params.get("call_jaxpr"), vals)
    if name in ("custom_jvp_call", "custom_vjp_call"):
        return _closed(params["call_jaxpr"], vals)
    if name == "custom_vjp_call_jaxpr":
        return _closed(params["fun_jaxpr"], vals)
    if name == "cond":
        i = vals[0]
        if is_sym(i):
            i = i.reshape(())[()]
            if isinstance(i, (Poly, Bool)):
                raise Unsupported("cond on a symbolic predicate")
        return _closed(params["branches"][min(max(int(i), 0), len(params["branches"]) - 1)], vals[1:])
    if name == "scan":
        return _scan(params, vals)
    if name == "while":
        return _while(params, vals)
    if not any(is_sym(v) for v in vals):
        return eval_concrete(prim, params, vals)
    f = RULES.get(name)
    if f is None:
        raise Unsupported("primitive %s on symbolic values" % name)
    out = f(params, *vals)
    return out if prim.multiple_results else np.asarray(out)


def _scan(params, vals):
    nc, ncar = params["num_consts"], params["num_carry"]
    consts, carry, xs = vals[:nc], vals[nc : nc + ncar], vals[nc + ncar :]
    ys = []
    rng = range(params["length"])
    for i in reversed(rng) if params["reverse"] else rng:
        out = _closed(params["jaxpr"], consts + carry + [x[i] for x in xs])
        carry = out[:ncar]
        ys.append(out[ncar:])
    if params["reverse"]:
        ys.reverse()
    n = len(params["jaxpr"].jaxpr.outvars) - ncar
    return list(carry) + [np.stack([obj(y[k]) for y in ys]) for k in range(n)]


def _while(params, vals):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, state = vals[:cn], vals[cn : cn + bn], vals[cn + bn :]
    for _ in range(10000):
        (c,) = _closed(params["cond_jaxpr"], cc + state)
        if is_sym(c):
            c = c.reshape(())[()]
            if isinstance(c, (Poly, Bool)):
                raise Unsupported("while on a symbolic predicate")
        if not bool(c):
            return state
        state = _closed(params["body_jaxpr"], bc + state)
    raise Unsupported("while loop bound")


STAGING_ERRORS = (
    jax.errors.ConcretizationTypeError,
    jax.errors.TracerArrayConversionError,
    jax.errors.TracerIntegerConversionError,
    jax.errors.NonConcreteBooleanIndexError,
)


class Traced:
    """The jaxpr of a Python callable of tensors, ready to be executed on symbolic tensors."""

    def __init__(self, fn, shapes, dtype="float32", mode=None):
        """mode: "jit" (as inside of jit), "eager" (as outside of it), or else whatever works"""
        avals = [jax.ShapeDtypeStruct(tuple(s), dtype) for s in shapes]
        if mode == "eager":
            self._trace_eagerly(fn, avals)
            return
        try:
            self.closed, tree = jax.make_jaxpr(fn, return_shape=True)(*avals)
            self.tree = jax.tree_util.tree_structure(tree)
        except STAGING_ERRORS:
            if mode == "jit":
                raise
            self._trace_eagerly(fn, avals)

    def _trace_eagerly(self, fn, avals):
        """As outside of jit: what doesn't depend on the arguments is computed while tracing."""
        trees = []

        def flat(*args):
            leaves, tree = jax.tree_util.tree_flatten(fn(*args))
            trees.append(tree)
            return leaves

        pvals = [pe.PartialVal.unknown(jax.core.ShapedArray(a.shape, a.dtype)) for a in avals]
        jaxpr, _, consts = pe.trace_to_jaxpr_nounits(lu.wrap_init(flat), pvals, instantiate=True)
        self.closed, self.tree = jax.core.ClosedJaxpr(jaxpr, consts), trees[-1]

    def __call__(self, *args):
        out = eval_jaxpr(self.closed.jaxpr, self.closed.consts, [to_np(a) for a in args])
        return jax.tree_util.tree_unflatten(self.tree, out)

    def primitives(self):
        return [e.primitive.name for e in self.closed.jaxpr.eqns]
