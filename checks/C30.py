"""Transposed group convolutions are the adjoints of group convolutions."""
import numpy as np

from lib import oracle
from lib.cfg import Conf, ORDER, SPACE, SUBS, WALL
from lib.grids import BOTH, uniq
from lib.oracle import Violation

EXPLAIN = (
    "The jaxprs of a group convolution (to a subgroup) and of a transposed one (from that subgroup) are "
    "executed on symbolic signals x, y and one symbolic kernel, reflected by g -> g^-1 for the transposed "
    "layer with independent index arithmetic. z3 decides <y, L(x)> == <T(y), x>, a trilinear identity in all "
    "unknowns, for all values."
)
BOUNDS = (
    "all 2D groups x subgroups, 3D D4, D4h, O (thorough all); kernels 1..3 (thorough 4), strides 1..3, sizes 1..5, "
    "valid and (where Keras itself is adjoint) same padding, dilation 1..2, both formats, channels and filters <= 2"
)


def cases(tier, seed):
    big = tier == "thorough"
    out = []

    def add(**c):
        if c["group"] in SPACE:
            c["cost"] = {"Oh": 60, "O": 20, "D4h": 12, "D4": 6}[c["group"]]
        out.append({k: v for k, v in c.items() if v is not None})

    for g in WALL + SPACE:
        if g == "Oh" and not big:
            continue
        for sub in SUBS[g]:
            for df in BOTH:
                if g in SPACE:
                    if df == BOTH[0] or g in ("D4", "D4h"):
                        add(group=g, sub=sub, m=2, k=2, s=1, df=df)
                        if g == "D4" or big and g != "Oh":
                            add(group=g, sub=sub, m=2, k=2, s=2, df=df)
                else:
                    for m, k, s in [(2, 3, 1), (2, 2, 2), (2, 3, 2), (3, 2, 1)]:
                        add(group=g, sub=sub, m=m, k=k, s=s, df=df, C=2 if k == 2 else 1, F=2 if s == 2 else 1)
                    add(group=g, sub=sub, m=3, k=3, s=1, pad="same", df=df)
    for g in ["P4", "P4M"] if big else ["P4"]:
        for m in range(1, 5 if big else 4):
            for k in range(1, 5 if big else 4):
                for s in range(1, 4):
                    if k >= s:
                        add(group=g, m=m, k=k, s=s, C=1)
                    if k % 2 == s % 2 and m * s + k > 1:
                        add(group=g, m=m, k=k, s=s, C=1, pad="same")
    for g in ["P2MM", "PMh", "PMw", "P2", "P1"]:
        for df in BOTH:
            add(group=g, m=[2, 3], k=[3, 2], s=[1, 2], df=df)
            add(group=g, m=[3, 1], k=[1, 3], s=[1, 3], df=df)
    for g, sub in [("P4", "P2"), ("P4M", "P4"), ("P2MM", "PMh")]:
        add(group=g, sub=sub, m=2, k=2, s=1, dil=2)
        add(group=g, sub=sub, m=2, k=2, s=1, dil=2, df=BOTH[1], C=2)
    return uniq(out)


def sides(case, ctx):
    d = 3 if case["group"] in SPACE else 2
    k, s, m = case["k"], case["s"], case["m"]
    tup = lambda v: tuple(v) if isinstance(v, list) else (v,) * d  # noqa: E731
    pad = case.get("pad", "valid")
    dil = case.get("dil", 1)
    if pad == "same":
        n = [a * b for a, b in zip(tup(m), tup(s))]
    else:
        n = [(a - 1) * b + (c - 1) * dil + 1 for a, b, c in zip(tup(m), tup(s), tup(k))]
    F, C = case.get("F", 1), case.get("C", 1)
    base = dict(group=case["group"], sub=case["sub"], k=k, s=s, pad=pad, allow=1, bias=False) if case.get("sub") else dict(
        group=case["group"], k=k, s=s, pad=pad, allow=1, bias=False
    )
    if "df" in case:
        base["df"] = case["df"]
    if dil > 1:
        base["dil"] = dil
    fwd = Conf(dict(base, cls="GroupConv%dD" % d, n=n, C=C, F=F))
    back = Conf(dict(base, cls="GroupConv%dDTranspose" % d, n=list(tup(m)), C=F, F=C))
    x, y = ctx.var("x", fwd.in_shape()), ctx.var("y", back.in_shape())
    L, T = fwd.build(ctx), back.build(ctx)
    dom, sub = fwd.mats(case["group"]), fwd.mats(fwd.sub)
    w = ctx.var("w", tuple(tup(k)) + (len(sub), C, F))  # on the subgroup
    full = []
    for g in dom:
        i = oracle.index_of(g, sub)
        full.append(0 * w[..., 0, :, :] if i is None else w[..., i, :, :])
    kernel = np.stack(full, axis=d)
    kernel = kernel.reshape(kernel.shape[:d] + (len(dom) * C, F))
    refl = []
    for u in sub:
        i = oracle.index_of(oracle.inv(u), sub)
        refl.append(oracle.act_grid(w[..., i, :, :], u, range(d)))
    v = np.stack(refl, axis=-1)  # (*spatial, C, F, sub)
    v = np.moveaxis(v, -1, d + 1)
    v = v.reshape(v.shape[: d + 1] + (len(sub) * F,))
    for lay, kk in ((L, kernel), (T, v)):
        got = tuple(lay.trainable_variables[0].shape)
        if got != kk.shape:
            raise Violation("kernel of shape %s, expected %s" % (got, kk.shape))
    Lx, Ty = ctx.layer(L, [kernel], x), ctx.layer(T, [v], y)
    if Lx.shape != y.shape or Ty.shape != x.shape:
        raise Violation("shapes %s -> %s and %s -> %s are not adjoint" % (x.shape, Lx.shape, y.shape, Ty.shape))
    total_l, total_t = (y * Lx), (Ty * x)
    axes = tuple(a for a in range(y.ndim))
    yield "<y, L(x)> against <T(y), x>", np.asarray(total_l.sum(axis=axes)), np.asarray(total_t.sum(axis=axes))
    yield "twice", np.asarray(total_l.sum(axis=axes)), np.asarray(2 * total_t.sum(axis=axes)), False
