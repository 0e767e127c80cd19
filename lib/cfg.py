"""Layer configurations shared by the checks."""
import itertools
import random

import numpy as np

from lib import oracle
from lib.harness import Skip
from lib.oracle import Violation


def groups():
    from groco.groups import group_dict

    return group_dict


WALL = ["P1", "P2", "PMw", "PMh", "P2MM", "P4", "P4M"]
SPACE = ["Oh", "O", "D4h", "D4"]
ORDER = dict(P1=1, P2=2, PMw=2, PMh=2, P2MM=4, P4=4, P4M=8, Oh=48, O=24, D4h=16, D4=8)
# documented subgroup lattice
SUBS = {
    "P1": ["P1"],
    "P2": ["P2", "P1"],
    "PMw": ["PMw", "P1"],
    "PMh": ["PMh", "P1"],
    "P2MM": ["P2MM", "PMh", "PMw", "P1"],
    "P4": ["P4", "P2", "P1"],
    "P4M": ["P4M", "P4", "P2MM", "PMw", "PMh", "P2", "P1"],
    "Oh": ["Oh", "O", "D4h", "D4"],
    "O": ["O", "D4"],
    "D4h": ["D4h", "D4"],
    "D4": ["D4"],
}
SWAPS = {"P4", "P4M"}


def tup(v, d):
    return tuple(v) if isinstance(v, (list, tuple)) else (v,) * d


class Conf:
    """One layer configuration, its real layer(s), shapes and axes."""

    def __init__(self, c):
        from groco import layers

        self.c = c
        self.cls = getattr(layers, c["cls"])
        self.d = int(next(ch for ch in c["cls"] if ch in "123"))
        self.pool = "Pooling" in c["cls"]
        self.transpose = "Transpose" in c["cls"]
        self.group = groups()[c["group"]]
        self.sub = c.get("sub") or c["group"]
        self.df = c.get("df", "channels_last")
        self.first = self.df == "channels_first"
        self.lift = bool(c.get("lift"))
        self.n = tup(c["n"], self.d)
        self.k = tup(c["k"], self.d)
        s = c.get("s", None)
        if s is None:
            s = c["k"] if self.pool else 1
        self.s = tup(s, self.d)
        self.dil = tup(c.get("dil", 1), self.d)
        self.pad = c.get("pad", "valid_equiv")
        self.F, self.C, self.b = c.get("F", 1), c.get("C", 1), c.get("b", 1)
        self.bias = c.get("bias", True) and not self.pool
        self.domain = self.sub if self.transpose else c["group"]
        self.acting = c["group"] if self.transpose else self.sub
        self.axes = tuple(range(2, 2 + self.d)) if self.first else tuple(range(1, 1 + self.d))
        self.group_axis = self.d + 2 if self.first else self.d + 1
        self.channels_axis = 1 if self.first else self.d + 2  # of group signals
        self.ke = tuple((k - 1) * e + 1 for k, e in zip(self.k, self.dil))

    # ---- group data
    def mats(self, name):
        allm = oracle.matrices(self.group)
        if name is None:
            return None
        idx = [int(i) for i in self.group.subgroup[name]]
        if len(set(idx)) != ORDER[name]:
            raise Violation("subgroup %s of %s has %d elements" % (name, self.c["group"], len(set(idx))))
        return [allm[i] for i in idx]

    def in_shape(self, n=None):
        n = tuple(n or self.n)
        g = () if self.lift else (ORDER[self.domain],)
        if self.first:
            return (self.b, self.C) + n + g
        return (self.b,) + n + g + (self.C,)

    def expected_padding(self, n=None):
        """Per axis (built-in, extra), or None where impossible."""
        out = []
        for m, k, s in zip(n or self.n, self.ke, self.s):
            out.append(oracle.equiv_padding(m, k, s, self.pad, self.transpose))
        return out

    def kwargs(self, **over):
        c = self.c
        kw = dict(group=c["group"], padding=self.pad)
        if c.get("sub"):
            kw["subgroup"] = c["sub"]
        if "df" in c:
            kw["data_format"] = c["df"]
        arg = lambda v: tuple(v) if isinstance(v, list) else v  # noqa: E731
        if self.pool:
            kw["pool_size"] = arg(c["k"])
            if "s" in c:
                kw["strides"] = arg(c["s"])
        else:
            kw["kernel_size"] = arg(c["k"])
            kw["filters"] = self.F
            if "s" in c:
                kw["strides"] = arg(c["s"])
            if "dil" in c:
                kw["dilation_rate"] = arg(c["dil"])
            if "opad" in c:
                kw["output_padding"] = arg(c["opad"])
            if "act" in c:
                kw["activation"] = c["act"]
            if not self.bias:
                kw["use_bias"] = False
            if "groups" in c:
                kw["groups"] = c["groups"]
            kw["kernel_initializer"] = "zeros"
        if c.get("allow"):
            kw["allow_non_equivariance"] = True
        kw.update(over)
        return kw

    def make(self, **over):
        return self.cls(**self.kwargs(**over))

    def build(self, ctx, n=None, **over):
        with ctx.building():
            layer = self.make(**over)
            layer.build(self.in_shape(n))
        return layer

    def impossible(self, n=None):
        if self.pad in ("valid", "same"):
            return False
        return any(p is None for p in self.expected_padding(n))

    def build_or_skip(self, ctx, n=None, **over):
        """Builds; where no equivariant padding exists the documented ValueError is a skip."""
        try:
            return self.build(ctx, n, **over)
        except ValueError as e:
            if self.impossible(n):
                raise Skip("no equivariant padding exists")
            raise e

    def input(self, ctx):
        if not self.c.get("big"):
            return ctx.var("x", self.in_shape())
        axis = 1 if self.first else -1
        x = np.moveaxis(blank(ctx, self.in_shape()), axis, -1)
        x[..., -1:] = ctx.var("x", x[..., -1:].shape)
        return np.moveaxis(x, -1, axis)

    def weights(self, ctx, layer):
        out = []
        for i, v in enumerate(layer.trainable_variables):
            if i or not self.c.get("big"):
                out.append(ctx.var("w%d" % i, v.shape))
                continue
            # all zero but for the last channel (of every group element) and the first and last filter
            w = blank(ctx, v.shape)
            a = np.swapaxes(w, -1, -2) if self.transpose else w
            for name, f in (("first", 0), ("last", self.F - 1)):
                part = a[..., self.C - 1 :: self.C, f]
                a[..., self.C - 1 :: self.C, f] = ctx.var("w0" + name, part.shape)
            out.append(w)
        return out

    # ---- actions on inputs and outputs
    def act_in(self, x, m):
        if self.lift:
            return oracle.act_grid(x, m, self.axes)
        return oracle.act_group(x, m, self.mats(self.domain), self.axes, self.group_axis)

    def act_out(self, y, m):
        return oracle.act_group(y, m, self.mats(self.acting), self.axes, self.group_axis)

    def symmetry(self):
        """Matrices of the elements the layer should be equivariant to."""
        if self.lift:
            return self.mats(self.acting)
        return self.mats(self.sub)


def blank(ctx, shape):
    return np.zeros(tuple(int(n) for n in shape), dtype=object if ctx.symbolic else "float64")


def equivariance_sides(c, ctx, all_elements=False):
    conf = Conf(c)
    x = ctx.var("x", conf.in_shape())
    layer = conf.build_or_skip(ctx)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    mats = conf.symmetry()
    if all_elements:
        use = [i for i in range(len(mats)) if not (mats[i] == np.eye(conf.d)).all()]
    else:
        use = oracle.generators(mats)
    if y.ndim != conf.d + 3 or y.shape[conf.group_axis] != ORDER[conf.acting]:
        raise Violation("output shape %s has no group axis of size %d" % (y.shape, ORDER[conf.acting]))
    twin = False
    for i in use:
        m = mats[i]
        gx = conf.act_in(x, m)
        lay = layer
        if gx.shape != x.shape:
            lay = conf.build(ctx, [gx.shape[a] for a in conf.axes])
        lhs = ctx.layer(lay, w, gx)
        rhs = conf.act_out(y, m)
        yield "L(gx) vs gL(x), element %d of %s" % (i, conf.acting if conf.lift else conf.sub), lhs, rhs
        if not twin and ctx.symbolic and not (m == np.eye(conf.d)).all() and max(conf.n) > 1:
            twin = True
            yield "L(x) vs gL(x)", y, rhs, False


def pick(items, k, seed):
    rng = random.Random(seed)
    items = list(items)
    rng.shuffle(items)
    return items[:k]


def prod(*a):
    return itertools.product(*a)
