"""Equivalent ways to specify a layer give the same layer."""
import numpy as np

from lib.cfg import ORDER, SPACE, SUBS, WALL, Conf, groups, tup
from lib import grids
from lib.grids import BOTH, uniq
from lib.oracle import Violation

EXPLAIN = (
    "Layers specified in equivalent ways are executed on the same symbolic input and weights; z3 decides that all of "
    "them give the outputs of the spelled-out specification, for all values."
)
BOUNDS = (
    "every named layer; every group by name and as object, subgroup left out, empty, or equal to the group; "
    "sizes, strides, dilation and pool sizes as int, tuple and list; every default left out or spelled out; "
    "capitalisation of the padding; 1D, 2D, 3D, both data formats; spatial sizes 2..6"
)


def cases(tier, seed):
    out = []
    for df in BOTH:
        for lift in (0, 1):
            L = {"lift": 1, "df": df} if lift else {"df": df}
            for g in WALL:
                for n, k, s, pad in [(4, 2, 1, "valid_equiv"), (5, 3, 2, "same_equiv"), (4, 3, 3, "valid_equiv")]:
                    base = dict(L, cls="GroupConv2D", group=g, n=n, k=k, s=s, pad=pad, C=2, F=2)
                    out.append(dict(base, way="named"))
                    out.append(dict(base, way="object"))
                for way in ("sub_same", "sub_empty", "sub_object"):
                    out.append(dict(L, cls="GroupConv2D", group=g, n=3, k=2, C=2, F=2, way=way))
                    out.append(dict(L, cls="GroupConv2DTranspose", group=g, n=3, k=2, C=2, F=2, way=way))
                out.append(dict(L, cls="GroupConv2DTranspose", group=g, n=3, k=2, C=2, F=2, way="object"))
                for sub in SUBS[g][1:]:
                    out.append(dict(L, cls="GroupConv2D", group=g, sub=sub, n=3, k=2, F=2, C=2, way="object"))
                    out.append(dict(L, cls="GroupConv2D", group=g, sub=sub, n=3, k=2, F=2, C=2, way="named"))
                    out.append(dict(L, cls="GroupConv2DTranspose", group=g, sub=sub, n=3, k=2, F=2, way="object"))
            for g in SPACE:
                c = {"Oh": 40, "O": 12, "D4h": 8, "D4": 4}[g]
                n = 2 if g != "Oh" or lift else 1
                for way in ("named", "object", "sub_same"):
                    out.append(dict(L, cls="GroupConv3D", group=g, n=n, k=n, way=way, cost=c))
                if g != "Oh" or lift:
                    out.append(dict(L, cls="GroupConv3DTranspose", group=g, n=1, k=2, way="object", cost=c))
                for sub in SUBS[g][1:]:
                    if g != "Oh" or lift:
                        out.append(dict(L, cls="GroupConv3D", group=g, sub=sub, n=2, k=2, way="named", cost=c))
            for g in ("P4M", "P2MM"):
                for way in ("tuple", "list", "mixed"):
                    for n, k, s, pad in [(5, 2, 1, "valid_equiv"), (5, 3, 2, "valid_equiv"), (6, 3, 3, "same_equiv"), (5, 2, 3, "same_equiv"), (4, 4, 1, "same_equiv")]:
                        out.append(dict(L, cls="GroupConv2D", group=g, n=n, k=k, s=s, pad=pad, F=2, way=way))
                    out.append(dict(L, cls="GroupConv2D", group=g, n=5, k=2, dil=2, pad="same_equiv", F=2, way=way))
                    out.append(dict(L, cls="GroupConv2D", group=g, n=5, k=3, dil=2, F=2, way=way))
                    out.append(dict(L, cls="GroupConv2DTranspose", group=g, n=3, k=2, s=1, F=2, way=way))
                    out.append(dict(L, cls="GroupConv2DTranspose", group=g, n=3, k=3, s=3, F=2, way=way))
                    out.append(dict(L, cls="GroupConv2DTranspose", group=g, n=4, k=3, s=1, pad="same_equiv", F=2, way=way))
                for way in ("defaults", "none", "upper"):
                    out.append(dict(L, cls="GroupConv2D", group=g, n=4, k=2, F=2, C=2, way=way))
                    out.append(dict(L, cls="GroupConv2D", group=g, n=4, k=3, F=2, C=2, way=way))
                    out.append(dict(L, cls="GroupConv2DTranspose", group=g, n=4, k=3, F=2, C=2, way=way))
                    out.append(dict(L, cls="GroupConv2D", group=g, n=5, k=2, s=3, pad="same_equiv", F=2, way=way))
            for way in ("tuple", "list", "mixed", "defaults", "none", "upper"):
                out.append(dict(L, cls="GroupConv3D", group="D4", n=3, k=2, s=1, pad="same_equiv", way=way, cost=4))
                out.append(dict(L, cls="GroupConv3D", group="D4", n=3, k=2, way=way, cost=4))
                out.append(dict(L, cls="GroupConv3DTranspose", group="D4", n=2, k=2, way=way, cost=4))
            for way in ("tuple", "list"):
                out.append(dict(L, cls="GroupConv2D", group="P2MM", n=[5, 6], k=[2, 3], s=[3, 1], pad="same_equiv", way=way))
                out.append(dict(L, cls="GroupConv2D", group="PMh", n=[5, 4], k=[3, 2], dil=[2, 1], pad="same_equiv", way=way))
                out.append(dict(L, cls="GroupConv2DTranspose", group="PMw", n=[4, 6], k=[2, 3], s=[2, 3], way=way))
                out.append(dict(L, cls="GroupConv3D", group="D4", n=[2, 2, 3], k=[2, 2, 1], s=[2, 2, 1], pad="same_equiv", way=way, cost=4))
        for kind in ("Max", "Average"):
            for d in (1, 2, 3):
                cls = "Group%sPooling%dD" % (kind, d)
                for g in WALL if d < 3 else ["D4", "D4h", "O"]:
                    for way in ("object", "sub_same", "sub_empty", "sub_object", "tuple", "list", "mixed", "defaults", "none", "upper", "pool2"):
                        for n, k, s, pad in [(4, 2, None, "valid_equiv"), (5, 2, 1, "same_equiv"), (5, 3, 2, "valid_equiv")]:
                            if d == 3 and (g != "D4" or n != 4) and way not in ("tuple", "defaults"):
                                continue
                            if way == "pool2" and (k != 2 or s):
                                continue
                            c = dict(cls=cls, group=g, n=n if d < 3 else n - 1, k=k, s=s, pad=pad, df=df, C=2 if d < 3 else 1, way=way)
                            out.append(c)
                for way in ("tuple", "list"):
                    if d == 2:
                        out.append(dict(cls=cls, group="P2MM", n=[4, 5], k=[2, 3], s=[1, 2], df=df, way=way))
                        out.append(dict(cls=cls, group="PMh", n=[4, 6], k=[2, 3], df=df, way=way))
    for c in out:
        if c.get("s", 1) is None:
            del c["s"]
    for i, c in enumerate(grids.output_padding(1)):
        out.append(dict(c, way=("tuple", "list", "mixed", "object", "defaults")[i % 5]))
    out = uniq(out)
    if tier != "thorough":
        out = [c for i, c in enumerate(out) if i % 2 == seed % 2 or c["way"] in ("named", "list", "pool2")]
    return out


def ways(conf, way):
    """(name, keyword arguments) of equivalent specifications; the first is spelled out."""
    from groco import groups as G

    c, d = conf.c, conf.d
    base = conf.kwargs()
    g = c["group"]
    size = "pool_size" if conf.pool else "kernel_size"
    both = lambda **kw: dict(base, **kw)  # noqa: E731
    if way == "object":
        yield "group as object", both(group=groups()[g])
        special = G.wallpaper_groups if g in WALL else G.space_groups
        if hasattr(special, g):
            yield "group from its module", both(group=getattr(special, g))
    elif way == "sub_same":
        yield "subgroup equal to the group", both(subgroup=g)
    elif way == "sub_empty":
        yield "empty subgroup", both(subgroup="")
    elif way == "sub_object":
        yield "group as object, subgroup by name", both(group=groups()[g], subgroup=g)
    elif way in ("tuple", "list", "mixed"):
        f, f2 = {"tuple": (tuple, tuple), "list": (list, list), "mixed": (list, tuple)}[way]
        kw = {size: f(tup(c["k"], d))}
        if "s" in c:
            kw["strides"] = f2(tup(c["s"], d))
        if "dil" in c:
            kw["dilation_rate"] = f2(tup(c["dil"], d))
        if "opad" in c:
            kw["output_padding"] = f2(tup(c["opad"], d))
        yield way + "s of sizes", both(**kw)
        for k, v in kw.items():
            yield "%s as %s" % (k, way), both(**{k: v})
    elif way == "defaults":
        kw = dict(base, allow_non_equivariance=False, subgroup="")
        if conf.pool:
            kw.setdefault("strides", base["pool_size"])
        else:
            kw.setdefault("strides", 1)
            kw.update(dilation_rate=1, use_bias=True, activation=None)
            if not conf.transpose:
                kw["groups"] = 1
        kw.setdefault("data_format", "channels_last")
        yield "defaults spelled out", kw
        if conf.pad == "valid_equiv":
            yield "padding left out", {k: v for k, v in base.items() if k != "padding"}
        if not conf.first:
            yield "data format left out", {k: v for k, v in base.items() if k != "data_format"}
    elif way == "none":
        if not conf.first:
            yield "data format None", both(data_format=None)
        if conf.pool and "s" not in c:
            yield "strides None", both(strides=None)
        if not conf.pool:
            yield "linear activation", both(activation="linear")
        yield "group by name", dict(base)
    elif way == "upper":
        yield "padding in capitals", both(padding=conf.pad.upper())
        yield "padding capitalised", both(padding=conf.pad.capitalize())
    elif way == "pool2":
        yield "pool size left out", {k: v for k, v in base.items() if k != "pool_size"}
    elif way == "named":
        yield "named layer", {k: v for k, v in base.items() if k != "group"}


def sides(case, ctx):
    from groco import layers

    conf = Conf(case)
    x = ctx.var("x", conf.in_shape())
    layer = conf.build_or_skip(ctx)
    w = conf.weights(ctx, layer)
    y = ctx.layer(layer, w, x)
    for label, kw in ways(conf, case["way"]):
        cls = getattr(layers, "%sConv%dD" % (case["group"], conf.d)) if case["way"] == "named" else conf.cls
        with ctx.building():
            other = cls(**kw)
            other.build(conf.in_shape())
        if [v.shape for v in other.trainable_variables] != [v.shape for v in layer.trainable_variables]:
            raise Violation("%s: other weights" % label)
        yield label, ctx.layer(other, w, x), y
    if ORDER[conf.acting] > 1:
        yield "entries rolled", y, np.roll(y, 1, axis=conf.group_axis), False
