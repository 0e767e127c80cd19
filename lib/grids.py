"""Grids of layer configurations, shared by several checks."""
from lib.cfg import SPACE, SUBS, WALL

PADS = ("valid_equiv", "same_equiv")
BOTH = ("channels_last", "channels_first")


def uniq(cases):
    import json

    seen, out = set(), []
    for c in cases:
        k = json.dumps({a: b for a, b in c.items() if a not in ("cost", "validate")}, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def fits(n, k, pad, dil=1):
    return pad.startswith("same") or n >= (k - 1) * dil + 1


def conv2d(lift, tier, name="GroupConv2D"):
    L = {"lift": 1} if lift else {}
    big = tier == "thorough"
    out = []

    def add(**c):
        d = {"cls": name}
        d.update(L)
        d.update({k: v for k, v in c.items() if v is not None})
        out.append(d)

    # every group and subgroup, both formats and paddings
    for g in WALL:
        for sub in SUBS[g]:
            for df in BOTH:
                for pad in PADS:
                    for n, k, s in [(4, 3, 1), (5, 3, 2), (5, 2, 3)] + ([(6, 3, 3), (7, 5, 2), (4, 4, 1)] if big else []):
                        add(group=g, sub=sub, n=n, k=k, s=s, pad=pad, df=df, C=2 if n == 4 else 1, F=1 if n == 4 else 2)
    # sizes, kernels, strides
    for g in ["P4M", "P4", "P2"] if big else ["P4"]:
        for n in range(1, 10 if big else 8):
            for k in range(1, 6 if big else 5):
                for s in range(1, 6 if big else 5):
                    for pad in PADS:
                        if fits(n, k, pad):
                            add(group=g, n=n, k=k, s=s, pad=pad)
    # anisotropic sizes, kernels and strides where the group allows them
    aniso = [([4, 5], [3, 2], [1, 2]), ([5, 3], [2, 3], [3, 1]), ([6, 4], 2, [2, 1]), ([3, 6], [1, 3], 3)]
    if big:
        aniso += [([7, 4], [4, 1], [3, 2]), ([5, 8], [2, 5], [2, 3]), ([2, 9], [2, 3], [1, 4])]
    for g in ["P2MM", "PMh", "PMw", "P2", "P1"]:
        for n, k, s in aniso:
            for pad in PADS:
                for df in BOTH:
                    if all(fits(a, b, pad) for a, b in zip(n, k if isinstance(k, list) else [k, k])):
                        add(group=g, n=n, k=k, s=s, pad=pad, df=df)
    # rectangular inputs for groups that rotate: the rotated input has another shape
    for g, sub in [("P4", None), ("P4M", None), ("P4M", "P4")]:
        for n, k, s in [([3, 4], 3, 1), ([5, 3], 2, 1), ([4, 7], 2, 3), ([3, 5], 3, 2)]:
            for pad in PADS:
                add(group=g, sub=sub, n=n, k=k, s=s, pad=pad)
    # dilation
    for g, sub in [("P4M", None), ("P4", "P2"), ("P2MM", "PMh")]:
        for n, k, dil in [(5, 2, 2), (5, 3, 2), (6, 2, 3), (4, 2, 2)]:
            for pad in PADS:
                for df in BOTH if big else BOTH[:1]:
                    if fits(n, k, pad, dil):
                        add(group=g, sub=sub, n=n, k=k, dil=dil, pad=pad, df=df)
    add(group="P2MM", n=[5, 6], k=[2, 3], dil=[3, 2], pad="same_equiv")
    add(group="PMh", n=[6, 5], k=2, dil=[1, 4], pad="same_equiv", df="channels_first")
    # features, batch, bias, activations
    for g, sub in [("P4M", "P4"), ("P4", None), ("P2MM", "PMw")]:
        for act in ["relu", "tanh"]:
            add(group=g, sub=sub, n=3, k=2, act=act, F=2, C=2)
            add(group=g, sub=sub, n=4, k=3, s=3, act=act, pad="same_equiv", df="channels_first")
        add(group=g, sub=sub, n=3, k=2, bias=False, F=2, C=2, b=2)
        add(group=g, sub=sub, n=3, k=3, bias=False, F=3, C=1, b=2, pad="same_equiv", df="channels_first")
        add(group=g, sub=sub, n=3, k=2, F=1, C=3, b=2)
    # built-in padding that happens to be equivariant
    for n, k, s, pad in [(5, 3, 2, "valid"), (4, 3, 1, "same"), (5, 3, 1, "valid"), (6, 4, 2, "same"), (7, 3, 2, "same")]:
        add(group="P4M", n=n, k=k, s=s, pad=pad)
        add(group="P4", n=n, k=k, s=s, pad=pad, df="channels_first", sub="P2")
    # equivariant padding, with not being equivariant allowed
    for n, k, s, pad in [(4, 2, 3, "valid_equiv"), (4, 2, 3, "same_equiv"), (5, 3, 3, "same_equiv")]:
        add(group="P4M", sub="P4", n=n, k=k, s=s, pad=pad, allow=1)
        add(group="P4", n=n, k=k, s=s, pad=pad, df="channels_first", allow=1)
    # defaults left out
    add(group="P4M", n=4, k=3)
    add(group="P4", n=5, k=2)
    return uniq(out)


def conv3d(lift, tier, name="GroupConv3D"):
    L = {"lift": 1} if lift else {}
    big = tier == "thorough"
    out = []

    def add(**c):
        d = {"cls": name}
        d.update(L)
        d.update({k: v for k, v in c.items() if v is not None})
        d["cost"] = {"Oh": 40, "O": 12, "D4h": 8, "D4": 4}[c["group"]]
        out.append(d)

    for g in SPACE:
        for sub in SUBS[g]:
            add(group=g, sub=sub, n=2, k=2)
            if not (g == "Oh" and sub == "Oh") or big or lift:
                add(group=g, sub=sub, n=3, k=2, s=2, pad="same_equiv")
    for df in BOTH:
        add(group="D4", n=3, k=3, pad="same_equiv", df=df)
        add(group="D4", n=4, k=2, s=3, df=df)
        add(group="D4h", sub="D4", n=3, k=2, s=3, df=df)
        add(group="O", sub="D4", n=2, k=2, s=1, df=df)
    if lift:
        for df in BOTH:
            add(group="Oh", n=3, k=3, s=1, pad="same_equiv", df=df)
            add(group="Oh", n=4, k=2, s=3, df=df)
            add(group="O", n=3, k=2, s=3, df=df)
    ks = [(n, k, s) for n in range(1, 5) for k in range(1, 4) for s in range(1, 4)]
    for n, k, s in ks:
        for pad in PADS:
            if fits(n, k, pad) and (big or (n + k + s) % 2 == 0):
                add(group="D4", n=n, k=k, s=s, pad=pad)
    # cuboids: depth (third axis) apart
    for g in ["D4", "D4h"]:
        add(group=g, n=[3, 3, 2], k=[2, 2, 1])
        add(group=g, n=[2, 2, 4], k=[1, 1, 3], s=[1, 1, 2], pad="same_equiv")
        add(group=g, n=[3, 3, 2], k=[3, 3, 2], s=[3, 3, 1], df="channels_first", pad="same_equiv")
        add(group=g, n=[2, 3, 2], k=2)
    add(group="O", sub="D4", n=[2, 3, 2], k=2)
    add(group="D4", n=3, k=2, dil=2)
    add(group="D4h", n=3, k=2, dil=2, pad="same_equiv", df="channels_first")
    add(group="D4", n=2, k=2, act="relu", F=2, C=2)
    add(group="D4", n=2, k=2, bias=False, b=2, C=2)
    add(group="D4h", sub="D4", n=2, k=2, F=2)
    if big:
        for g in ["D4h", "O"]:
            for n, k, s in [(3, 3, 1), (4, 2, 2), (4, 3, 3), (5, 3, 1)]:
                for pad in PADS:
                    add(group=g, n=n, k=k, s=s, pad=pad)
        add(group="Oh", n=3, k=3, pad="same_equiv")
        add(group="Oh", sub="O", n=3, k=3, pad="same_equiv")
        add(group="Oh", n=2, k=2, C=2, F=2)
    return uniq(out)


def transposed(tier, lift=None):
    """Documented scope: stride 1, or stride == kernel size with valid_equiv padding."""
    big = tier == "thorough"
    out = []

    def add(**c):
        c = {k: v for k, v in c.items() if v is not None}
        d = 3 if c["group"] in SPACE else 2
        c["cls"] = "GroupConv%dDTranspose" % d
        if d == 3:
            c["cost"] = {"Oh": 40, "O": 12, "D4h": 8, "D4": 4}[c["group"]]
        for l in (0, 1):
            if lift is None or l == lift:
                out.append(dict(c, lift=1) if l else dict(c))

    for g in WALL:
        for sub in SUBS[g]:
            for df in BOTH:
                add(group=g, sub=sub, n=3, k=3, s=1, pad="same_equiv", df=df, C=2)
                add(group=g, sub=sub, n=3, k=2, s=1, pad="valid_equiv", df=df, F=2)
                add(group=g, sub=sub, n=4, k=2, s=2, pad="valid_equiv", df=df)
                add(group=g, sub=sub, n=2, k=3, s=3, pad="valid_equiv", df=df)
    for g in ["P4", "P4M"] if big else ["P4"]:
        for n in range(1, 7 if big else 6):
            for k in range(1, 6 if big else 5):
                add(group=g, n=n, k=k, s=1, pad="valid_equiv")
                if k % 2:
                    add(group=g, n=n, k=k, s=1, pad="same_equiv")
                add(group=g, n=n, k=k, s=k, pad="valid_equiv")
    for g in ["P2MM", "PMh", "PMw", "P2", "P1"]:
        for df in BOTH:
            add(group=g, n=[3, 4], k=[2, 3], s=1, df=df)
            add(group=g, n=[4, 3], k=[2, 3], s=[2, 3], df=df)
            add(group=g, n=[2, 3], k=[3, 1], s=1, pad="same_equiv", df=df)
    for g, sub in [("P4", "P2"), ("P4M", "P4"), ("P2MM", None)]:
        add(group=g, sub=sub, n=2, k=2, act="relu", F=2, C=2)
        add(group=g, sub=sub, n=2, k=2, bias=False, b=2, C=2, F=2)
        add(group=g, sub=sub, n=2, k=3, bias=False, b=2, F=2, df="channels_first", s=3)
    for g in SPACE:
        for sub in SUBS[g]:
            if g != "Oh" or sub != "Oh" or big:
                add(group=g, sub=sub, n=2, k=2, s=1)
    for df in BOTH:
        add(group="D4", n=2, k=3, pad="same_equiv", df=df)
        add(group="D4", n=2, k=2, s=2, df=df)
        add(group="D4h", sub="D4", n=2, k=2, s=2, df=df)
        add(group="D4h", n=[2, 2, 3], k=[2, 2, 1], df=df)
    add(group="O", sub="D4", n=2, k=2, s=2)
    add(group="O", n=2, k=3, pad="same_equiv")
    return uniq(out)


def pooling(tier, kinds=("Max", "Average")):
    big = tier == "thorough"
    out = []

    def add(**c):
        c = {k: v for k, v in c.items() if v is not None}
        d = c.pop("d", None) or (3 if c["group"] in SPACE else 2)
        if d == 3:
            c["cost"] = {"Oh": 20, "O": 12, "D4h": 8, "D4": 4}.get(c["group"], 2)
        for kind in kinds:
            out.append(dict(c, cls="Group%sPooling%dD" % (kind, d)))

    for g in WALL:
        for sub in SUBS[g]:
            for df in BOTH:
                for pad in PADS:
                    add(group=g, sub=sub, n=5, k=2, pad=pad, df=df, C=2)
                    add(group=g, sub=sub, n=4, k=3, s=1, pad=pad, df=df)
                    add(group=g, sub=sub, n=6, k=3, s=2, pad=pad, df=df)
    for g in ["P4", "P4M"] if big else ["P4"]:
        for n in range(1, 9 if big else 8):
            for k in range(1, 6 if big else 5):
                for pad in PADS:
                    if fits(n, k, pad):
                        add(group=g, n=n, k=k, pad=pad, sub="P2" if (n + k) % 2 else None)
                        for s in range(1, 5 if big else 4):
                            add(group=g, n=n, k=k, s=s, pad=pad)
    aniso = [([4, 5], [3, 2], [1, 2]), ([5, 3], [2, 3], [3, 1]), ([6, 4], 2, [2, 1]), ([3, 6], [1, 3], None), ([5, 4], 3, [1, 3])]
    for g in ["P2MM", "PMh", "PMw", "P2", "P1"]:
        for n, k, s in aniso:
            for pad in PADS:
                for df in BOTH:
                    if all(fits(a, b, pad) for a, b in zip(n, k if isinstance(k, list) else [k, k])):
                        add(group=g, n=n, k=k, s=s, pad=pad, df=df)
    for g, sub in [("P4", None), ("P4M", "P4"), ("P4M", None)]:
        for n, k, s in [([3, 4], 3, 1), ([5, 3], 2, None), ([4, 7], 2, 3)]:
            for pad in PADS:
                add(group=g, sub=sub, n=n, k=k, s=s, pad=pad)
    for g in SPACE:
        for sub in SUBS[g]:
            add(group=g, sub=sub, n=2, k=2)
            for pad in PADS:
                if g != "Oh" or pad == "same_equiv":
                    add(group=g, sub=sub, n=3, k=2, pad=pad)
    for df in BOTH:
        for pad in PADS:
            add(group="D4", n=3, k=2, s=1, pad=pad, df=df)
            add(group="D4", n=4, k=2, s=3, pad=pad, df=df)
            add(group="D4h", sub="D4", n=4, k=3, pad=pad, df=df)
            add(group="D4", n=[3, 3, 2], k=[2, 2, 1], pad=pad, df=df)
            add(group="D4", n=[2, 2, 5], k=[1, 1, 2], pad=pad, df=df)
    if big:
        for g in ["D4h", "O"]:
            for n, k, s in [(3, 3, 1), (4, 2, 2), (4, 3, 3), (5, 3, None)]:
                for pad in PADS:
                    add(group=g, n=n, k=k, s=s, pad=pad)
    for n, k, s, pad in [(5, 3, 2, "valid"), (4, 3, 1, "same"), (4, 2, None, "valid"), (6, 3, None, "same"), (4, 2, None, "same")]:
        add(group="P4M", n=n, k=k, s=s, pad=pad)
        add(group="P4", n=n, k=k, s=s, pad=pad, df="channels_first", sub="P2")
    for n, k, s, pad in [(5, 2, None, "valid_equiv"), (4, 3, 1, "same_equiv"), (4, 2, 3, "valid_equiv")]:
        add(group="P4M", sub="P4", n=n, k=k, s=s, pad=pad, allow=1)
        add(group="P4", n=n, k=k, s=s, pad=pad, df="channels_first", allow=1)
    add(group="P4M", n=4, k=2)
    add(group="P4", sub="P2", n=4, k=2, b=2, C=2)
    return uniq(out)


def output_padding(lift=0):
    """Transposed convolutions whose output is enlarged, alike or differently per axis."""
    out = []
    L = {"lift": 1} if lift else {}
    for df in BOTH:
        for n, k, s, op, pad in [
            (2, 2, 2, 1, "valid"), (3, 3, 2, 1, "same"), (3, 3, 3, [1, 2], "valid_equiv"), ([2, 3], [2, 3], [2, 3], [1, 2], "valid"),
            (2, 3, 3, 2, "same"), (2, 2, 3, [2, 1], "same"), (3, 3, 3, 2, "valid_equiv"),
        ]:
            for g, sub in [("P4M", "P4"), ("P4", "P4"), ("P2MM", "PMh"), ("P1", "P1")]:
                if "P4" in g and not isinstance(k, int):
                    continue  # not a kernel this group acts on
                c = dict(L, cls="GroupConv2DTranspose", group=g, sub=sub, n=n, k=k, s=s, opad=op, pad=pad, df=df, F=2)
                out.append(c if pad.endswith("equiv") else dict(c, allow=1))
        for n, k, s, op in [(2, 2, 2, 1), (1, 2, 3, [1, 2, 1]), (2, [2, 2, 1], 2, [1, 1, 1])]:
            out.append(dict(L, cls="GroupConv3DTranspose", group="D4", n=n, k=k, s=s, opad=op, pad="valid", allow=1, df=df))
    return out
