"""Reference values of group layers, computed with plain Keras ops on independent transforms."""
import keras
import numpy as np

from lib import oracle
from lib.cfg import ORDER, Conf, tup
from lib.oracle import Violation


def pad_amounts(conf, n=None):
    """(before, after) zeros per spatial axis that the property promises in total."""
    out = []
    for m, k, s in zip(n or conf.n, conf.ke, conf.s):
        if conf.pad in ("valid", "same"):
            t = oracle.same_padding(m, k, s) if conf.pad == "same" else 0
            out.append((t // 2, t - t // 2))
        else:
            b, e = oracle.equiv_padding(m, k, s, conf.pad)
            out.append(((b + e) // 2, (b + e) // 2))
    return out


def expected_parameters(conf, layer):
    dom = 1 if conf.lift else ORDER[conf.domain]
    shape = conf.k + ((conf.F, dom * conf.C) if conf.transpose else (dom * conf.C, conf.F))
    want = [shape] + ([(conf.F,)] if conf.bias else [])
    got = [tuple(v.shape) for v in layer.trainable_variables]
    if got != want or len(layer.variables) != len(want):
        raise Violation("parameters of shape %s, expected %s" % (got, want))


def merged(conf, x):
    if conf.lift:
        return x
    return oracle.merge_group_axis(x, conf.group_axis, conf.channels_axis)


def transformed(conf, w, m):
    """Kernel transformed by the element with matrix m."""
    d = conf.d
    sp = tuple(range(d))
    if conf.transpose:
        w = np.swapaxes(w, -1, -2)  # (*spatial, in, out)
    if conf.lift:
        y = oracle.transform_kernel(w, m, None, sp)
    else:
        o = ORDER[conf.domain]
        w = w.reshape(w.shape[:d] + (o, w.shape[d] // o) + w.shape[d + 1 :])
        y = oracle.transform_kernel(w, m, conf.mats(conf.domain), sp, d)
        y = y.reshape(y.shape[:d] + (y.shape[d] * y.shape[d + 1],) + y.shape[d + 2 :])
    return np.swapaxes(y, -1, -2) if conf.transpose else y


def conv(conf, ctx, x, w, n=None):
    """Value of a (transposed) group convolution on signal x with weights w = [kernel, bias]."""
    xm = merged(conf, x)
    act = keras.activations.get(conf.c.get("act"))
    if conf.transpose:
        return _conv_transpose(conf, ctx, xm, w, act)
    xp = oracle.zero_pad(xm, pad_amounts(conf, n), conf.axes)
    outs = []
    for m in conf.mats(conf.acting):
        k = transformed(conf, np.asarray(w[0]), m)

        def f(t, kk, *b):
            y = keras.ops.conv(t, kk, strides=conf.s, padding="valid", data_format=conf.df, dilation_rate=conf.dil)
            return act(_bias(conf, y, b))

        outs.append(ctx.call(f, xp, k, *w[1:]))
    return np.stack(outs, axis=conf.group_axis)


def _bias(conf, y, b):
    if not b:
        return y
    if conf.first:
        return y + keras.ops.reshape(b[0], (1, -1) + (1,) * conf.d)
    return y + b[0]


def _conv_transpose(conf, ctx, xm, w, act):
    pads, built = [], []
    for m, k, s in zip(conf.n, conf.ke, conf.s):
        if conf.pad in ("valid", "same"):
            pads.append((0, 0))
        else:
            _, e = oracle.equiv_padding(m, k, s, conf.pad, True)
            pads.append(((e + 1) // 2, e // 2))
    xp = oracle.zero_pad(xm, pads, conf.axes)
    outs = []
    for m in conf.mats(conf.acting):
        k = transformed(conf, np.asarray(w[0]), m)

        def f(t, kk, *b):
            y = keras.ops.conv_transpose(
                t, kk, strides=conf.s, padding=conf.pad.removesuffix("_equiv"), data_format=conf.df,
                dilation_rate=conf.dil, output_padding=tup(conf.c["opad"], conf.d) if "opad" in conf.c else None,
            )
            return act(_bias(conf, y, b))

        outs.append(ctx.call(f, xp, k, *w[1:]))
    return np.stack(outs, axis=conf.group_axis)
