"""Concurrent calls of one layer do not disturb each other."""
import json

import numpy as np

from lib import solve, threads
from lib.cfg import Conf
from lib.grids import BOTH, uniq

EXPLAIN = (
    "One call of the real layer runs while every read and write of an attribute of the layer and the objects "
    "it holds is recorded, with the locks taken. One copy of the trace per thread becomes events at symbolic positions: z3 "
    "decides that in no interleaving of the accesses a read sees another value than in a call on its own, nor is "
    "the layer left changed. A counterexample order is forced on real threads. As a guard against vacuity, a layer that "
    "stores its input on itself during the call has to be refuted."
)
BOUNDS = (
    "2 threads (thorough 3) with different inputs, calling one built layer once each; all interleavings at the granularity "
    "of attribute accesses on the layer, its group transforms, padding and pooling layers; 2D and 3D layers of all kinds"
)
ENCODES = ["GroupConv*.call", "GroupConv*Transpose.call", "GroupPooling.call", "GlobalGroupPooling.call", "backup_and_restore"]
FAST = False


def cases(tier, seed):
    out = []
    for df in BOTH:
        for g, sub in [("P4M", "P4"), ("P4", "P4"), ("P1", "P1"), ("P2MM", "PMh")]:
            for cls in ("GroupConv2D", "GroupConv2DTranspose"):
                for lift in (0, 1):
                    out.append(dict(cls=cls, group=g, sub=sub, n=3, k=2, F=2, df=df, **({"lift": 1} if lift else {})))
                out.append(dict(cls=cls, group=g, sub=sub, n=3, k=2, F=2, df=df, bias=False, act="relu"))
            for cls in ("GroupMaxPooling2D", "GroupAveragePooling2D", "GroupMaxPooling1D"):
                out.append(dict(cls=cls, group=g, sub=sub, n=4, k=2, df=df))
        for cls in ("GroupConv3D", "GroupConv3DTranspose"):
            for lift in (0, 1):
                out.append(dict(cls=cls, group="D4", n=2, k=2, F=1, df=df, **({"lift": 1} if lift else {})))
        out.append(dict(cls="GroupAveragePooling3D", group="D4", n=2, k=2, df=df))
        out.append(dict(cls="GroupConv2D", group="P4", n=4, k=2, s=3, pad="same_equiv", df=df))
        for cls in ("GlobalGroupMaxPooling2D", "GlobalGroupAveragePooling3D"):
            out.append(dict(cls=cls, df=df, globally=1))
    if tier == "thorough":
        out += [dict(c, threads=3) for c in out]
    return uniq(out)


def make(case):
    rng = np.random.default_rng(5)
    if case.get("globally"):
        import groco.layers as L

        d = int(case["cls"][-2])
        shape = (1,) + (2,) * d + (4, 2) if case["df"] == "channels_last" else (1, 2) + (2,) * d + (4,)
        layer = getattr(L, case["cls"])(data_format=case["df"])
    else:
        conf = Conf({k: v for k, v in case.items() if k not in ("threads", "spoil")})
        shape = conf.in_shape()
        layer = conf.make()
    layer.build(shape)
    for v in layer.trainable_variables:
        v.assign(rng.integers(1, 90, v.shape).astype("float32"))
    xs = [rng.integers(-9, 10, shape).astype("float32") for _ in range(case.get("threads", 2))]
    return layer, xs


def trace(layer, xs):
    threads.LockPatch.install()
    np.asarray(layer(xs[0]))  # what only the first call does is not repeated
    logs, want = [], []
    for x in xs:
        log, before, after = threads.record(layer, lambda: want.append(np.asarray(layer(x))))
        logs.append(log)
    return logs, before, after, want


def spoiled(layer):
    """A twin whose call passes its input through an attribute."""
    cls = type(layer)

    class Twin(cls):
        def call(self, inputs):
            object.__setattr__(self, "dummy", None)
            self.kept = inputs
            return super().call(self.kept)

    Twin.__name__ = cls.__name__
    Twin.__module__ = cls.__module__
    object.__setattr__(layer, "__class__", Twin)


def decide(case):
    layer, xs = make(case)
    bad, info = threads.find(*trace(layer, xs)[:3])
    viol = []
    if bad:
        viol.append({"msg": bad["what"] + " after another thread wrote it", "values": {"order": bad["order"], "what": bad["what"]}})
    twin, _ = make(case)
    spoiled(twin)
    refuted, more = threads.find(*trace(twin, xs)[:3])
    if not refuted:
        raise solve.Inconclusive("the deliberately racy twin was not refuted")
    return viol, dict(info, claims=info["claims"] + more["claims"], twins=1, degenerate=0, elements=info["claims"])


def replay(case, values):
    layer, xs = make(case)
    _, before, after, want = trace(layer, xs)
    if not values.get("order"):
        return None
    got, final, hung = threads.enact(layer, [lambda x=x: np.asarray(layer(x)) for x in xs], values["order"])
    if hung:
        return "the calls do not return"
    for t, (g, w) in enumerate(zip(got, want)):
        if isinstance(g, Exception):
            return "the call of thread %d raised %s: %s" % (t, type(g).__name__, str(g)[:200])
        if g.shape != w.shape or not np.allclose(g, w, rtol=1e-4, atol=1e-3):
            return "the call of thread %d gives other values than on its own" % t
    for k in after:
        if before.get(k) == after[k] and final.get(k) != after[k]:
            return "%s is left changed" % k
    return None
