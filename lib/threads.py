"""Interleavings of concurrent calls, decided by z3 over the attribute accesses of the real code.

A call of the real layer runs once on its own while every read and write of an attribute of the
layer (and of the objects it holds) is recorded, and every lock the code takes.  Copies of that trace,
one per thread, become events with integer positions: z3 looks for an order, over all
interleavings, in which some read sees another value than it does when the call runs alone, or
in which other values are left behind.  Up to the first such read every thread behaves as recorded.
"""
import threading
import time
import types

import numpy as np
import z3

from lib import solve

_RealLock, _RealRLock = threading.Lock, threading.RLock


class Recorder:
    """Hooks attribute accesses on chosen objects by giving them an instrumented class."""

    def __init__(self, roots, package="groco"):
        self.names = {}
        self.hook = None
        self.classes = []
        work = [("layer", roots)]
        while work:
            name, obj = work.pop()
            if id(obj) in self.names or not hasattr(obj, "__dict__"):
                continue
            self.names[id(obj)] = (name, obj)
            for key, val in list(vars(obj).items()):
                mod = type(val).__module__
                if mod.startswith(package) or (mod.startswith("keras") and ".layers." in mod and hasattr(val, "call")):
                    work.append((name + "." + key, val))

    def __enter__(self):
        me = self
        made = {}
        for name, obj in self.names.values():
            cls = type(obj)
            if cls not in made:

                def get(self, key, _base=cls):
                    val = _base.__getattribute__(self, key)
                    if id(self) in me.names and not callable(getattr(type(self), key, None)):
                        if key == "__dict__":
                            me.event("dict", self, key, None)
                            val = _base.__getattribute__(self, key)
                        elif not key.startswith("__"):
                            me.event("read", self, key, val)
                            val = _base.__getattribute__(self, key)
                    return val

                def put(self, key, val, _base=cls):
                    if id(self) in me.names:
                        me.event("write", self, key, val)
                    _base.__setattr__(self, key, val)
                    if id(self) in me.names:
                        me.after(self, key)

                made[cls] = type(cls.__name__, (cls,), {"__getattribute__": get, "__setattr__": put, "__module__": cls.__module__})
            self.classes.append((obj, cls))
            object.__setattr__(obj, "__class__", made[cls])
        return self

    def __exit__(self, *exc):
        for obj, cls in self.classes:
            object.__setattr__(obj, "__class__", cls)
        self.classes = []

    def label(self, obj, key):
        return self.names[id(obj)][0] + "." + key

    def event(self, kind, obj, key, val):
        if self.hook:
            self.hook(kind, self.label(obj, key), val, obj)

    def after(self, obj, key):
        if self.hook and hasattr(self.hook, "after"):
            self.hook.after()


class LockPatch:
    """Locks that groco's modules create announce themselves."""

    watch = None

    class Lock:
        def __init__(self, inner):
            self.inner = inner

        def acquire(self, *a, **k):
            if LockPatch.watch:
                LockPatch.watch("acquire", self)
            return self.inner.acquire(*a, **k)

        def release(self):
            self.inner.release()
            if LockPatch.watch:
                LockPatch.watch("release", self)

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *exc):
            self.release()

    @classmethod
    def install(cls):
        """Wraps the locks found in groco's modules and classes."""
        import sys

        kinds = (type(_RealLock()), type(_RealRLock()))
        seen = {}

        def wrap(v):
            return seen.setdefault(id(v), cls.Lock(v))

        for m in list(sys.modules.values()):
            if not getattr(m, "__name__", "").startswith("groco"):
                continue
            for k, v in list(vars(m).items()):
                if isinstance(v, kinds):
                    setattr(m, k, wrap(v))
                elif isinstance(v, type) and v.__module__.startswith("groco"):
                    for kk, vv in list(vars(v).items()):
                        if isinstance(vv, kinds):
                            setattr(v, kk, wrap(vv))
                elif isinstance(v, types.FunctionType):
                    for cell in v.__closure__ or ():
                        if isinstance(cell.cell_contents, kinds):
                            cell.cell_contents = wrap(cell.cell_contents)


def digest(v):
    """Values are compared by content, objects by identity."""
    try:
        a = np.asarray(v)
        if a.dtype != object:
            return ("array", a.dtype.str, a.shape, a.tobytes())
    except Exception:
        pass
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(digest(x) for x in v)
    if isinstance(v, (str, int, float, type(None), bool)):
        return ("plain", v)
    return ("object", id(v))


def record(layer, run):
    """The events of one call: (kind, variable, value digest)."""
    log = []
    me = threading.get_ident()
    with Recorder(layer) as rec:

        def hook(kind, label, val, obj):
            if threading.get_ident() == me:
                log.append((kind, label, None if kind == "dict" else digest(val)))

        def lock(kind, which):
            if threading.get_ident() == me:
                log.append((kind, "lock%d" % id(which), None))

        before = state(rec)
        rec.hook, LockPatch.watch = hook, lock
        try:
            run()
        finally:
            rec.hook = LockPatch.watch = None
        after = state(rec)
    return log, before, after


def state(rec):
    out = {}
    for name, obj in rec.names.values():
        for k, v in object.__getattribute__(obj, "__dict__").items():
            out[name + "." + k] = digest(v)
    return out


def relevant(logs, before):
    """Only variables some thread writes, and locks; reads of a whole __dict__ read them all."""
    written = {v for log in logs for k, v, _ in log if k == "write"}
    out = []
    for log in logs:
        ev = []
        cur = {v: before.get(v) for v in written}
        for kind, var, val in log:
            if kind == "write":
                cur[var] = val
                ev.append((kind, var, val))
            elif kind == "read" and var in written:
                ev.append((kind, var, val))
            elif kind == "dict":
                prefix = var[: -len("__dict__")]
                for v in sorted(written):
                    if v.startswith(prefix) and "." not in v[len(prefix):]:
                        ev.append(("read", v, cur[v]))
            elif kind in ("acquire", "release"):
                ev.append((kind, var, None))
        out.append(ev)
    return out, written


def find(logs, before, after):
    """z3: an interleaving in which a read or the final state differs from the calls on their own.

    Returns None, or a description with the order of events."""
    ev, written = relevant(logs, before)
    s = z3.SolverFor("QF_LIA")
    s.set("random_seed", 0)
    s.set("timeout", 120000)
    pos = [[z3.Int("p%d_%d" % (t, i)) for i in range(len(e))] for t, e in enumerate(ev)]
    flat = [(t, i) for t, e in enumerate(ev) for i in range(len(e))]
    n = len(flat)
    for t in range(len(ev)):
        for i in range(len(ev[t])):
            s.add(pos[t][i] >= 0, pos[t][i] < n)
            if i:
                s.add(pos[t][i - 1] < pos[t][i])
    if n:
        s.add(z3.Distinct(*[pos[t][i] for t, i in flat]))
    # critical sections of one lock exclude each other
    sections = []
    for t, e in enumerate(ev):
        depth, start = {}, {}
        for i, (kind, var, _) in enumerate(e):
            if kind == "acquire":
                if depth.get(var, 0) == 0:
                    start[var] = i
                depth[var] = depth.get(var, 0) + 1
            elif kind == "release":
                depth[var] -= 1
                if depth[var] == 0:
                    sections.append((var, t, start[var], i))
    for a in range(len(sections)):
        for b in range(a):
            (v, t, i, j), (w, u, k, l) = sections[a], sections[b]
            if v == w and t != u:
                s.add(z3.Or(pos[t][j] < pos[u][k], pos[u][l] < pos[t][i]))
    classes = {}

    def cls(d):
        return classes.setdefault(d, len(classes))

    writes = {v: [(t, i) for t, i in flat if ev[t][i][0] == "write" and ev[t][i][1] == v] for v in written}

    def wrong(v, t, i, expect):
        """The value of v at this point (None: at the end) is another one."""
        here = pos[t][i] if t is not None else z3.IntVal(n)
        ws = [w for w in writes[v] if w != (t, i)]
        out = []
        for w in ws:
            if cls(ev[w[0]][w[1]][2]) == cls(expect):
                continue
            p = pos[w[0]][w[1]]
            out.append(z3.And(p < here, *[z3.Or(pos[x][y] <= p, pos[x][y] >= here) for x, y in ws if (x, y) != w]))
        if cls(before.get(v)) != cls(expect):
            out.append(z3.And(*[pos[x][y] >= here for x, y in ws]))
        return z3.Or(*out)

    claims = []
    for t, i in flat:
        kind, v, val = ev[t][i]
        if kind == "read":
            claims.append(("thread %d reads %s" % (t, v), wrong(v, t, i, val)))
    for v in sorted(written):
        if cls(before.get(v)) != cls(after.get(v)):
            continue  # a single call changes it as well: another property
        claims.append(("%s is left changed" % v, wrong(v, None, None, after.get(v))))
    info = {"events": n, "claims": len(claims), "variables": len(written), "locks": len(sections)}
    s.add(z3.Or(*[c for _, c in claims]))
    r = solve._check(s)
    if r == z3.unsat:
        return None, info
    if r != z3.sat:
        raise solve.Inconclusive("z3: %s" % r)
    m = s.model()
    order = sorted(flat, key=lambda x: m[pos[x[0]][x[1]]].as_long())
    bad = [name for name, c in claims if z3.is_true(m.eval(c, model_completion=True))]
    return {"what": bad[0], "order": [[t, ev[t][i][0], ev[t][i][1]] for t, i in order]}, info


def enact(layer, runs, order):
    """Runs the real calls in real threads, their accesses in the given order.  Returns results."""
    cond = threading.Condition()
    at = [0]
    todo = [tuple(o) for o in order]
    variables = {v for _, _, v in todo}
    ids = {}
    stop = [False]
    results = [None] * len(runs)

    def turn(kind, var):
        t = ids.get(threading.get_ident())
        if t is None:
            return
        with cond:
            if stop[0] or not any(x[0] == t and x[1:] == (kind, var) for x in todo[at[0]:]):
                return
            end = time.time() + 10
            while not stop[0] and at[0] < len(todo) and todo[at[0]] != (t, kind, var):
                if todo[at[0]][0] == t or time.time() > end:
                    # this thread does something else than recorded: let everything run
                    stop[0] = True
                    break
                cond.wait(0.2)
            if at[0] < len(todo) and not stop[0]:
                at[0] += 1
            cond.notify_all()

    with Recorder(layer) as rec:

        def hook(kind, label, val, obj):
            if kind == "dict":
                prefix = label[: -len("__dict__")]
                for v in sorted(variables):
                    if v.startswith(prefix) and "." not in v[len(prefix):]:
                        turn("read", v)
            elif label in variables:
                turn(kind, label)

        def lock(kind, which):
            pass

        rec.hook = hook

        def work(t):
            ids[threading.get_ident()] = t
            try:
                results[t] = runs[t]()
            except Exception as e:
                results[t] = e
            with cond:
                # whatever is left of this thread's events does not come
                todo[at[0]:] = [x for x in todo[at[0]:] if x[0] != t]
                cond.notify_all()

        threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(runs))]
        for th in threads:
            th.start()
        for th in threads:
            th.join(60)
        rec.hook = None
        hung = any(th.is_alive() for th in threads)
        final = state(rec)
    return results, final, hung
