"""Mutation campaign: python3 tools/mutate.py OUT.json [SEED [COUNT]]

Makes single-node mutants of groco in scratch copies, keeps those that pass the repository's tests, and runs
the checks on these until one reports a violation. Survivors of both are listed for reading: they are
harmless (the property holds) or show what no check looks at."""
import ast, json, os, random, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = """utils/misc.py utils/tensor_manips.py utils/equivariance.py groups/group.py groups/wallpaper_groups.py
groups/space_groups.py layers/group_transforms.py layers/padding.py layers/pooling.py layers/conv2d.py
layers/conv2d_transpose.py layers/conv3d.py layers/conv3d_transpose.py""".split()
CHECKS = dict(
    misc="C17 C33 C34 C32", tensor_manips="C20 C37 C18", equivariance="C21 C35", group="C05 C06 C35 C36 C02 C37",
    wallpaper_groups="C02 C01 C03 C04 C35", space_groups="C02 C01 C03 C04 C35",
    group_transforms="C10 C26 C12 C19 C23 C31 C18 C29 C16 C34 C17 C24", padding="C14 C15 C18 C19 C23 C32 C24 C16",
    pooling="C12 C13 C18 C19 C32 C23 C31 C16 C24", conv2d="C10 C18 C19 C31 C17 C23 C32 C24", conv2d_transpose="C26 C18 C19 C31 C17 C32",
    conv3d="C10 C18 C19 C31 C17 C32", conv3d_transpose="C26 C18 C19 C31 C17 C32",
)
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv, ast.Mult]}
NAMES = {"max": "mean", "mean": "max", "height_axis": "width_axis", "width_axis": "height_axis", "domain_group": "acting_group",
         "acting_group": "domain_group", "group": "subgroup", "subgroup": "group", "zeros_like": "ones_like", "zeros": "ones",
         "channels_axis": "group_axis", "group_axis": "new_group_axis", "merged_axis": "target_axis", "layer_signal": "signal",
         "kernel_sizes": "strides", "extra_padding": "total_padding", "total_padding": "extra_padding", "absolute": "negative",
         "composition": "inverses", "cosets": "subgroup", "bias": "kernel", "domain_group_order": "acting_group_order",
         "target_group": "domain_group", "rows": "columns", "floor": "ceil"}


def sites(tree):
    """(node id, description, function changing the node in place) for every mutant."""
    doc = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module))
           and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    table = set()
    for n in ast.walk(tree):  # the tables of the groups are for C01-C04 and too many
        if isinstance(n, ast.List) and len(n.elts) > 3:
            table.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Dict):
            table.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or isinstance(n, ast.Assert):
            table.update(id(m) for m in ast.walk(n.msg if isinstance(n, ast.Assert) and n.msg else n) if not isinstance(n, ast.Assert) or n.msg)
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in table or id(n) in doc:
            continue
        def add(what, f, i=i, n=n):
            out.append((i, getattr(n, "lineno", 0), what, f))
        if isinstance(n, ast.Compare):
            for op in CMP.get(type(n.ops[0]), []):
                add(op.__name__, lambda m, op=op: m.ops.__setitem__(0, op()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for op in BIN.get(type(n.op), []):
                add(op.__name__, lambda m, op=op: setattr(m, "op", op()))
        elif isinstance(n, ast.BoolOp):
            add("and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add("flip", lambda m: setattr(m, "value", not m.value))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                add("%+d" % d, lambda m, d=d: setattr(m, "value", m.value + d))
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            k = "id" if isinstance(n, ast.Name) else "attr"
            if getattr(n, k) in NAMES:
                add("to " + NAMES[getattr(n, k)], lambda m, k=k: setattr(m, k, NAMES[getattr(m, k)]))
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not isinstance(n.func, ast.Name):
                add("swap arguments", lambda m: m.args.reverse())
            for j, kw in enumerate(n.keywords):
                if kw.arg:
                    add("without " + kw.arg, lambda m, j=j: m.keywords.pop(j))
        if isinstance(n, (ast.If, ast.IfExp)):
            add("never", lambda m: setattr(m, "test", ast.Constant(False)))
            add("always", lambda m: setattr(m, "test", ast.Constant(True)))
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Assert)) or (
                        isinstance(s, ast.Expr) and id(s.value) not in doc
                    ):
                        out.append((i, s.lineno, "drop " + ast.unparse(s)[:50], lambda m, f=field, j=j: getattr(m, f).__setitem__(j, ast.Pass())))
    return out


def env(repo):
    return dict(os.environ, GROCO_REPO=repo, PYTHONPATH=repo, KERAS_BACKEND="jax", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def main():
    out, seed, count = sys.argv[1], int((sys.argv[2:] or [0])[0]), int((sys.argv[3:] or [100])[0])
    workers = int(os.environ.get("WORKERS", "6"))
    todo = []
    for f in FILES:
        tree = ast.parse(open("/repo/groco/" + f).read())
        todo += [(f, k) + s[:3] for k, s in enumerate(sites(tree))]
    random.Random(seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    todo, res, lock, free = todo[:count], [], Lock(), list(range(workers))
    for w in free:
        subprocess.run(["rm", "-rf", "/tmp/mut%d" % w, "/tmp/mutv%d" % w])
        subprocess.run(["cp", "-a", "/repo", "/tmp/mut%d" % w])
        subprocess.run(["cp", "-a", ROOT, "/tmp/mutv%d" % w])

    def one(m):
        f, k, _, line, what = m
        with lock:
            w = free.pop()
        repo, verif = "/tmp/mut%d" % w, "/tmp/mutv%d" % w
        path = "%s/groco/%s" % (repo, f)
        src = open("/repo/groco/" + f).read()
        tree = ast.parse(src)
        i, _, _, fn = sites(tree)[k]
        fn(list(ast.walk(tree))[i])
        verdict = "tests"
        try:
            open(path, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")
            t = subprocess.run(["timeout", "600", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                               cwd=repo, env=env(repo), capture_output=True, text=True)
            if t.returncode == 0:
                verdict, name = "SURVIVES", os.path.basename(f)[:-3]
                first = CHECKS[name].split()
                if os.environ.get("FULL"):
                    first += [c for c in ("C%02d" % j for j in range(1, 38)) if c not in first]
                for c in first:
                    r = subprocess.run(["timeout", "900", "./check", c, "quick"], cwd=verif, env=env(repo), capture_output=True, text=True)
                    if r.returncode == 1:
                        verdict = c
                        break
                    if r.returncode:
                        verdict = "SURVIVES (%s gives %d)" % (c, r.returncode)
        finally:
            open(path, "w").write(src)
            with lock:
                free.append(w)
                res.append(dict(file=f, line=line, what=what, verdict=verdict))
                if verdict != "tests":
                    print(f, line, what, "->", verdict, flush=True)
                json.dump(res, open(out, "w"), indent=1)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, todo))
    print(len(res), {v: sum(r["verdict"] == v for r in res) for v in {r["verdict"] for r in res}})


main()
