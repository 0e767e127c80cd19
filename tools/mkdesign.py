"""Refresh the generated parts of DESIGN.md: per-property table, findings, planted bugs."""
import ast, glob, json, os, re, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)


def put(s, mark, text):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (mark, mark), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)


def main():
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    out = []
    for p in props:
        i = p["id"]
        t = ast.parse(open(os.path.join(ROOT, "checks", i + ".py")).read())
        ev = os.path.join(ROOT, "evidence", i + ".json")
        cost = ""
        if os.path.exists(ev):
            e = json.load(open(ev))
            if e["tier"] == "quick" and not e["violations"]:
                cost = " Quick: about %d s, %d queries." % (round(e["wall_s"], -1) or 10, round(e["coverage"]["solver_queries"], -1))
        ex, bo = const(t, "EXPLAIN"), const(t, "BOUNDS")
        out.append("**%s %s.** %s\nBounds: %s.%s\n\n" % (i, p["title"], ex or const_of("C07", "EXPLAIN"), (bo or const_of("C07", "BOUNDS")).rstrip("."), cost))
    s = put(s, "table", "".join(out))
    kf = [x.strip() for x in open(os.path.join(ROOT, "known-findings.txt")) if not x.startswith("#")]
    s = put(s, "fixed", "".join("* %s\n" % x[7:].replace("property=", "") for x in kf if x.startswith("fixed:")))
    s = put(s, "findings", "".join("* %s: %s\n" % (re.search(r"property=(\S+)", x).group(1), x.split(" :: ")[1]) for x in kf if x.startswith("finding:")))
    rows = ["| bug | property | needs | caught by |\n|---|---|---|---|\n"]
    rp = os.path.join(ROOT, "tools", "seeded-results.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        rows.append("| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], ", ".join(res.get(n, [])) or "-"))
    s = put(s, "seeded", "".join(rows))
    open(path, "w").write(s)


def const_of(i, name):
    return const(ast.parse(open(os.path.join(ROOT, "checks", i + ".py")).read()), name)


main()
