"""Run checks against the planted bugs: python3 tools/seeded.py [--all] [BUG...]

Applies each patch to a scratch copy of /repo, runs its property's check (--all: every check), reverts, and
notes in tools/seeded-results.json which checks reported a violation."""
import glob, json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, SCRATCH = "/tmp/seeded-repo", "/tmp/seeded-verif"
ENV = dict(os.environ, GROCO_REPO=REPO)
RES = os.path.join(ROOT, "tools", "seeded-results.json")


def sh(*c):
    return subprocess.run(c, capture_output=True, text=True, cwd=SCRATCH if os.path.isdir(SCRATCH) else ROOT, env=ENV)


def main():
    for src, dst in (("/repo", REPO), (ROOT, SCRATCH)):
        subprocess.run(["rm", "-rf", dst])
        subprocess.run(["cp", "-a", src, dst])
    sh("git", "-C", REPO, "checkout", "--", ".")
    args = sys.argv[1:]
    full = "--all" in args
    names = [a for a in args if a != "--all"] or sorted(os.path.basename(d) for d in glob.glob(ROOT + "/seeded/*"))
    every = [json.loads(x)["id"] for x in open(ROOT + "/properties.jsonl")]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    for n in names:
        assert sh("git", "-C", REPO, "status", "--porcelain").stdout == ""
        prop = json.load(open("%s/seeded/%s/meta.json" % (ROOT, n)))["property"]
        got = []
        try:
            assert sh("git", "-C", REPO, "apply", "%s/seeded/%s/patch.diff" % (ROOT, n)).returncode == 0
            for c in every if full else [prop]:
                r = sh("./check", c, "quick")
                if r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout:
                    got.append(c)
                elif r.returncode:
                    got.append(c + "?")
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        old = [] if full else [c for c in res.get(n, []) if c != prop]
        res[n] = sorted(set(old + got))
        print(n, prop, "caught" if prop in got else "MISSED", res[n], flush=True)
        json.dump(res, open(RES, "w"), indent=1, sort_keys=True)


main()
