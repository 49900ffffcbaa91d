"""python3 tools/seed.py ID: build /verif/seeded/ID from a spec file /tmp/seeds/ID.py (variables: prop, needs, breaks, edits=[(file, old, new)], demo=python source).
Confirms in a scratch copy that the demo passes without / fails with the patch and, with --tests, that the stable tests still pass."""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def run_demo(repo, d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return sh("bash %s/demo.sh" % d, repo, env=env, timeout=300)


def main(i, spec="/tmp/seeds"):
    s = runpy.run_path("%s/%s.py" % (spec, i))
    scratch = "/tmp/seedscratch/" + i
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    repo = scratch + "/repo"
    sh("git -C /repo worktree prune; cp -a /repo %s" % repo, "/")
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["demo"].strip("\n") + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONWARNINGS=ignore MPLBACKEND=Agg\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\ncd "$t" && /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = run_demo(repo, d)
    for f, old, new in s["edits"]:
        p = repo + "/" + f
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", repo).stdout
    open(d + "/patch.diff", "w").write(diff)
    r1 = run_demo(repo, d)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(i, "demo clean=%d patched=%d" % (r0.returncode, r1.returncode), "OK" if ok else "BAD", (r0.stderr[-600:] if r0.returncode else ""), r1.stderr.strip().split("\n")[-1][:200])
    shutil.rmtree(scratch, ignore_errors=True)
    return ok


if __name__ == "__main__":
    for x in sys.argv[1:]:
        main(x)
