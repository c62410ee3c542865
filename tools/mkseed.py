"""python3 tools/mkseed.py [--test] [--check] [id ...] : (re)creates seeded/<id>/ from tools/seeds.py and verifies each in a scratch copy of /repo.
Kept out of the checks: no check reads seeded/ or this folder."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds

DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
cd "${REPO_DIR:-$PWD}"
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg NUMBA_CACHE_DIR="$tmp" PYTHONPATH="$PWD/src" PYTHONWARNINGS=ignore timeout 280 /opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$tmp"
exit $rc
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env, timeout=timeout)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    test, check = "--test" in sys.argv, "--check" in sys.argv
    for s in seeds.SEEDS:
        if args and s["id"] not in args:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed_")
        repo = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {repo}")
        sh("git checkout -- . && git clean -fdq", cwd=repo)
        msg = s["id"]
        for f, old, new in s["edits"]:
            p = os.path.join(repo, "src/py_eddy_tracker", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT DOES NOT APPLY", f, t.count(old))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh("git diff", cwd=repo).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
            r1 = sh(f"bash {d}/demo.sh", cwd=repo)
            msg += f" demo: clean={r0.returncode} patched={r1.returncode}"
            if r0.returncode:
                msg += "\n" + r0.stdout[-300:] + r0.stderr[-800:]
            if not r1.returncode:
                msg += "  !!! DEMO PASSES WITH PATCH"
            if test:
                r = sh(f"sed 's#/repo#{repo}#g' /opt/vp/test.sh > {tmp}/t.sh; sed 's#/repo#{repo}#g' /opt/vp/env.sh > {tmp}/env.sh; cd {repo} && PYTHONPATH={repo}/src NUMBA_CACHE_DIR={tmp}/nb /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -3", cwd=repo)
                msg += " tests: " + r.stdout.strip().splitlines()[-1] if r.stdout.strip() else " tests: ?"
            if check:
                env = dict(os.environ, VERIF_REPO=repo)
                for c in [s["property"]] + s.get("also", []):
                    r = sh(f"python3-vt -m vc.check {c}", cwd=VERIF, env=env)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    det = [l for l in r.stdout.splitlines() if "violated:" in l or "not proved:" in l]
                    msg += f"\n   check {c}: rc={r.returncode} {v} {det}"
        print(msg, flush=True)
        shutil.rmtree(tmp, ignore_errors=True)


main()
