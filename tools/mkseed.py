"""helper to plant a bug: builds /verif/seeded/<id>/ from an edit and a demonstration, and validates it in a
scratch copy of /repo.   usage: mkseed.py SPEC.py [...]   SPEC defines ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO
(DEMO: python source, exits nonzero / raises when the property is broken)"""
import json, os, re, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right, nonzero otherwise
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
s="$(mktemp -d)"
trap 'rm -rf -- "$s"' EXIT
cd "$s" || exit 2
export PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
timeout 280 /opt/venv/bin/python -W ignore "$d/demo.py"
"""


def run_demo(folder, repo):
    p = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def tests(repo):
    sh = open("/opt/vp/test.sh").read().replace("/repo", repo)
    sh = sh.replace("${f#%s/}" % repo, "${f#%s/}" % repo)
    t = tempfile.mktemp(suffix=".sh")
    open(t, "w").write(sh)
    out = tempfile.mktemp(suffix=".json")
    subprocess.run(["bash", t, out], capture_output=True)
    r = json.load(open(out))
    os.remove(t), os.remove(out)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(r["passed"]))


for spec in sys.argv[1:]:
    if spec.startswith("--"):
        continue
    ns = {}
    exec(open(spec).read(), ns)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    repo = w + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    for path, old, new in ns["EDITS"]:
        f = os.path.join(repo, path)
        s = open(f).read()
        assert s.count(old) == 1, (ns["ID"], path, s.count(old), old)
        open(f, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
    # the changed lines have to be lines of the original repository
    d = os.path.join(here, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip())
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    rc1, o1 = run_demo(d, "/repo")
    rc2, o2 = run_demo(d, repo)
    # removed lines that do not exist in the base commit
    removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    files = {p for p, _, _ in ns["EDITS"]}
    base = "\n".join(subprocess.run(["git", "show", f"3baff7b:{p}"], cwd=repo, capture_output=True, text=True).stdout for p in files)
    notorig = [l for l in removed if l and l not in base]
    failed = tests(repo) if "--notest" not in sys.argv else None
    ok = rc1 == 0 and rc2 != 0 and not failed and removed and not notorig
    print(("OK  " if ok else "BAD ") + ns["ID"], ns["PROPERTY"], "clean rc", rc1, "bug rc", rc2, "tests failed", failed, "not original:", notorig, flush=True)
    if not ok:
        print("   clean:", o1, "\n   bug:", o2)
    shutil.rmtree(w)
