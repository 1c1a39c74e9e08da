"""Confirms planted bugs and writes them to seeded/: plant.py SPECS.py [id...]

SPECS.py defines BUGS, a list of dicts: id, property, edits [(file below src/dynamicprompts, old, new)], demo (python),
needs, what. A bug is kept only if it applies, the repository's tests pass with it, and the demo passes without and
fails with it. Everything happens in a scratch copy of /repo.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(BASE.get("passed") or BASE.get("stable") or BASE) if isinstance(BASE, dict) else set(BASE)
DEMO = '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, src, timeout=300):
    env = dict(os.environ, PYTHONPATH=src, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HF_HUB_OFFLINE="1")
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(bug):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        for f, old, new in bug["edits"]:
            p = os.path.join(copy, "src/dynamicprompts", f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug, f"edit matches {s.count(old)} times in {f}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, stdout=subprocess.PIPE, check=True).stdout
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # only lines of the original repository may be needed: report when none of the removed lines is original
        rc, out = run(["bash", os.path.join(d, "demo.sh")], "/repo", "/repo/src", 120)
        if rc:
            return bug, "demo fails on the unchanged tree:\n" + out[-1500:]
        rc, out = run(["bash", os.path.join(d, "demo.sh")], copy, os.path.join(copy, "src"), 120)
        if not rc:
            return bug, "demo passes with the bug"
        x = os.path.join(tmp, "j.xml")
        rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", f"--junitxml={x}", "tests"], copy,
                      os.path.join(copy, "src"))
        if rc:
            return bug, "tests fail: " + " ".join(l for l in out.splitlines() if l.startswith(("FAILED", "ERROR")))[:600]
        dest = os.path.join(HERE, "seeded", bug["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        return bug, None
    finally:
        shutil.rmtree(tmp)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for bug, err in ex.map(one, bugs):
            print(f"{bug['id']}: {'kept' if err is None else err}", flush=True)


main()
