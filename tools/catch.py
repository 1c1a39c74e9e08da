"""Which checks catch which planted bugs: catch.py [--all] [--tier T] [--seed N] [id...]; writes nothing into /repo."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--all", action="store_true", help="run every check, not only the bug's own")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", default="1")
a = ap.parse_args()
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
bad = 0
for id in a.ids or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = os.path.join(HERE, "seeded", id)
    own = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch_")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        if subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy).returncode:
            print(id, "DOES NOT APPLY")
            continue
        hits = []
        for p in (props if a.all else [own]):
            r = subprocess.run([sys.executable, "check.py", "--property", p, "--tier", a.tier, "--seed", a.seed], cwd=HERE,
                               env=dict(os.environ, VP_SRC=os.path.join(copy, "src")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout.decode(errors="replace"):
                hits.append(p)
            elif r.returncode:
                hits.append(f"{p}(rc={r.returncode})")
        ok = own in hits
        bad += not ok
        print(id, own, "caught" if ok else "MISSED", " ".join(h for h in hits if h != own), flush=True)
    finally:
        shutil.rmtree(tmp)
print("missed:", bad)
