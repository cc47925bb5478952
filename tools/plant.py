#!/usr/bin/env python3
"""Plant a bug: python3 tools/plant.py FILE.json|-   with
{"id","property","file","edits":[[old,new],...],"demo":python source (may use relative scratch dir),"needs","breaks","lang":"py"|"m"}
Builds seeded/<id>/, confirms in a scratch copy: demo passes before, fails after, existing tests pass."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

def run(spec, tests=True):
    d = tempfile.mkdtemp(prefix="plant"); R = d + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", R])
        files = spec.get("files") or [[spec["file"], spec["edits"]]]
        for f, edits in files:
            p = f"{R}/{f}"; s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1: print(spec["id"], f"edit matches {s.count(old)} times:", old); return False
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
        out = f"{V}/seeded/{spec['id']}"; os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        if spec.get("lang") == "m":
            open(out + "/demo.m", "w").write(spec["demo"])
            sh = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec octave-cli --no-init-file --no-history -q --eval "addpath(genpath(fullfile(pwd,\'matlab-src\'))); source(\'$D/demo.m\')" </dev/null\n'
        else:
            open(out + "/demo.py", "w").write(spec["demo"])
            sh = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n'
        open(out + "/demo.sh", "w").write(sh); os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        bad = subprocess.run([out + "/demo.sh"], cwd=R, capture_output=True, text=True)
        good = subprocess.run([out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        ok = good.returncode == 0 and bad.returncode != 0
        print(spec["id"], "demo unpatched", good.returncode, "patched", bad.returncode, (bad.stderr or bad.stdout).strip().splitlines()[-1:])
        if good.returncode: print(good.stderr[-800:])
        if ok and tests and spec.get("lang") != "m":
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--randomly-seed=1", "--randomly-dont-reorganize", "-n", "4", "--timeout=300",
                                "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml", "newt"], cwd=R, capture_output=True, text=True,
                               env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
            import xml.etree.ElementTree as ET
            failed = [f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(d + "/j.xml").getroot().iter("testcase") if c.find("failure") is not None or c.find("error") is not None]
            st = [f for f in failed if any(f.split("::")[-1] in b and f.split("::")[0].split(".")[2] in b for b in BASE)]
            print(spec["id"], "tests:", t.stdout.strip().splitlines()[-1], "stable failing:", st)
            ok = not st
        if not ok: shutil.rmtree(out)
        return ok
    finally: shutil.rmtree(d, True)

if __name__ == "__main__":
    x = json.load(sys.stdin if sys.argv[1] == "-" else open(sys.argv[1]))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex: r = list(ex.map(run, x if isinstance(x, list) else [x]))
    sys.exit(0 if all(r) else 1)
