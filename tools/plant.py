"""development helper: write one planted bug directory from an edit.  plant(id, prop, [(file, old, new)], demo_py, needs, breaks)"""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(i, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        r = os.path.join(w, "r")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
export NUMBA_CACHE_DIR=$tmp/nb PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
cp "$here/demo.py" "$tmp/demo.py"
/opt/venv/bin/python "$tmp/demo.py"
""")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(i, len(diff.splitlines()))
