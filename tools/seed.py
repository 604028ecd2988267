#!/usr/bin/env python3
"""Make/verify planted bugs (development helper; no check uses it).
  seed.py verify ID...   in scratch copies: patch applies, stable tests pass, demo 0 on clean / nonzero with patch
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def verify(i):
    d = os.path.join(V, "seeded", i)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "tdho_coulomb*.npy"))
        dd = os.path.join(w, "demo")
        shutil.copytree(d, dd)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=os.path.join(w, "nb"), MPLBACKEND="Agg",
                   PYTHONPATH=r, OMP_NUM_THREADS="2", PYTHONHASHSEED="0")
        demo = lambda: subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=r, env=env, capture_output=True, text=True, timeout=300)
        a = demo()
        if a.returncode != 0:
            return i, "demo fails on clean tree: " + a.stdout[-500:] + a.stderr[-500:]
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return i, "patch does not apply: " + p.stderr
        shutil.rmtree(os.path.join(w, "nb"), ignore_errors=True)
        b = demo()
        if b.returncode == 0:
            return i, "demo passes with the patch"
        shutil.rmtree(os.path.join(w, "nb"), ignore_errors=True)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300", "--tb=line",
                            "-W", "ignore::DeprecationWarning"], cwd=r, env=env, capture_output=True, text=True)
        return i, "ok  tests: " + t.stdout.strip().splitlines()[-1] + " | " + "; ".join(
            l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:600] + " | demo: " + (b.stdout + b.stderr).strip()[-150:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(i):
    """apply to a copy, run the property's check on it with QV_REPO"""
    d = os.path.join(V, "seeded", i)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seedc_")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "tdho_coulomb*.npy"))
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, check=True)
        env = dict(os.environ, QV_REPO=r, QV_OUT=os.path.join(w, "out"))
        p = subprocess.run(["python3-vt", os.path.join(V, "check.py"), pid], capture_output=True, text=True, env=env)
        return i, "rc=%d %s" % (p.returncode, p.stdout.strip()[-300:] if p.returncode not in (0, 1) else p.stdout.strip()[-400:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
    f = {"verify": verify, "check": check}[sys.argv[1]]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(f, ids):
            print(i, m, flush=True)
