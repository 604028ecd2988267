#!/usr/bin/env python3
"""Decide one property: python3-vt check.py <id> [quick|thorough].   See DESIGN.md."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("QV_REPO", "/repo")
OUT = os.environ.get("QV_OUT", HERE)      # development only: where evidence/ and replays/ go
REALPY = os.environ.get("QV_PYTHON", "/opt/venv/bin/python")

TRUSTED = [
    "CPython executes the instrumented AST of /repo's files with its own semantics (qverify/loader.py: loops, "
    "comprehensions, displays and f-strings are routed through the verifier; nothing is dropped)",
    "the loop rule and the value/heap model of qverify/engine.py",
    "the term normaliser of qverify/terms.py and qverify/logic.py (exact Gaussian-rational polynomial algebra); "
    "z3 discharges every integer/real side condition",
    "assumed contracts of NumPy and other libraries: qverify/npmodel.py, qverify/libmodel.py "
    "(NumPy part cross-checked against real NumPy by tools/selftest.py)",
    "floating-point arithmetic is treated as exact real/complex arithmetic; machine integers as unbounded",
]


def sym_worker(args):
    mod, name, keep = args
    if keep:
        os.environ["QV_KEEP_SMT"] = "1"
    from qverify import engine as en
    t0 = time.time()
    en.init()
    from qverify import libmodel, loader, symctx, logic
    logic.KEEP_LOG = keep
    out = {"case": name, "done": 0, "names": {}, "failed": [], "unsupported": [], "paths": 0, "live": 0, "called": []}
    try:
        L = loader.Loader(libmodel.all_models(), REPO)
        L.load("quantum_systems")
        m = importlib.import_module("contracts." + mod)
        case = [c for c in m.K.cases if c.name == name][0]
        r = symctx.run_case(L, case)
        out.update(done=r.done, names=r.names, failed=r.failed, unsupported=r.unsupported, paths=r.paths,
                   live=r.live_paths, called=r.called)
    except BaseException as e:
        import traceback
        out["unsupported"].append({"why": "%s: %s" % (type(e).__name__, e), "choices": {},
                                   "tb": "".join(traceback.format_tb(e.__traceback__)[-8:])})
    out["wall"] = time.time() - t0
    out["queries"] = logic.STATS["queries"]
    out["qtime"] = logic.STATS["time"]
    out["unknown"] = logic.STATS["unknown"]
    if keep:
        out["smt"] = logic.STATS["unsat_log"]
    return out


def run_symbolic(mod, cases, limit, keep):
    """one process per case, at most 8 at a time, each with its own time limit"""
    ctxm = mp.get_context("fork")
    res = {}
    pend = list(cases)
    live = []
    deadline = time.time() + limit
    while pend or live:
        while pend and len(live) < 8:
            c = pend.pop(0)
            a, b = ctxm.Pipe(False)

            def tgt(conn, c=c):
                try:
                    conn.send(sym_worker((mod, c, keep)))
                except BaseException as e:     # e.g. memory
                    try:
                        conn.send({"case": c, "crash": repr(e)})
                    except BaseException:
                        pass
                conn.close()
                os._exit(0)
            p = ctxm.Process(target=tgt, args=(b,))
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        for it in list(live):
            c, p, a, t0 = it
            got = None
            if a.poll(0.05):
                try:
                    got = a.recv()
                except EOFError:
                    got = {"case": c, "crash": "verifier process died"}
            elif time.time() > deadline:
                got = {"case": c, "crash": "verifier time limit of %d s" % limit}
            if got is not None:
                p.kill()
                p.join()
                live.remove(it)
                if "crash" in got:
                    got = {"case": c, "done": 0, "names": {}, "failed": [], "paths": 0, "live": 0, "called": [],
                           "unsupported": [{"why": got["crash"], "choices": {}, "tb": ""}], "wall": time.time() - t0,
                           "queries": 0, "qtime": 0.0, "unknown": 0}
                res[c] = got
    return res


def run_concrete(mod, specs, seed, budget):
    d = tempfile.mkdtemp(prefix="qv_")
    try:
        job = os.path.join(d, "job.json")
        outp = os.path.join(d, "out.json")
        with open(job, "w") as f:
            json.dump({"repo": REPO, "module": mod, "cases": specs, "seed": seed, "budget": budget}, f)
        env = dict(os.environ)
        env.update(NUMBA_CACHE_DIR=os.path.join(d, "numba"), PYTHONDONTWRITEBYTECODE="1", HOME=d,
                   OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", NUMBA_NUM_THREADS="2")
        env.pop("PYTHONPATH", None)
        script = os.path.join(HERE, "qverify", "conrun.py")
        # a copy of the runner in the scratch directory: sys.path[0] (where the code under test stores its
        # cache files) is then the scratch directory
        with open(os.path.join(d, "conrun.py"), "w") as f:
            src = open(script).read().replace(
                'os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")', repr(HERE))
            f.write(src)
        p = subprocess.run([REALPY, os.path.join(d, "conrun.py"), job, outp], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 120)
        if not os.path.exists(outp):
            return {"cases": {}, "failures": [], "error": p.stdout[-4000:]}
        return json.load(open(outp))
    except subprocess.TimeoutExpired:
        return {"cases": {}, "failures": [], "error": "concrete run timed out"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cvc5_recheck(smts, limit=200.0):
    """re-discharge a sample of the z3 queries with cvc5"""
    ok = bad = unk = 0
    t0 = time.time()
    seen = set()
    for s in smts:
        if s in seen:
            continue
        seen.add(s)
        if time.time() - t0 > limit:
            break
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + s + "\n(check-sat)\n")
        try:
            p = subprocess.run(["cvc5", "--tlimit=5000", f.name], capture_output=True, text=True, timeout=20)
            r = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else "error"
        except Exception:
            r = "error"
        os.unlink(f.name)
        if r == "unsat":
            ok += 1
        elif r == "sat":
            bad += 1
        else:
            unk += 1
    return {"unsat": ok, "sat": bad, "unknown_or_error": unk, "distinct": len(seen), "wall_s": time.time() - t0}


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = pid.lower()
    m = importlib.import_module("contracts." + mod)
    cases = [c.name for c in m.K.cases]
    keep = tier == "thorough"
    limit = 500 if tier == "quick" else 3000
    sym = run_symbolic(mod, [c.name for c in m.K.cases if not getattr(c, "bounded", False)], limit, keep)
    specs = {}
    for c in m.K.cases:
        r = sym.get(c.name)
        sp = {"mult": 1 if tier == "quick" else 12}
        if r is not None and (r["failed"] or r["unsupported"] or r["done"] == 0 or r["live"] == 0):
            sp = {"mult": 40, "maxfail": 1,
                  "hints": [{"model": f.get("model"), "choices": f.get("choices")}
                            for f in r["failed"][:6] + r["unsupported"][:3]]}
        specs[c.name] = sp
    con = run_concrete(mod, specs, seed, 120 if tier == "quick" else 900)
    known = [k for k in load_known()["findings"] if k["property"] == pid and k.get("status") == "open"]

    obligations = sum(r["done"] + len(r["failed"]) + len(r["unsupported"]) for r in sym.values())
    discharged = sum(r["done"] for r in sym.values())
    viol = []
    hit_known = []
    repdir = os.path.join(OUT, "replays")
    os.makedirs(repdir, exist_ok=True)
    for c in m.K.cases:
        r = sym.get(c.name)
        cf = [f for f in con["failures"] if f["case"] == c.name]
        bad = []
        if r is not None:
            bad = [("obligation " + f["obligation"], f) for f in r["failed"]] + \
                  [("out of the verifier's reach", f) for f in r["unsupported"]]
            if not bad and (r["done"] == 0 or r["live"] == 0):
                bad = [("no obligation was generated on a feasible path", {})]
        kn = [k for k in known if k["case"] == c.name]
        if kn and (bad or cf):
            # a case listed as a known finding: only the listed obligation may fail
            ob = {f["obligation"] for f in (r["failed"] if r else [])} | {f["obligation"] for f in cf}
            if ob <= {k["obligation"] for k in kn} and not (r and r["unsupported"]):
                hit_known.extend(kn)
                continue
        if not bad and not cf:
            continue
        path = os.path.join(repdir, "%s_%s.json" % (pid, c.name))
        with open(path, "w") as f:
            json.dump({"property": pid, "case": c.name, "contract": "contracts/%s.py" % mod,
                       "failed_obligations": [{"kind": k, **d} for k, d in bad][:12],
                       "concrete_failure": cf[:1],
                       "how_to_replay": "python3-vt check.py %s replays this; concrete_failure gives seed, inputs and "
                                        "choices for qverify/conrun.py" % pid}, f, indent=1, default=str)
        viol.append((c.name, path, bool(cf), bad, cf))
    if con.get("error"):
        path = os.path.join(repdir, "%s_concrete.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "error": con["error"]}, f, indent=1)
        viol.append(("(real code cannot be run)", path, False, [("real code run", {"why": con["error"]})], []))

    for k in hit_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    called = sorted({k for r in sym.values() for k in r["called"]})
    nsamp = sum(s["samples"] for s in con["cases"].values())
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "python3-vt check.py %s %s (qverify: symbolic execution of /repo's source + algebraic "
                       "normaliser, back end z3 %s)" % (pid, tier, _z3v()),
        "trusted_base": TRUSTED + list(getattr(m.K, "assumptions", [])),
        "functions_under_contract": called,
        "cases": {c: {"obligations": sym[c]["done"] + len(sym[c]["failed"]) + len(sym[c]["unsupported"]),
                      "discharged": sym[c]["done"], "paths": sym[c]["paths"],
                      "named_obligations": sorted(sym[c]["names"]), "wall_s": round(sym[c]["wall"], 2)} for c in sym},
        "solver": {"backend": "z3", "queries": sum(r["queries"] for r in sym.values()),
                   "time_s": round(sum(r["qtime"] for r in sym.values()), 2),
                   "unknown": sum(r["unknown"] for r in sym.values())},
        "concrete_cross_check": {"samples": nsamp, "assertions": sum(s["ok"] for s in con["cases"].values()),
                                 "note": "same contracts evaluated on the real code with sampled inputs; not counted as proof"},
        "bounded_stand_ins": {c.name: {"bound": c.bounded, **con["cases"].get(c.name, {})} for c in m.K.cases if c.bounded},
        "undischarged": [{"case": c, "kind": k, "detail": d.get("obligation") or d.get("why")}
                         for c, _, _, bad, _ in viol for k, d in bad][:20],
    }
    if keep:
        smts = [s for r in sym.values() for s in r.get("smt", [])]
        cov["second_backend_cvc5"] = cvc5_recheck(smts, 900.0)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(m.K, "level", "proof"), "coverage": cov,
          "assumptions": list(getattr(m.K, "assumptions", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for name, path, concrete, bad, cf in viol:
        for k, d in bad[:3]:
            print("  case %s: %s: %s" % (name, k, (d.get("obligation") and d.get("why") or d.get("why") or "")[:600]))
        for f in cf[:1]:
            print("  case %s: real code violates %s: %s  inputs %s" % (name, f["obligation"], f["why"][:500],
                                                                      json.dumps(f["inputs"], default=str)[:400]))
    if viol:
        # prefer a violation with a concrete failing input
        viol.sort(key=lambda v: not v[2])
        name, path, concrete, bad, cf = viol[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if concrete else " no-failing-input-found"))
        sys.exit(1)
    print("OK property=%s obligations=%d discharged=%d paths=%d queries=%d concrete_samples=%d wall=%.1fs" % (
        pid, obligations, discharged, sum(r["paths"] for r in sym.values()), cov["solver"]["queries"], nsamp,
        time.time() - t0))
    sys.exit(0)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
