"""Run contract cases of one property concretely on the real code.  Usage: conrun.py JOB.json OUT.json"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    job = json.load(open(sys.argv[1]))
    sys.path[1:1] = [job["repo"], os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")]
    os.environ.pop("QS_CACHE_TDHO", None)
    warnings.simplefilter("ignore")
    from qverify.conctx import ConCtx, Skip, ContractViolation
    m = importlib.import_module("contracts." + job["module"])
    import quantum_systems
    assert os.path.realpath(quantum_systems.__file__).startswith(os.path.realpath(job["repo"]) + os.sep)
    out = {"cases": {}, "failures": []}
    t_end = time.time() + job.get("budget", 60)
    for c in m.K.cases:
        spec = job["cases"].get(c.name)
        if spec is None:
            continue
        st = {"samples": 0, "ok": 0, "skipped": 0}
        out["cases"][c.name] = st
        runs = [(job["seed"] * 1000 + i, None, None) for i in range(int(c.samples * spec.get("mult", 1)))]
        for h in spec.get("hints", []):
            runs = [(job["seed"] * 1000 + 500000 + i, h.get("model"), h.get("choices")) for i in range(8)] + runs
        nfail = 0
        for seed, hints, choices in runs:
            if time.time() > t_end:
                break
            ctx = ConCtx(seed, hints, choices)
            why = None
            try:
                c.fn(ctx)
            except Skip:
                st["skipped"] += 1
                continue
            except ContractViolation:
                why = ctx.bad[-1]
            except Exception as e:
                why = {"obligation": "no exception", "why": "%s: %s\n%s" % (type(e).__name__, e, "".join(
                    traceback.format_tb(e.__traceback__)[-5:]))}
            finally:
                ctx.cleanup()
            st["samples"] += 1
            st["ok"] += ctx.n_ok
            if why is not None:
                nfail += 1
                out["failures"].append({"case": c.name, "seed": seed, "hints": hints, "choices": ctx.choices,
                                        "inputs": ctx.log, "obligation": why["obligation"], "why": why["why"]})
                if nfail >= spec.get("maxfail", 3):
                    break
    with open(sys.argv[2], "w") as f:
        json.dump(out, f, default=str)


if __name__ == "__main__":
    main()
