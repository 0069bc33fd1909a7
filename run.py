#!/usr/bin/env python3
"""Entry point of every check:  run.py PROP [--tier quick|thorough] [--unit NAME]

exit 0  property held on everything observed
exit 1  at least one violation not listed in KNOWN_FINDINGS.txt
exit 2  inconclusive (a monitor errored, was starved or timed out)
"""

import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BIJX_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

CLEAN_ENV = {
    "JAX_PLATFORMS": "cpu",
    "XLA_PYTHON_CLIENT_PREALLOCATE": "false",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "JAX_TRACEBACK_FILTERING": "off",
    "XLA_FLAGS": "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "HF_HUB_OFFLINE": "1",
    "SETUPTOOLS_SCM_PRETEND_VERSION": "1.0.0",
}


def find_module(prop):
    hits = glob.glob(os.path.join(HERE, "checks", prop.lower() + "_*.py"))
    if len(hits) != 1:
        raise SystemExit(f"no unique check module for {prop}: {hits}")
    return "checks." + os.path.basename(hits[0])[:-3]


def load(prop):
    sys.dont_write_bytecode = True
    mod = importlib.import_module(find_module(prop))
    import bijx

    f = os.path.realpath(bijx.__file__)
    want = os.path.realpath(os.path.join(REPO, "src"))
    if not f.startswith(want + os.sep):
        raise SystemExit(f"bijx imported from {f}, not from {want}")
    return mod


def worker(prop, seed, tier, tasks, out):
    import warnings

    warnings.filterwarnings("ignore")
    try:
        load(prop)
        from vlib import core

        table = {n: f for n, f, _ in core.UNITS[prop]}
    except BaseException:
        out.put(("fatal", None, traceback.format_exc()[-3000:]))
        return
    while True:
        name = tasks.get()
        if name is None:
            return
        t0 = time.time()
        try:
            r = core.run_unit(prop, name, table[name], seed, tier)
        except BaseException:
            r = {"unit": name, "error": traceback.format_exc()[-3000:]}
        r["wall"] = time.time() - t0
        out.put(("done", name, r))


def unit_names(prop, q):
    """Runs in a child: importing the check (and jax) must not happen here."""
    try:
        mod = load(prop)
        from vlib import core

        q.put(
            {
                "units": [(n, c) for n, _, c in core.UNITS[prop]],
                "rule": mod.RULE,
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "min": getattr(mod, "MIN_COUNTERS", {}),
            }
        )
    except BaseException:
        q.put({"error": traceback.format_exc()[-3000:]})


def known(prop):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + prop + " key="):
                rest = line.split(" key=", 1)[1]
                k, _, what = rest.partition(" ")
                out[k] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--unit", action="append")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    os.environ.update(CLEAN_ENV)
    os.environ.pop("PYTHONPATH", None)
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)

    mpc = mp.get_context("fork")
    q = mpc.Queue()
    p = mpc.Process(target=unit_names, args=(a.prop, q))
    p.start()
    try:
        info = q.get(timeout=300)
    except queue.Empty:
        info = {"error": "could not import the check within 300 s"}
    p.join(5)
    if "error" in info:
        # importing bijx (or the check) failed: nothing was observed
        print(info["error"])
        print(f"INCONCLUSIVE property={a.prop} import failed")
        return 2
    units = [u for u in info["units"] if not a.unit or u[0] in a.unit]
    units.sort(key=lambda u: -u[1])

    tasks, out = mpc.Queue(), mpc.Queue()
    nw = max(1, min(a.j, len(units)))
    for n, _ in units:
        tasks.put(n)
    for _ in range(nw):
        tasks.put(None)
    ws = [
        mpc.Process(target=worker, args=(a.prop, a.seed, tier, tasks, out))
        for _ in range(nw)
    ]
    for w in ws:
        w.start()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    results, errors = {}, []
    while len(results) < len(units) and not errors:
        try:
            kind, name, r = out.get(timeout=2)
        except queue.Empty:
            if time.time() > deadline:
                errors.append("watchdog: run exceeded its time budget")
            elif not any(w.is_alive() for w in ws):
                try:
                    kind, name, r = out.get(timeout=2)
                except queue.Empty:
                    errors.append("a worker died before reporting")
                    break
            else:
                continue
            if errors:
                break
        if kind == "fatal":
            errors.append(r)
            continue
        results[name] = r
        if a.v:
            print(
                f"  {name:40s} {r['wall']:6.1f}s ev={r.get('evaluations')} "
                f"distinct={len(r.get('distinct', []))} viol={r.get('violation_counts')}"
                + (" ERROR" if "error" in r else ""),
                flush=True,
            )
    for w in ws:
        w.join(0.5)
        if w.is_alive():
            w.terminate()

    counters, distinct, samples, viol = {}, set(), [], []
    evaluations = 0
    vcounts = {}
    per_unit = {}
    for n, _ in units:
        r = results.get(n)
        if r is None:
            continue
        if "error" in r:
            errors.append(f"[{n}] {r['error']}")
        evaluations += r.get("evaluations", 0)
        distinct |= set(r.get("distinct", []))
        samples += r.get("samples", [])[:2]
        viol += r.get("violations", [])
        per_unit[n] = [r.get("evaluations", 0), len(r.get("distinct", []))]
        for k, v in r.get("violation_counts", {}).items():
            vcounts[k] = vcounts.get(k, 0) + v
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
    if not a.unit:
        for k, v in info["min"].items():
            if counters.get(k, 0) < v:
                errors.append(f"monitor starved: {k} observed {counters.get(k, 0)} < {v}")

    kn = known(a.prop)
    new = [v for v in viol if v["key"] not in kn]
    for k in sorted({v["key"] for v in viol} & set(kn)):
        print(f"KNOWN-FINDING: property={a.prop} {kn[k]}")

    seen, nrep = set(), 0
    for v in new:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        path = os.path.join(evdir, "replay", f"{a.prop}-{nrep}.json")
        nrep += 1
        v["replay_cmd"] = (
            f"VERIF_SEED={a.seed} VERIF_TIER={tier} bash /verif/check.sh "
            f"{a.prop} --unit {v['unit']}"
        )
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  {v['key']} (x{vcounts[v['key']]}) case={json.dumps(v['case'])[:300]}")
        print(f"  {json.dumps(v['detail'])[:500]}")

    if not a.unit:
        ev = {
            "property": a.prop,
            "tier": tier,
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(distinct),
                "rule": info["rule"],
                "samples": samples[:24],
                "units": per_unit,
                "observed_events": counters,
            },
            "assumptions": info["assumptions"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(seen),
        }
        with open(os.path.join(evdir, f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(
        f"{a.prop} tier={tier} seed={a.seed} units={len(results)}/{len(units)} "
        f"evaluations={evaluations} distinct={len(distinct)} new_violations={len(seen)} "
        f"wall={time.time() - t0:.1f}s"
    )
    if seen:
        return 1
    if errors:
        for e in errors:
            print(e)
        print(f"INCONCLUSIVE property={a.prop}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
