#!/usr/bin/env python3
"""Confirm planted bugs and store them under /verif/seeded.

usage: seed.py [--no-tests] SRC.py...   where each SRC.py defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS.
For every source: apply EDITS to a scratch copy of /repo, run the demo on both trees, run the check against the
scratch copy (BIJX_REPO), run the stable tests there, and keep patch.diff/demo.sh/demo.py/meta.json.
"""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
HEAD = '''"""Demonstration: exit 0 when the property holds on /repo (cwd), 1 when it does not."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp, numpy as np
from flax import nnx
import bijx

def check(cond, msg):
    if not cond:
        print("FAIL:", msg); sys.exit(1)

'''
def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, (p.stdout + p.stderr)
def main():
    a = sys.argv[1:]; tests = "--no-tests" not in a; a = [x for x in a if not x.startswith("--")]
    for src in a:
        m = runpy.run_path(src); sid = m["ID"]; root = f"/tmp/sw/{sid}"; repo = root + "/repo"
        shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        if os.path.exists("/repo/src/bijx/_version.py"): shutil.copy("/repo/src/bijx/_version.py", repo + "/src/bijx/_version.py")
        for f, o, n in m["EDITS"]:
            p = f"{repo}/src/bijx/{f}"; s = open(p).read()
            assert s.count(o) == 1, (sid, f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        d = f"{root}/seed"; os.makedirs(d)
        patch = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.py", "w").write(HEAD + m["DEMO"].strip() + "\nprint('ok')\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nunset PYTHONPATH\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        # every removed line (or, for pure insertions, the line before) must come from the original repository
        import re
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=repo, capture_output=True, text=True).stdout.split()[0][:7]
        cur, late = None, []
        for line in subprocess.run(["git", "diff", "-U0"], cwd=repo, capture_output=True, text=True).stdout.splitlines():
            if line.startswith("--- a/"): cur = line[6:]
            mm = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if mm:
                a0, k = int(mm[1]), int(mm[2] or 1)
                for b in subprocess.run(["git", "blame", "-s", "-L", f"{a0},{max(a0, a0 + k - 1)}", "HEAD", "--", cur], cwd=repo, capture_output=True, text=True).stdout.splitlines():
                    if not b.startswith("^"): late.append(b)
        if late: print(sid, "LATE LINES", late)
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        c0, o0 = sh(["bash", d + "/demo.sh"], "/repo"); c1, o1 = sh(["bash", d + "/demo.sh"], repo)
        good = c0 == 0 and c1 != 0
        why = "" if good else f" clean={c0} {o0[-600:]} patched={c1} {o1[-600:]}"
        if "FAIL:" not in o1: why += " (patched demo died otherwise: " + o1[-300:] + ")"
        ck, ok = sh(["bash", V + "/check.sh", m["PROPERTY"]], V, dict(ENV, BIJX_REPO=repo, VERIF_EVIDENCE=root))
        caught = ck == 1 and f"VIOLATION property={m['PROPERTY']}" in ok
        t = "skipped"
        if tests and good:
            ct, ot = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--hypothesis-seed=0", "-n", "8", "-x", "tests", "src/bijx"], repo,
                        dict(ENV, PYTHONPATH=repo + "/src", HYPOTHESIS_STORAGE_DIRECTORY=root + "/hyp"))
            t = ot.strip().splitlines()[-1]; good = ct == 0
            if not good: why += "\n" + "\n".join(l for l in ot.splitlines() if l.startswith("FAILED"))
        print(f"{sid} {m['PROPERTY']} demo={'ok' if c0 == 0 and c1 else 'BAD'} caught={caught} tests={t}{why}", flush=True)
        if not caught: print("   check said:", ok[-500:].replace("\n", "\n   "))
        if good:
            dst = f"{V}/seeded/{sid}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        shutil.rmtree(root, ignore_errors=True)
main()
