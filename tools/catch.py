#!/usr/bin/env python3
"""Runs checks against planted bugs: catch.py [--all-checks] [--scratch=DIR] [id ...]
Applies each patch to /repo and undoes it; with --scratch, to a copy of /repo, with a copy of the committed /verif."""
import json, os, re, subprocess, sys, time
S = "/verif/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
allc = "--all-checks" in sys.argv
scratch = [a[10:] for a in sys.argv[1:] if a.startswith("--scratch=")]
R, V = "/repo", "/verif"
if scratch:
    R, V = scratch[0] + "/r", scratch[0] + "/v"
    subprocess.run(f"mkdir -p {scratch[0]} && rm -rf {V} {R} && git clone -q /verif {V} && cp -a /repo {R} && cd {V} && rm -rf seeded && mkdir -p evidence && grep -rlE '/repo|/verif' --include=*.rs --include=*.toml --include=*.sh . | xargs sed -i 's#/repo#{R}#g; s#/verif#{V}#g'", shell=True, check=True)
ids = args or sorted(os.listdir(S))
checks = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
for b in ids:
    prop = json.load(open(f"{S}/{b}/meta.json"))["property"]
    if subprocess.run(["git", "-C", R, "apply", f"{S}/{b}/patch.diff"]).returncode:
        print(b, "does not apply"); continue
    try:
        got = []
        for c in (checks if allc else [prop]):
            t = time.time()
            r = subprocess.run(["bash", V + "/check.sh", c], capture_output=True, text=True)
            line = [l for l in r.stdout.splitlines() if l.startswith("what failed")]
            if r.returncode == 1 and f"VIOLATION property={c} " in r.stdout:
                got.append(f"{c}({time.time()-t:.0f}s)")
                if c == prop: why = line[0][:230] if line else ""
            elif r.returncode != 0:
                got.append(f"{c}:ERROR{r.returncode}")
        hit = any(g.startswith(prop + "(") for g in got)
        print(b, prop, "CAUGHT" if hit else "MISSED", " ".join(got), why if hit else "", flush=True)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."])
