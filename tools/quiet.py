#!/usr/bin/env python3
"""Behaviour-preserving rewrites: quiet.py SCRATCH [name...]
Applies each tools/refactors/*.diff (whole parts of /repo rewritten another way: an arena instead of raw nodes, another
solver, other drawing loops, other orders) in a scratch copy and runs every check there; every check must stay quiet."""
import glob, os, re, subprocess, sys
M = sys.argv[1]; R, V = f"{M}/r", f"{M}/v"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, timeout):
    return subprocess.run(["timeout", "-k", "2", str(timeout), "bash", "-c", c], cwd=cwd, capture_output=True, text=True)
os.makedirs(M, exist_ok=True)
if not os.path.exists(R): subprocess.run(["cp", "-a", "/repo", R], check=True)
subprocess.run(f"mkdir -p {V} && cd {VERIF} && cp -a harness vendor check.sh build.sh known_findings.txt {V}/ && mkdir -p {V}/evidence && cd {V} && grep -rlE '/repo|/verif' --include=*.rs --include=*.toml --include=*.sh --exclude-dir='target*' . | xargs sed -i 's#/repo#{R}#g; s#/verif#{V}#g'", shell=True, check=True)
names = sys.argv[2:] or [os.path.basename(p)[:-5] for p in sorted(glob.glob(f"{VERIF}/tools/refactors/*.diff"))]
bad = 0
for n in names:
    sh("git checkout -q -- .", R, 20)
    if sh(f"git apply {VERIF}/tools/refactors/{n}.diff", R, 20).returncode: print(n, "does not apply"); bad += 1; continue
    for k in range(1, 27):
        c = f"C{k:02}"
        r = sh(f"/usr/bin/time -f %es bash check.sh {c}", V, 900)
        t = re.findall(r"([\d.]+)s$", r.stderr.strip())
        note = [l for l in r.stdout.splitlines() if l.startswith(("NOTE", "ERROR"))]
        if r.returncode: bad += 1
        print(n, c, "quiet" if r.returncode == 0 else f"EXIT {r.returncode} " + r.stdout[-600:] + r.stderr[-300:], (t or ["?"])[0] + "s", *note, flush=True)
    sh("git checkout -q -- .", R, 20)
sys.exit(bad > 0)
