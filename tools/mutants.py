#!/usr/bin/env python3
"""Systematic small changes: mutants.py MUTDIR [part/parts]
Makes every single-token change of a fixed list of kinds in /repo's non-test code (in a scratch copy), keeps those
that compile and pass the tests, and runs the checks of the file's properties (a scratch copy of /verif) against each
until one reports a violation. Prints one line per mutant; survivors are the ones to look at.
MUTDIR holds the two scratch copies and the log; results already in the log are not repeated."""
import json, os, re, shutil, subprocess, sys
M = sys.argv[1]
PART, PARTS = map(int, (sys.argv[2] if len(sys.argv) > 2 else "0/1").split("/"))
R, V = f"{M}/r{PART}", f"{M}/v{PART}"
LOG = f"{M}/log{PART}.jsonl"
SRC = {
 "src/puzzles/sudoku/mod.rs": "C04 C03 C05 C01 C02 C26",
 "src/structures/dancing_links/mod.rs": "C06 C07 C01 C02",
 "src/structures/dancing_links/node.rs": "C06 C07 C01 C02",
 "src/puzzles/nonogram/mod.rs": "C10 C11 C12 C13 C08 C09 C26 C25",
 "src/puzzles/nonogram/right_left.rs": "C10 C08 C09 C26",
 "src/puzzles/maze/mod.rs": "C17 C18 C19 C21 C14 C15 C16 C20",
 "src/puzzles/maze/recursive_backtrack.rs": "C14 C15 C16 C20",
 "src/structures/disjoint_set.rs": "C23 C14",
 "src/util.rs": "C24 C22 C12 C05 C17 C18",
 "src/lib.rs": "C22",
}
SUBS = [
 (r"(?<![=<>!+\-*/%&|])==(?!=)", ["!="]), (r"!=", ["=="]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < ", " > "]), (r" >= ", [" > ", " < "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - ", " * "]), (r" - ", [" + "]), (r" \* ", [" + ", " / "]), (r" / ", [" * ", " % "]), (r" % ", [" / ", " * "]),
 (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \|= ", [" = ", " &= "]),
 (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", ["", ".skip(2)"]),
 (r"\bmax\(", ["std::cmp::min("]), (r"min_by", ["max_by"]), (r"iter_left", ["iter_right"]), (r"iter_right", ["iter_left"]), (r"iter_down", ["iter_up"]), (r"iter_up", ["iter_down"]),
 (r"\.all\(", [".any("]), (r"!(?=[a-z(])(?<!\w!)", [""]), (r"\.filter\([^\n]*\)(?=\s*\{|\.)", [""]), (r"saturating_sub", ["wrapping_sub"]), (r"saturating_add", ["wrapping_add"]),
 (r"0\.\.=", ["0.."]), (r"\busize\b", ["u8", "u16"]), (r"\bu64\b", ["u8", "u16", "u32"]), (r"as u32\b", ["as u8 as u32", "as u16 as u32"]), (r"as u128\b", ["as u32 as u128", "as u64 as u8 as u128"]),
 (r"\bas usize\b", ["as u8 as usize", "as u16 as usize"]),
 (r"Square::Filled", ["Square::Blocked", "Square::Blank"]), (r"Square::Blocked", ["Square::Filled", "Square::Blank"]), (r"Node::Space", ["Node::End"]), (r"Node::End", ["Node::Space"]),
 (r"\bpush_back\b", ["push_front"]), (r"\bpop_front\b", ["pop_back"]), (r"\bswap_remove\b", ["remove"]),
]
def ws(s): return re.search(r"\S", s)
def code(f):
    s = open(f"/repo/{f}").read().split("#[cfg(test)]")[0]
    return s
def mutants():
    out = []
    for f in SRC:
        s = code(f); full = open(f"/repo/{f}").read(); tail = full[len(s):]
        skip = []
        for m in re.finditer(r"#\[cfg\(any\(vp_hooks.*?\n}\n", s, re.S): skip.append(m.span())
        for m in re.finditer(r"//[^\n]*|#\[[^\n]*\]|\"[^\"\n]*\"|^use [^;]*;", s, re.M): skip.append(m.span())
        bad = lambda i: any(a <= i < b for a, b in skip)
        for pat, reps in SUBS:
            for m in re.finditer(pat, s):
                if bad(m.start()): continue
                for r in reps:
                    t = m.group(0)
                    n = r if r not in ("+1", "-1") else str(int(t) + int(r))
                    if n.startswith("-"): continue
                    out.append((f, s[:m.start()] + n + s[m.end():] + tail, f"{f}:{s[:m.start()].count(chr(10))+1}: `{t.strip()}` -> `{n.strip()}` in `{s.splitlines()[s[:m.start()].count(chr(10))].strip()[:90]}`"))
        for m in re.finditer(r"^[ \t]+[^\n{}]*;\n", s, re.M):
            t = m.group(0)
            if bad(m.start() + len(t) - len(t.lstrip())) or re.match(r"\s*(let|pub|use|mod|return|const|\w+: )", t) and not re.match(r"\s*return", t): continue
            if t.strip().startswith((")", "]", ".")): continue
            out.append((f, s[:m.start()] + s[m.end():] + tail, f"{f}:{s[:m.start()].count(chr(10))+1}: deleted `{t.strip()[:90]}`"))
        for m in re.finditer(r"(?<=\bif )(?!let)([^\n{}]+)(?= \{\n)", s):
            if bad(m.start()): continue
            for v in ("true", "false"):
                # mention the condition so that no name becomes unused
                out.append((f, s[:m.start()] + v + s[m.end():] + tail, f"{f}:{s[:m.start()].count(chr(10))+1}: if `{m.group(0)[:80]}` -> `{v}`"))
    seen, res = set(), []
    for x in out:
        if x[1] in seen: continue
        seen.add(x[1]); res.append(x)
    return res
def sh(c, cwd, timeout, env=None):
    e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", **(env or {}))
    return subprocess.run(["timeout", "-k", "2", str(timeout), "bash", "-c", c], cwd=cwd, capture_output=True, text=True, env=e)
def main():
    ms = mutants()
    ms.sort(key=lambda m: "sudoku" in m[0])  # the slow checks last
    if "--list" in sys.argv:
        for m in ms: print(m[2])
        print(len(ms)); return
    os.makedirs(M, exist_ok=True)
    if not os.path.exists(R):
        subprocess.run(["cp", "-a", "/repo", R], check=True)
        os.makedirs(V)
        for d in ("harness", "vendor", "check.sh", "build.sh", "known_findings.txt"):
            if os.path.exists(f"/verif/{d}"): subprocess.run(["cp", "-a", f"/verif/{d}", V], check=True)
        os.makedirs(f"{V}/evidence", exist_ok=True)
        sh(f"grep -rlE '/repo|/verif' --include=*.rs --include=*.toml --include=*.sh --exclude-dir='target*' . | xargs sed -i 's#/repo#{R}#g; s#/verif#{V}#g'", V, 60)
    done = {json.loads(l)["m"] for p in os.listdir(M) if p.startswith("log") for l in open(f"{M}/{p}")}
    log = open(LOG, "a")
    for k, (f, text, name) in enumerate(ms):
        if k % PARTS != PART or name in done: continue
        sh("git checkout -q -- .", R, 20)
        open(f"{R}/{f}", "w").write(text)
        t = sh("ulimit -v 8000000; cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1", R, 40, {"CARGO_TARGET_DIR": R + "/target"})
        p = sum(int(x) for x in re.findall(r"test result: \w+\. (\d+) passed", t.stdout))
        if p < 51 or "FAILED" in t.stdout:
            res = "tests" if "test result" in t.stdout else ("hang" if t.returncode in (124, 137) else "compile")
        else:
            res = "SURVIVED"
            for c in SRC[f].split():
                r = sh(f"ulimit -v 20000000; bash check.sh {c}", V, 400)
                if r.returncode == 1 and f"VIOLATION property={c} " in r.stdout: res = c; break
                if r.returncode != 0: res = f"ERROR {c} {r.returncode}"; break
        log.write(json.dumps({"m": name, "r": res}) + "\n"); log.flush()
    sh("git checkout -q -- .", R, 20)
main()
