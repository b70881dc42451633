#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Verification hooks"], capture_output=True, text=True).stdout.split()
EX = "explicit-state exhaustive enumeration of executions of the real code within stated bounds, "
T = {
"C01": (EX + "boards as states, setting a cell as transition; validity of each answer", "Exhaustive over all boards with at most 2 clues (by representatives where stated), all 1-3 changed or blanked cells of fixed complete grids, and structured families; a board outside the families may behave differently."),
"C02": (EX + "answer/no answer compared with an independent bit-mask solver", "As C01; the reference solver is independent of the code under test and its answers are verified."),
"C03": (EX + "all lengths, bytes at positions, conflicting placements, under a guard allocator", "Lengths to the bound, every byte value at every position, all conflicting pairs and families of several conflicts; memory misuse is decided by a poisoning, quarantining allocator."),
"C04": (EX + "all short strings over a sharp alphabet, every Unicode scalar in place", "Every Unicode character at several positions, all lengths to the bound, all pairs of faults."),
"C05": (EX + "every digit at every cell and cell pairs, pixel by pixel", "Pictures are compared with a reference drawing; the glyph rasteriser is trusted."),
"C06": (EX + "all small 0/1 matrices and all histories of forced rows, against brute-force exact cover", "All matrices to the stated sizes with all force-row histories to the stated depth."),
"C07": (EX + "all small matrices and histories under a guard allocator (poison, quarantine, leak accounting)", "As C06; each execution is checked for use after free, double free and leaks."),
"C08": (EX + "all clue assignments and all grids of small sizes", "All puzzles to the stated sizes, all grids to the stated area; clue satisfaction is checked directly."),
"C09": (EX + "all clue assignments of small sizes against the table of realisable clues", "As C08; larger boards by structured families with a known answer; oversized and zero clues enumerated."),
"C10": (EX + "all lines, clues and markings against all completions", "All lines to the stated length, all clues, all 3^n markings."),
"C11": (EX + "all token sequences over a sharp alphabet, all bounds", "Grammar oracle; every Unicode scalar in place; number overflow tokens."),
"C12": (EX + "all sizes and clue placements in range, pixel by pixel", "Reference drawing; the glyph rasteriser is trusted."),
"C13": (EX + "all small grids, all sizes in range, pixel by pixel", "Every filled square at every place of all sizes in range; extreme 32-bit dimensions."),
"C14": (EX + "every outcome of the random source (deviation-bounded for larger mazes)", "The explorer owns every random draw: all choice sequences for the small shapes, bounded deviations beyond."),
"C15": (EX + "every outcome of the random source (deviation-bounded for larger mazes)", "As C14; the returned directions are walked through the returned walls."),
"C16": (EX + "every outcome of the random source (deviation-bounded for larger mazes)", "As C14; distances by an independent breadth-first search."),
"C17": (EX + "all wall assignments on small grids, single walls on all sizes in range, pixel by pixel", "Reference picture computed from the statement."),
"C18": (EX + "all direction lists to a length on all small pictures, pixel by pixel", "Reference trace computed from the statement."),
"C19": (EX + "all direction lists to a length on all small pictures, acceptance compared with a walk simulation", "Every picture size below the bound, not only maze sizes, for absence of panics."),
"C20": (EX + "every outcome of the random source (deviation-bounded), drawing pipeline", "As C14; trace checked for connectivity and against walls on the pixels."),
"C21": (EX + "all wall combinations and direction lists of small size, generated mazes, JSON and a positional binary format", "Formats: serde_json and bincode; others are represented by these two kinds."),
"C22": (EX + "all small pictures over a colour alphabet, every size in range", "The png crate's decoder is trusted; chunk structure and checksums are verified separately."),
"C23": (EX + "all operation histories to a depth against a naive partition", "All histories to the stated depth for all small sizes, and deep union patterns."),
"C24": (EX + "all outcomes of the random source; reachable mazes compared with all depth-first mazes", "Reachability is decided where the choice tree is exhausted; the depth-first criterion elsewhere."),
"C25": (EX + "all pairs (thorough: triples) of calls in fresh processes, and all interruptions of one call by another at basic-block granularity under a controlled scheduler, against each call alone", "Calls come from a fixed alphabet covering every public function, succeeding and failing."),
"C26": (EX + "all clue texts over line alphabets for small boards through parse, solve, draw", "All accepted texts of the alphabet on the stated sizes."),
}
checks = []
for i, (t, n) in T.items():
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} --tier quick", "thorough_cmd": f"bash check.sh {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(vp_hooks), or one of cfg(vp_cover), cfg(vp_line), cfg(vp_random), cfg(vp_sets) for one part", "enable": 'RUSTFLAGS="--cfg vp_hooks" (set by build.sh for the crate intchk only)', "source_commits": hook},
     "checks": checks, "not_applicable": [],
     "notes": "check.sh builds the harness crate (pubchk: public API; intchk: with hooks) against /repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
