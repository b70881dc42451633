//! C06, C07, C10, C23 through the public functions, for a tree whose internals the hooks do not reach.
use crate::{maze, nonogram, sudoku};
use engine::*;
use puzzle_utils::solve_sudoku;

fn degraded(what: &str) -> Vec<String> {
    vec![format!("DEGRADED: the internals could not be reached (see check.sh); judged through {what}")]
}

pub struct C06;
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn bounds(&self, t: Tier) -> String {
        sudoku::C02.bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        sudoku::C02.explore(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        sudoku::C02.describe(case)
    }
    fn assumptions(&self) -> Vec<String> {
        degraded("the sudoku solver: forced rows are clues, the matrix is that of sudoku")
    }
    fn check(&self, case: &[u8], io: &mut Io) -> Verdict {
        sudoku::C01.check(case, io)?;
        sudoku::C02.check(case, io)
    }
}

pub struct C07;
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn bounds(&self, t: Tier) -> String {
        sudoku::C02.bounds(t) + "; every execution under the guard allocator"
    }
    fn explore(&self, x: &Explorer) {
        sudoku::C02.explore(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        sudoku::C02.describe(case)
    }
    fn assumptions(&self) -> Vec<String> {
        degraded("the sudoku solver under the guard allocator")
    }
    fn check(&self, case: &[u8], _io: &mut Io) -> Verdict {
        let mut left = 0;
        // what stays once may be set up for good; what stays every time is lost
        for _ in 0..3 {
            let before = guard::live_blocks();
            let r = call_mem("solve_sudoku", || solve_sudoku(case))?;
            drop(r);
            left = guard::live_blocks() - before;
            if left <= 0 {
                break;
            }
        }
        if left != 0 {
            return bad(format!("{left} block(s) remain allocated after the call"));
        }
        ok("all memory returned", fnv(case))
    }
}

pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn bounds(&self, t: Tier) -> String {
        nonogram::C09.bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        nonogram::C09.explore(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        nonogram::C09.describe(case)
    }
    fn assumptions(&self) -> Vec<String> {
        degraded("the nonogram solver's answers")
    }
    fn check(&self, case: &[u8], io: &mut Io) -> Verdict {
        nonogram::C08.check(case, io)?;
        nonogram::C09.check(case, io)
    }
}

pub struct C23;
impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn bounds(&self, t: Tier) -> String {
        maze::C14.bounds(t)
    }
    fn explore(&self, x: &Explorer) {
        maze::C14.explore(x)
    }
    fn describe(&self, case: &[u8]) -> String {
        maze::C14.describe(case)
    }
    fn assumptions(&self) -> Vec<String> {
        degraded("the mazes built with it: joined cells are connected, connected cells are not joined again")
    }
    fn check(&self, case: &[u8], io: &mut Io) -> Verdict {
        maze::C14.check(case, io)
    }
}
