mod calls;
mod fallback;
mod maze;
mod nonogram;
mod pixels;
mod png;
#[path = "../../intchk/src/random.rs"]
mod random;
mod sched;
mod sudoku;

#[global_allocator]
static GUARD: engine::guard::Guard = engine::guard::Guard;

fn main() {
    if std::env::var("VP_MODE").as_deref() == Ok("calls") {
        calls::callee();
    }
    if std::env::var("VP_MODE").as_deref() == Ok("mazes") {
        random::mazes();
    }
    engine::main(&[
        &sudoku::C01, &sudoku::C02, &sudoku::C03, &sudoku::C04, &sudoku::C05,
        &nonogram::C08, &nonogram::C09, &nonogram::C11, &nonogram::C12, &nonogram::C13, &nonogram::C26,
        &maze::C14, &maze::C15, &maze::C16, &maze::C17, &maze::C18, &maze::C19, &maze::C20, &maze::C21,
        &png::C22, &calls::C25,
        &fallback::C06, &fallback::C07, &fallback::C10, &fallback::C23, &random::C24,
    ])
}
