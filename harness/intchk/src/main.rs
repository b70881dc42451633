#[cfg(any(vp_hooks, vp_cover))]
mod cover;
#[cfg(any(vp_hooks, vp_line))]
mod line;
#[allow(dead_code)]
#[path = "../../pubchk/src/maze.rs"]
mod maze;
#[allow(dead_code)]
#[path = "../../pubchk/src/pixels.rs"]
mod pixels;
#[cfg(any(vp_hooks, vp_random))]
mod random;
#[cfg(any(vp_hooks, vp_sets))]
mod sets;

#[global_allocator]
static GUARD: engine::guard::Guard = engine::guard::Guard;

fn main() {
    #[cfg(any(vp_hooks, vp_random))]
    if std::env::var("VP_MODE").as_deref() == Ok("mazes") {
        random::mazes();
    }
    engine::main(&[
        #[cfg(any(vp_hooks, vp_cover))]
        &cover::C06,
        #[cfg(any(vp_hooks, vp_cover))]
        &cover::C07,
        #[cfg(any(vp_hooks, vp_line))]
        &line::C10,
        #[cfg(any(vp_hooks, vp_sets))]
        &sets::C23,
        #[cfg(any(vp_hooks, vp_random))]
        &random::C24,
    ])
}
