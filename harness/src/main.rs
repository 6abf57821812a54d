#![allow(dead_code)]
mod alloc;
mod bounds;
mod dgen;
mod animref;
mod engine;
mod file;
mod gen;
mod mat;
mod meshfile;
mod io;
mod props;
mod refcodec;
mod runner;
mod schema;
mod shader;
mod typemodel;
mod types_gen;
mod val;

#[global_allocator]
static GLOBAL: alloc::Guarded = alloc::Guarded;

fn main() {
    engine::install_panic_hook();
    std::process::exit(runner::main());
}
