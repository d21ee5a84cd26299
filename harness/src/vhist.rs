//! Iterator histories in a binary of their own: they take long to compile.
#![allow(unreachable_patterns, dead_code)]
mod dist;
mod history;
mod panics;
mod source;

fn main() {
    let args: Vec<String> = std::env::args().skip(2).collect();
    std::process::exit(history::main(&args))
}
