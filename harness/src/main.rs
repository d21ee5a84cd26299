#![allow(unreachable_patterns)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
mod dist;
mod exec;
mod panics;
mod plain;
mod sample;
mod source;

/// The system allocator with a count of the bytes each thread holds.
struct Counting;
thread_local!(static LIVE: Cell<i64> = const { Cell::new(0) });
pub fn live() -> i64 {
    LIVE.try_with(|l| l.get()).unwrap_or(0)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("exec") => exec::main(&args[1..]),
        Some("plain") => plain::main(&args[1..]),

        Some("sample") => sample::main(&args[1..]),
        _ => {
            eprintln!("usage: vmon exec|sample ...");
            2
        }
    };
    std::process::exit(code)
}
