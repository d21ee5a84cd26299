//! Sequential evaluation with nothing around it, for the Miri interpreter.
use crate::dist::make;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// `plain REQ POOL START STEP SECONDS`: every STEP-th request from START on.
pub fn main(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let reqs = std::fs::read(&a[0]).unwrap();
    let pool: Vec<f64> = std::fs::read(&a[1])
        .unwrap()
        .chunks_exact(8)
        .map(|c| f64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let (start, step): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let budget: u64 = a[4].parse().unwrap();
    let t0 = std::time::Instant::now();
    let u = |c: &[u8], i: usize| u32::from_le_bytes(c[i..i + 4].try_into().unwrap());
    let (mut done, mut panics, mut numbers) = (0u64, 0u64, 0u64);
    for (i, c) in reqs.chunks_exact(24).enumerate().skip(start).step_by(step) {
        if t0.elapsed().as_secs() >= budget {
            break;
        }
        eprintln!("at {}", i);
        let (off, len) = (u(c, 8) as usize, u(c, 12) as usize);
        let p = &pool[off..off + len];
        let arg = f64::from_le_bytes(c[16..24].try_into().unwrap());
        match catch_unwind(AssertUnwindSafe(|| make(u(c, 0), p).eval(u(c, 4), arg))) {
            Ok(Some(v)) => numbers += v.len() as u64,
            Ok(None) => {}
            Err(_) => panics += 1,
        }
        done += 1;
    }
    println!("plain: {} {} {}", done, panics, numbers);
    0
}
