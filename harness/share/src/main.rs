//! Distributions shared among threads. A separate crate, because it demands that
//! the library's types be `Send` and `Sync`, which the other monitors do not need.
#![allow(dead_code)]
#[path = "../../src/dist.rs"]
mod dist;
#[path = "../../src/source.rs"]
mod source;

use dist::{make, Dist};
use source::Mix;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

fn shareable<T: Send + Sync + Clone + 'static>() {}

const ABSENT: u64 = 0x7ff8_dead_0000_0001;
const PANICKED: u64 = 0x7ff8_dead_0000_0002;

/// A digest of one answer: the bits of every number in it.
fn answer(d: &Dist, op: u32, arg: f64) -> u64 {
    match catch_unwind(AssertUnwindSafe(|| d.eval(op, arg))) {
        Ok(Some(v)) if v.len() == 1 => v[0].to_bits(),
        Ok(Some(v)) => v.iter().fold(0xcbf29ce484222325, |h: u64, x| {
            (h ^ x.to_bits()).wrapping_mul(0x100000001b3).rotate_left(17)
        }),
        Ok(None) => ABSENT,
        Err(_) => PANICKED,
    }
}

struct Req {
    dist: usize,
    op: u32,
    arg: f64,
}

fn u32_at(c: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(c[i..i + 4].try_into().unwrap())
}

/// vshare REQ POOL OUT SEED THREADS ROUNDS
fn main() {
    shareable::<Dist>();
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = a[3].parse().unwrap();
    let threads: usize = a[4].parse().unwrap();
    let rounds: usize = a[5].parse().unwrap();
    let pool: Vec<f64> = std::fs::read(&a[1]).unwrap().chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut keys: Vec<(u32, u32, u32)> = Vec::new();
    let mut index = std::collections::HashMap::new();
    let mut reqs: Vec<Req> = Vec::new();
    for c in std::fs::read(&a[0]).unwrap().chunks_exact(24) {
        let key = (u32_at(c, 0), u32_at(c, 8), u32_at(c, 12));
        let dist = *index.entry(key).or_insert_with(|| {
            keys.push(key);
            keys.len() - 1
        });
        reqs.push(Req { dist, op: u32_at(c, 4), arg: f64::from_le_bytes(c[16..24].try_into().unwrap()) });
    }
    let build = |k: usize| {
        let (f, o, l) = keys[k];
        make(f, &pool[o as usize..(o + l) as usize])
    };
    // The reference: one thread, a fresh distribution for every request.
    let base: Vec<u64> = reqs.iter().map(|r| answer(&build(r.dist), r.op, r.arg)).collect();
    let shared: Vec<Dist> = (0..keys.len()).map(build).collect();
    let mut of: Vec<Vec<usize>> = vec![Vec::new(); keys.len()];
    for (i, r) in reqs.iter().enumerate() {
        of[r.dist].push(i);
    }
    let inflight: Vec<AtomicUsize> = (0..keys.len()).map(|_| AtomicUsize::new(0)).collect();
    let (evaluations, overlaps, clones) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let wrong: Mutex<Vec<(usize, usize, u64, u64, &'static str)>> = Mutex::new(Vec::new());
    let stop = AtomicBool::new(false);
    std::thread::scope(|scope| {
        for t in 0..threads {
            let (shared, of, reqs, base, inflight, wrong, stop) = (&shared, &of, &reqs, &base, &inflight, &wrong, &stop);
            let (evaluations, overlaps, clones) = (&evaluations, &overlaps, &clones);
            scope.spawn(move || {
                let mut rng = Mix::new(seed.wrapping_mul(1000).wrapping_add(t as u64));
                for round in 0..rounds {
                    // All threads walk the distributions in one order, so that they meet on them.
                    let mut order: Vec<usize> = (0..shared.len()).collect();
                    let mut common = Mix::new(seed ^ (round as u64 + 1) << 20);
                    for i in (1..order.len()).rev() {
                        order.swap(i, common.below(i as u64 + 1) as usize);
                    }
                    for &k in &order {
                        let list = &of[k];
                        let own = match rng.below(4) {
                            0 => {
                                clones.fetch_add(1, Relaxed);
                                Some(shared[k].clone())
                            }
                            _ => None,
                        };
                        let (d, how) = match &own {
                            Some(d) => (d, "a clone made by another thread"),
                            None => (&shared[k], "the shared distribution"),
                        };
                        inflight[k].fetch_add(1, Relaxed);
                        for _ in 0..list.len() {
                            let i = list[rng.below(list.len() as u64) as usize];
                            let got = answer(d, reqs[i].op, reqs[i].arg);
                            evaluations.fetch_add(1, Relaxed);
                            if inflight[k].load(Relaxed) > 1 {
                                overlaps.fetch_add(1, Relaxed);
                            }
                            if got != base[i] {
                                let mut w = wrong.lock().unwrap();
                                if w.len() < 50 {
                                    w.push((i, t, base[i], got, how));
                                }
                                stop.store(true, Relaxed);
                            }
                        }
                        inflight[k].fetch_sub(1, Relaxed);
                        if stop.load(Relaxed) {
                            return;
                        }
                    }
                }
            });
        }
    });
    // Afterwards the shared distributions still answer as before.
    for (i, r) in reqs.iter().enumerate() {
        let got = answer(&shared[r.dist], r.op, r.arg);
        if got != base[i] && wrong.lock().unwrap().len() < 60 {
            wrong.lock().unwrap().push((i, threads, base[i], got, "the shared distribution, afterwards"));
        }
    }
    let mut f = std::fs::File::create(&a[2]).unwrap();
    writeln!(f, "{} {} {} {}", evaluations.load(Relaxed), overlaps.load(Relaxed), clones.load(Relaxed), keys.len()).unwrap();
    for (i, t, b, g, how) in wrong.lock().unwrap().iter() {
        writeln!(f, "{}\t{}\t{}\t{}\t{}", i, t, b, g, how).unwrap();
    }
}
