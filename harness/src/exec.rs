//! Executor: runs a file of requests against the real library and records what
//! came back. A monitor thread watches the CPU time each call has consumed.
use crate::dist::{make, Dist};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32;
}
/// One slot per worker, in a file shared with the outside world, saying which
/// request is in flight. It survives the death of this process.
pub struct Progress(*const AtomicU64);
unsafe impl Send for Progress {}
unsafe impl Sync for Progress {}
pub const SLOTS: usize = 4096;
impl Progress {
    pub fn open(path: &str) -> Self {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .unwrap();
        f.set_len((SLOTS * 8) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 8, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Progress(p as *const AtomicU64)
    }
    pub fn set(&self, slot: usize, value: u64) {
        unsafe { (*self.0.add(slot % SLOTS)).store(value, Relaxed) }
    }
}

pub fn thread_clock() -> i32 {
    let mut clock = 0i32;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
    clock
}
pub fn cpu(clock: i32) -> f64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    if unsafe { clock_gettime(clock, &mut ts) } != 0 {
        return f64::NAN;
    }
    ts.sec as f64 + ts.nsec as f64 * 1e-9
}

#[derive(Clone, Copy)]
pub struct Req {
    pub fam: u32,
    pub op: u32,
    pub off: u32,
    pub len: u32,
    pub arg: f64,
}

pub const OK: u32 = 0;
pub const PANIC: u32 = 1;
pub const HANG: u32 = 2;
pub const UNSUPPORTED: u32 = 3;
pub const CTOR_PANIC: u32 = 4;
pub const NOT_RUN: u32 = 5;
pub const LEAK: u32 = 7;

pub use crate::panics::{install_hook, last_panic};

struct Shared {
    reqs: Vec<Req>,
    pool: Vec<f64>,
    status: Vec<AtomicU32>,
    value: Vec<AtomicU64>,
    multi: Mutex<HashMap<usize, Vec<f64>>>,
    messages: Mutex<HashMap<usize, String>>,
    progress: Progress,
    next: AtomicUsize,
    chunk: usize,
    fresh: bool,
    clone: bool,
    leak: bool,
}

struct Worker {
    slot: usize,
    current: AtomicUsize, // index + 1; 0 is idle
    end: AtomicUsize,     // end of the chunk being processed
    clock: AtomicU32,
    ready: AtomicBool,
    abandoned: AtomicBool,
    done: AtomicBool,
}

fn run_range(sh: &Shared, w: &Worker, start: usize, end: usize) {
    let mut held: Option<((u32, u32, u32), Dist)> = None;
    for i in start..end {
        if w.abandoned.load(Relaxed) {
            return;
        }
        w.current.store(i + 1, Relaxed);
        sh.progress.set(w.slot, i as u64 + 1);
        let r = sh.reqs[i];
        let key = (r.fam, r.off, r.len);
        if sh.fresh || held.as_ref().map(|h| h.0 != key).unwrap_or(true) {
            let p = &sh.pool[r.off as usize..(r.off + r.len) as usize];
            match catch_unwind(AssertUnwindSafe(|| make(r.fam, p))) {
                Ok(d) => held = Some((key, d)),
                Err(_) => {
                    held = None;
                    sh.messages.lock().unwrap().insert(i, last_panic());
                    sh.status[i].store(CTOR_PANIC, Relaxed);
                    continue;
                }
            }
        }
        let d = &held.as_ref().unwrap().1;
        let result = if sh.clone {
            // The original is gone by the time its clone is asked.
            let own = { Box::new(d.clone()) };
            let twin = own.clone();
            drop(own);
            catch_unwind(AssertUnwindSafe(|| twin.eval(r.op, r.arg)))
        } else {
            catch_unwind(AssertUnwindSafe(|| d.eval(r.op, r.arg)))
        };
        if w.abandoned.load(Relaxed) {
            return;
        }
        match result {
            Ok(None) => sh.status[i].store(UNSUPPORTED, Relaxed),
            Ok(Some(_)) if sh.leak => {
                // Everything acquired from construction to drop must be given back;
                // twice in a row, so that one-time initialization does not count.
                let p = &sh.pool[r.off as usize..(r.off + r.len) as usize];
                let mut growth = i64::MAX;
                for _ in 0..2 {
                    let before = crate::live();
                    drop(make(r.fam, p).clone().eval(r.op, r.arg));
                    growth = growth.min(crate::live() - before);
                }
                sh.value[i].store((growth as f64).to_bits(), Relaxed);
                sh.status[i].store(if growth > 0 { LEAK } else { OK }, Relaxed);
            }
            Ok(Some(v)) => {
                if v.len() == 1 {
                    sh.value[i].store(v[0].to_bits(), Relaxed);
                } else {
                    sh.multi.lock().unwrap().insert(i, v);
                }
                sh.status[i].store(OK, Relaxed);
            }
            Err(_) => {
                sh.messages.lock().unwrap().insert(i, last_panic());
                sh.status[i].store(PANIC, Relaxed);
                held = None;
            }
        }
    }
}

fn spawn(sh: &Arc<Shared>, slot: usize, first: Option<(usize, usize)>) -> Arc<Worker> {
    let w = Arc::new(Worker {
        slot,
        current: AtomicUsize::new(0),
        end: AtomicUsize::new(0),
        clock: AtomicU32::new(0),
        ready: AtomicBool::new(false),
        abandoned: AtomicBool::new(false),
        done: AtomicBool::new(false),
    });
    let (sh, w2) = (sh.clone(), w.clone());
    std::thread::spawn(move || {
        w2.clock.store(thread_clock() as u32, Relaxed);
        w2.ready.store(true, SeqCst);
        if let Some((s, e)) = first {
            w2.end.store(e, Relaxed);
            run_range(&sh, &w2, s, e);
        }
        while !w2.abandoned.load(Relaxed) {
            let s = sh.next.fetch_add(sh.chunk, Relaxed);
            if s >= sh.reqs.len() {
                break;
            }
            let e = (s + sh.chunk).min(sh.reqs.len());
            w2.end.store(e, Relaxed);
            run_range(&sh, &w2, s, e);
        }
        w2.current.store(0, Relaxed);
        sh.progress.set(w2.slot, 0);
        w2.done.store(true, SeqCst);
        // The CPU clock of a finished thread must not be read: park instead.
        loop {
            std::thread::park();
        }
    });
    w
}

/// `exec REQ POOL OUTDIR [--cpu SECONDS] [--threads N] [--fresh] [--max-hangs N]`
pub fn main(args: &[String]) -> i32 {
    install_hook();
    let mut limit = 10.0;
    let mut threads = 8;
    let mut fresh = false;
    let mut clone = false;
    let mut leak = false;
    let mut max_hangs = 24;
    let mut it = args[3..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--cpu" => limit = it.next().unwrap().parse().unwrap(),
            "--threads" => threads = it.next().unwrap().parse().unwrap(),
            "--max-hangs" => max_hangs = it.next().unwrap().parse().unwrap(),
            "--fresh" => fresh = true,
            "--clone" => clone = true,
            "--leak" => leak = true,
            other => panic!("unknown option {}", other),
        }
    }
    let raw = std::fs::read(&args[0]).unwrap();
    let reqs: Vec<Req> = raw
        .chunks_exact(24)
        .map(|c| Req {
            fam: u32::from_le_bytes(c[0..4].try_into().unwrap()),
            op: u32::from_le_bytes(c[4..8].try_into().unwrap()),
            off: u32::from_le_bytes(c[8..12].try_into().unwrap()),
            len: u32::from_le_bytes(c[12..16].try_into().unwrap()),
            arg: f64::from_le_bytes(c[16..24].try_into().unwrap()),
        })
        .collect();
    let pool: Vec<f64> = std::fs::read(&args[1])
        .unwrap()
        .chunks_exact(8)
        .map(|c| f64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let n = reqs.len();
    let sh = Arc::new(Shared {
        reqs,
        pool,
        status: (0..n).map(|_| AtomicU32::new(NOT_RUN)).collect(),
        value: (0..n).map(|_| AtomicU64::new(f64::NAN.to_bits())).collect(),
        multi: Mutex::new(HashMap::new()),
        messages: Mutex::new(HashMap::new()),
        progress: Progress::open(&format!("{}/progress.bin", args[2])),
        next: AtomicUsize::new(0),
        chunk: (n / (threads * 16)).clamp(1, 256),
        fresh,
        clone,
        leak,
    });
    let mut workers: Vec<Arc<Worker>> = (0..threads).map(|k| spawn(&sh, k, None)).collect();
    let mut seen: Vec<(usize, f64)> = vec![(0, 0.0); workers.len()];
    let mut hangs = 0;
    let mut aborted = false;
    let mut pause = 1;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(pause));
        pause = (pause * 2).min(50);
        let mut alive = 0;
        for k in 0..workers.len() {
            let w = workers[k].clone();
            if w.abandoned.load(Relaxed) || w.done.load(SeqCst) {
                continue;
            }
            alive += 1;
            if !w.ready.load(SeqCst) {
                continue;
            }
            let cur = w.current.load(Relaxed);
            let now = cpu(w.clock.load(Relaxed) as i32);
            if cur == 0 || cur != seen[k].0 {
                seen[k] = (cur, now);
            } else if now - seen[k].1 > limit {
                w.abandoned.store(true, SeqCst);
                sh.status[cur - 1].store(HANG, SeqCst);
                hangs += 1;
                if hangs >= max_hangs {
                    aborted = true;
                    break;
                }
                let e = w.end.load(Relaxed);
                let slot = workers.len();
                workers.push(spawn(&sh, slot, Some((cur, e))));
                seen.push((0, 0.0));
            }
        }
        if aborted || alive == 0 {
            break;
        }
    }
    let dir = &args[2];
    let mut out = Vec::with_capacity(n * 24);
    let mut extra: Vec<u8> = Vec::new();
    let multi = sh.multi.lock().unwrap();
    for i in 0..n {
        let s = sh.status[i].load(SeqCst);
        let (m, off, v) = match multi.get(&i) {
            Some(v) if s == OK => {
                let off = (extra.len() / 8) as u64;
                for x in v {
                    extra.extend_from_slice(&x.to_le_bytes());
                }
                (v.len() as u32, off, v.first().cloned().unwrap_or(f64::NAN))
            }
            _ => (1, 0, f64::from_bits(sh.value[i].load(SeqCst))),
        };
        out.extend_from_slice(&s.to_le_bytes());
        out.extend_from_slice(&m.to_le_bytes());
        out.extend_from_slice(&off.to_le_bytes());
        out.extend_from_slice(&v.to_le_bytes());
    }
    std::fs::write(format!("{}/res.bin", dir), out).unwrap();
    std::fs::write(format!("{}/extra.bin", dir), extra).unwrap();
    let mut f = std::fs::File::create(format!("{}/messages.txt", dir)).unwrap();
    for (i, m) in sh.messages.lock().unwrap().iter() {
        writeln!(f, "{}\t{}", i, m).unwrap();
    }
    drop(f);
    println!("exec: {} requests, {} hangs{}", n, hangs, if aborted { ", aborted" } else { "" });
    std::process::exit(0)
}
