//! Sampling monitor: draws very many samples through the public sampler, counts
//! them online, and reports the counts.
use crate::dist::{make, AsF64, Dist};
use crate::exec::{cpu, install_hook, last_panic, thread_clock};
use crate::source::{splitmix, Mix};
use probability::distribution::Sample;
use probability::sampler::Independent;
use probability::source::{self, Source};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

struct Job {
    fam: u32,
    src: u32,
    seed: u64,
    n: u64,
    params: Vec<f64>,
    locator: Locator,
    bins: usize,
    coarse: Vec<u32>,
    groups: usize,
}

#[derive(Clone)]
struct Count {
    n: u64,
    nan: u64,
    bins: Vec<u64>,
    pairs: Vec<u64>,
    min: f64,
    max: f64,
    message: Option<String>,
}

impl Count {
    fn new(j: &Job) -> Self {
        Count {
            n: 0,
            nan: 0,
            bins: vec![0; j.bins],
            pairs: vec![0; j.groups * j.groups],
            min: f64::INFINITY,
            max: f64::NEG_INFINITY,
            message: None,
        }
    }
    fn add(&mut self, o: &Count) {
        self.n += o.n;
        self.nan += o.nan;
        for (a, b) in self.bins.iter_mut().zip(&o.bins) {
            *a += b;
        }
        for (a, b) in self.pairs.iter_mut().zip(&o.pairs) {
            *a += b;
        }
        self.min = self.min.min(o.min);
        self.max = self.max.max(o.max);
        if self.message.is_none() {
            self.message = o.message.clone();
        }
    }
}

/// Finds the number of edges below a point, with a uniform grid over the bulk of
/// the edges as a shortcut.
struct Locator {
    edges: Vec<f64>,
    grid: Vec<u32>,
    low: f64,
    high: f64,
    scale: f64,
}

const CELLS: usize = 4096;

impl Locator {
    fn new(edges: &[f64]) -> Self {
        let mut l = Locator { edges: edges.to_vec(), grid: vec![], low: 0.0, high: 0.0, scale: 0.0 };
        let n = edges.len();
        if n > 8 {
            let (low, high) = (edges[n / 64], edges[n - 1 - n / 64]);
            let scale = CELLS as f64 / (high - low);
            if low < high && scale.is_finite() && scale > 0.0 {
                l.low = low;
                l.high = high;
                l.scale = scale;
                // For each cell, a lower bound that is certain despite rounding.
                l.grid = (0..CELLS + 1)
                    .map(|c| {
                        let x = low + (c as f64 - 0.001) / scale;
                        edges.iter().filter(|&&e| e < x).count() as u32
                    })
                    .collect();
            }
        }
        l
    }
    #[inline(always)]
    fn locate(&self, x: f64) -> usize {
        if x >= self.low && x < self.high && self.scale > 0.0 {
            let cell = ((x - self.low) * self.scale) as usize;
            let mut b = self.grid[cell.min(CELLS)] as usize;
            while b < self.edges.len() && self.edges[b] < x {
                b += 1;
            }
            b
        } else {
            self.edges.partition_point(|&e| e < x)
        }
    }
}

fn draw<D, T, S>(d: &D, s: &mut S, j: &Job, n: u64, c: &mut Count, tick: &AtomicU64)
where
    D: Sample<Value = T>,
    T: AsF64,
    S: Source,
{
    let mut prev = usize::MAX;
    let mut left = n;
    while left > 0 {
        let m = left.min(1024);
        for x in Independent(d, &mut *s).take(m as usize) {
            let x = x.f();
            if x.is_nan() {
                c.nan += 1;
                continue;
            }
            let b = j.locator.locate(x);
            c.bins[b] += 1;
            let g = j.coarse[b] as usize;
            if prev != usize::MAX {
                c.pairs[prev * j.groups + g] += 1;
            }
            prev = g;
            if x < c.min {
                c.min = x;
            }
            if x > c.max {
                c.max = x;
            }
        }
        c.n += m;
        left -= m;
        tick.fetch_add(1, Relaxed);
    }
}

fn draw_any<S: Source>(d: &Dist, s: &mut S, j: &Job, n: u64, c: &mut Count, t: &AtomicU64) {
    macro_rules! all { ($($v:ident),*) => { match d { $(Dist::$v(d) => draw(d, s, j, n, c, t)),* } } }
    all!(Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace,
        Logistic, Lognormal, Pert, Triangular, Uniform)
}

const BLOCK: u64 = 1 << 20;

/// `sample JOBS OUT [--cpu SECONDS] [--threads N]`
pub fn main(args: &[String]) -> i32 {
    install_hook();
    let mut limit = 30.0;
    let mut threads = 8;
    let mut it = args[2..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--cpu" => limit = it.next().unwrap().parse().unwrap(),
            "--threads" => threads = it.next().unwrap().parse().unwrap(),
            other => panic!("unknown option {}", other),
        }
    }
    let raw = std::fs::read(&args[0]).unwrap();
    let words: Vec<u64> =
        raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut jobs = Vec::new();
    let mut k = 0;
    while k < words.len() {
        let h = &words[k..k + 7];
        let (np, ne) = (h[4] as usize, h[5] as usize);
        k += 7;
        let f = |w: &[u64]| w.iter().map(|&x| f64::from_bits(x)).collect::<Vec<f64>>();
        let params = f(&words[k..k + np]);
        k += np;
        let edges = f(&words[k..k + ne]);
        k += ne;
        let coarse = words[k..k + ne + 1].iter().map(|&x| x as u32).collect();
        k += ne + 1;
        jobs.push(Job {
            fam: h[0] as u32,
            src: h[1] as u32,
            seed: h[2],
            n: h[3],
            params,
            locator: Locator::new(&edges),
            bins: ne + 1,
            coarse,
            groups: h[6] as usize,
        });
    }
    let mut tasks = Vec::new();
    for (i, j) in jobs.iter().enumerate() {
        let mut done = 0;
        let mut b = 0u64;
        while done < j.n {
            let m = (j.n - done).min(BLOCK);
            tasks.push((i, b, m));
            done += m;
            b += 1;
        }
    }
    let totals: Vec<Mutex<Count>> = jobs.iter().map(|j| Mutex::new(Count::new(j))).collect();
    let next = AtomicUsize::new(0);
    let finished = AtomicUsize::new(0);
    let ticks: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let clocks: Vec<AtomicU32> = (0..threads).map(|_| AtomicU32::new(0)).collect();
    let current: Vec<AtomicUsize> = (0..threads).map(|_| AtomicUsize::new(usize::MAX)).collect();
    let mut hung: Option<usize> = None;
    std::thread::scope(|scope| {
        for t in 0..threads {
            let (jobs, tasks, totals, next, finished) = (&jobs, &tasks, &totals, &next, &finished);
            let (tick, clock, cur) = (&ticks[t], &clocks[t], &current[t]);
            scope.spawn(move || {
                clock.store(thread_clock() as u32, SeqCst);
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= tasks.len() {
                        break;
                    }
                    let (k, b, m) = tasks[i];
                    cur.store(k, SeqCst);
                    let j = &jobs[k];
                    let mut c = Count::new(j);
                    let mut seed = j.seed.wrapping_add(b.wrapping_mul(0x9E37_79B9_7F4A_7C15));
                    let seed = splitmix(&mut seed);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let d = make(j.fam, &j.params);
                        if j.src == 0 {
                            draw_any(&d, &mut Mix::new(seed), j, m, &mut c, tick);
                        } else {
                            draw_any(&d, &mut source::default(seed), j, m, &mut c, tick);
                        }
                    }));
                    if r.is_err() {
                        c.message = Some(last_panic());
                    }
                    totals[k].lock().unwrap().add(&c);
                    tick.fetch_add(1, Relaxed);
                }
                cur.store(usize::MAX, SeqCst);
                finished.fetch_add(1, SeqCst);
                // Parked rather than finished, so that its clock stays readable.
                while finished.load(SeqCst) < threads {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
            });
        }
        let mut seen = vec![(u64::MAX, 0.0); threads];
        while finished.load(SeqCst) < threads {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for t in 0..threads {
                if current[t].load(SeqCst) == usize::MAX {
                    continue;
                }
                let tick = ticks[t].load(Relaxed);
                let now = cpu(clocks[t].load(SeqCst) as i32);
                if tick != seen[t].0 {
                    seen[t] = (tick, now);
                } else if now - seen[t].1 > limit {
                    hung = Some(current[t].load(SeqCst));
                    let mut text = format!("hang {}\n", hung.unwrap());
                    text.push_str("end\n");
                    std::fs::write(&args[1], text).unwrap();
                    std::process::exit(0);
                }
            }
        }
    });
    let mut out = String::new();
    for (i, c) in totals.iter().enumerate() {
        let c = c.lock().unwrap();
        let join = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        out.push_str(&format!(
            "job {} {} {} {:?} {:?}\nbins {}\npairs {}\nmessage {}\n",
            i,
            c.n,
            c.nan,
            c.min,
            c.max,
            join(&c.bins),
            join(&c.pairs),
            c.message.clone().unwrap_or_default()
        ));
    }
    out.push_str("end\n");
    std::fs::write(&args[1], out).unwrap();
    0
}
