//! Iterator histories: random sequences of operations on `Independent`, compared
//! with direct sampling from an identically seeded source that logs its reads.
use crate::dist::{make, AsF64, Dist};
use crate::panics::{install_hook, last_panic};
use crate::source::Mix;
use probability::distribution::{Distribution, Sample};
use probability::sampler::Independent;
use probability::source::{self, Source};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A source that logs how many words it has delivered.
#[derive(Clone)]
pub struct Logged<S>(pub S, pub u64);
impl<S: Source> Source for Logged<S> {
    fn read_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0.read_u64()
    }
}
/// A source with its own idea of a real number, delivering 53 bits in [0, 1).
#[derive(Clone)]
struct Half(Mix);
impl Source for Half {
    fn read_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn read_f64(&mut self) -> f64 {
        self.0.unit()
    }
}
/// Deterministic counter: neighbouring words.
#[derive(Clone)]
struct Counter(u64);
impl Source for Counter {
    fn read_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x0123_4567_89AB_CDEF);
        self.0
    }
}

/// What one item looks like to the monitor.
trait Key: Clone {
    fn key(&self) -> u64;
}
impl Key for f64 {
    fn key(&self) -> u64 {
        self.to_bits()
    }
}
impl Key for u8 {
    fn key(&self) -> u64 {
        *self as u64
    }
}
impl Key for usize {
    fn key(&self) -> u64 {
        *self as u64
    }
}
impl Key for (u64, String) {
    fn key(&self) -> u64 {
        self.0 ^ self.1.len() as u64
    }
}

/// User-defined distributions, to see that the sampler is generic.
struct Pairs;
impl Distribution for Pairs {
    type Value = (u64, String);
    fn distribution(&self, _: f64) -> f64 {
        0.5
    }
}
impl Sample for Pairs {
    fn sample<S: Source>(&self, s: &mut S) -> (u64, String) {
        let a = s.read::<u64>();
        let n = a % 5;
        (0..n).for_each(|_| {
            s.read::<f64>();
        });
        (a, "x".repeat(n as usize))
    }
}
struct Constant;
impl Distribution for Constant {
    type Value = u8;
    fn distribution(&self, _: f64) -> f64 {
        1.0
    }
}
impl Sample for Constant {
    fn sample<S: Source>(&self, _: &mut S) -> u8 {
        7
    }
}

#[derive(Default)]
struct Stats {
    histories: u64,
    operations: u64,
    items: u64,
    words: u64,
    mismatches: u64,
    kinds: [u64; KINDS.len()],
    distinct: HashSet<u64>,
    shown: u64,
    panics: u64,
}

const KINDS: [&str; 18] = [
    "next", "take", "nth", "skip", "step_by", "by_ref", "zip", "take_while", "fold", "for", "peekable", "recreate",
    "two_samplers", "clone_source", "size_hint", "map_filter", "chunks", "try_fold_stop",
];

fn history<T, D, S>(d: &D, mut src: Logged<S>, plan: &mut Mix, ops: u64, label: &str, st: &mut Stats)
where
    T: Key,
    D: Sample<Value = T>,
    S: Source + Clone,
{
    let mut spec = src.clone();
    let mut text = String::new();
    st.histories += 1;
    let mut got_items = 0u64;
    // The specification: draw k samples directly.
    fn draw<T: Key, D: Sample<Value = T>, S: Source>(d: &D, s: &mut S, k: usize) -> Vec<u64> {
        (0..k).map(|_| d.sample(s).key()).collect()
    }
    let n_ops = 1 + plan.below(ops);
    for _ in 0..n_ops {
        let kind = plan.below(KINDS.len() as u64) as usize;
        let k = match plan.below(8) {
            0 => 0,
            1 => 1,
            7 => plan.below(60) as usize,
            _ => plan.below(9) as usize,
        };
        let m = plan.below(5) as usize;
        text.push_str(&format!("{}({},{}) ", KINDS[kind], k, m));
        st.kinds[kind] += 1;
        st.operations += 1;
        let mut got: Vec<u64> = vec![];
        let want: Vec<u64>;
        let mut note = String::new();
        match KINDS[kind] {
            "next" => {
                let mut it = Independent(d, &mut src);
                for _ in 0..k {
                    match it.next() {
                        Some(x) => got.push(x.key()),
                        None => note = "ended".into(),
                    }
                }
                want = draw(d, &mut spec, k);
            }
            "take" => {
                got = Independent(d, &mut src).take(k).map(|x| x.key()).collect();
                want = draw(d, &mut spec, k);
            }
            "nth" => {
                let mut it = Independent(d, &mut src);
                for j in 0..m {
                    match it.nth(k + j) {
                        Some(x) => got.push(x.key()),
                        None => note = "ended".into(),
                    }
                }
                want = (0..m).map(|j| *draw(d, &mut spec, k + j + 1).last().unwrap()).collect();
            }
            "skip" => {
                got = Independent(d, &mut src).skip(k).take(m).map(|x| x.key()).collect();
                want = if m == 0 { vec![] } else { draw(d, &mut spec, k + m)[k..].to_vec() };
            }
            "step_by" => {
                got = Independent(d, &mut src).step_by(k + 1).take(m).map(|x| x.key()).collect();
                let n = if m == 0 { 0 } else { (m - 1) * (k + 1) + 1 };
                want = draw(d, &mut spec, n).into_iter().step_by(k + 1).collect();
            }
            "by_ref" => {
                let mut it = Independent(d, &mut src);
                got.extend(it.by_ref().take(k).map(|x| x.key()));
                got.extend(it.by_ref().take(m).map(|x| x.key()));
                got.extend(it.take(1).map(|x| x.key()));
                want = draw(d, &mut spec, k + m + 1);
            }
            "zip" => {
                // The finite side comes first, so that nothing is drawn in vain.
                got = (0..k).zip(Independent(d, &mut src)).map(|(_, x)| x.key()).collect();
                want = draw(d, &mut spec, k);
            }
            "take_while" => {
                let mut seen = 0;
                got = Independent(d, &mut src)
                    .take_while(|_| {
                        seen += 1;
                        seen <= k
                    })
                    .map(|x| x.key())
                    .collect();
                let mut w = draw(d, &mut spec, k + 1);
                w.pop();
                want = w;
            }
            "fold" => {
                got = Independent(d, &mut src).take(k).fold(vec![], |mut v, x| {
                    v.push(x.key());
                    v
                });
                want = draw(d, &mut spec, k);
            }
            "for" => {
                if k > 0 {
                    for x in Independent(d, &mut src) {
                        got.push(x.key());
                        if got.len() >= k {
                            break;
                        }
                    }
                }
                want = draw(d, &mut spec, k);
            }
            "peekable" => {
                let mut it = Independent(d, &mut src).peekable();
                if let Some(x) = it.peek() {
                    got.push(x.key());
                }
                got.extend(it.take(k + 1).map(|x| x.key()));
                let w = draw(d, &mut spec, k + 1);
                want = std::iter::once(w[0]).chain(w.iter().cloned()).collect();
            }
            "recreate" => {
                for _ in 0..m {
                    let _ = Independent(d, &mut src);
                    got.extend(Independent(d, &mut src).take(k).map(|x| x.key()));
                }
                want = draw(d, &mut spec, k * m);
            }
            "two_samplers" => {
                // Alternating with other consumers of the same source.
                let other = probability::distribution::Uniform::new(0.0, 1.0);
                for _ in 0..m {
                    got.extend(Independent(d, &mut src).next().map(|x| x.key()));
                    got.extend(Independent(&other, &mut src).next().map(|x| x.key()));
                    got.push(src.read::<u64>());
                }
                let mut w = vec![];
                for _ in 0..m {
                    w.push(d.sample(&mut spec).key());
                    w.push(other.sample(&mut spec).key());
                    w.push(spec.read::<u64>());
                }
                want = w;
            }
            "clone_source" => {
                let mut copy = src.clone();
                got.extend(Independent(d, &mut copy).take(k).map(|x| x.key()));
                got.extend(Independent(d, &mut src).take(k).map(|x| x.key()));
                let w = draw(d, &mut spec, k);
                want = w.iter().chain(w.iter()).cloned().collect();
            }
            "size_hint" => {
                let mut it = Independent(d, &mut src);
                let (_, upper) = it.size_hint();
                if upper.is_some() {
                    note = format!("an upper bound {:?} on an endless iterator", upper);
                }
                got.extend(it.by_ref().take(m).map(|x| x.key()));
                let (_, upper) = it.size_hint();
                if upper.is_some() {
                    note = format!("an upper bound {:?} on an endless iterator", upper);
                }
                want = draw(d, &mut spec, m);
            }
            "map_filter" => {
                got = Independent(d, &mut src).map(|x| x.key()).enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).take(m).collect();
                let n = if m == 0 { 0 } else { 2 * m - 1 };
                want = draw(d, &mut spec, n).into_iter().step_by(2).collect();
            }
            "chunks" => {
                let mut it = Independent(d, &mut src);
                for _ in 0..m {
                    let v: Vec<u64> = (&mut it).take(k).map(|x| x.key()).collect();
                    got.extend(v);
                }
                want = draw(d, &mut spec, k * m);
            }
            "try_fold_stop" => {
                let mut n = 0;
                let r: Option<u64> = Independent(d, &mut src).try_fold(0u64, |acc, x| {
                    got.push(x.key());
                    n += 1;
                    if n > k {
                        None
                    } else {
                        Some(acc)
                    }
                });
                if r.is_some() {
                    note = "try_fold came to an end".into();
                }
                want = draw(d, &mut spec, k + 1);
            }
            _ => unreachable!(),
        }
        got_items += want.len() as u64;
        if note.is_empty() && got != want {
            note = format!("items {:x?} instead of {:x?}", &got[..got.len().min(6)], &want[..want.len().min(6)]);
        }
        if note.is_empty() && src.1 != spec.1 {
            note = format!("{} words read instead of {}", src.1, spec.1);
        }
        if !note.is_empty() {
            st.mismatches += 1;
            if st.mismatches <= 5 {
                println!("MISMATCH {}: {}after history: {}", label, note + " ", text);
            }
            return;
        }
    }
    // The sources are in the same state.
    if src.read_u64() != spec.read_u64() {
        st.mismatches += 1;
        if st.mismatches <= 5 {
            println!("MISMATCH {}: the source ends in another state after history: {}", label, text);
        }
    }
    st.items += got_items;
    st.words += spec.1;
    if got_items > 0 {
        let mut h = 0xcbf29ce484222325u64;
        for b in label.bytes().chain(text.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        st.distinct.insert(h);
    }
    if st.shown < 6 && plan.below(50) == 0 {
        st.shown += 1;
        println!("HISTORY {}: {} items, {} words: {}", label, got_items, spec.1, text);
    }
}

fn with_source<T, D>(d: &D, which: u64, seed: u64, plan: &mut Mix, ops: u64, label: &str, st: &mut Stats)
where
    T: Key,
    D: Sample<Value = T>,
{
    match which {
        0 => history(d, Logged(Mix::new(seed), 0), plan, ops, label, st),
        1 => history(d, Logged(source::default(seed), 0), plan, ops, label, st),
        2 => {
            // Logged forwards only words, so count reads through the inner source.
            history(d, Logged(Half(Mix::new(seed)), 0), plan, ops, label, st)
        }
        _ => history(d, Logged(Counter(seed), 0), plan, ops, label, st),
    }
}

/// Determinism and dependence on the seed, without the logging wrapper.
fn seeds<T: Key, D: Sample<Value = T>>(d: &D, seed: u64, label: &str, st: &mut Stats) {
    let run = |s: u64| -> Vec<u64> {
        let mut src = source::default(s);
        Independent(d, &mut src).take(40).map(|x| x.key()).collect()
    };
    let (a, b) = (run(seed), run(seed));
    st.operations += 2;
    if a != b {
        st.mismatches += 1;
        println!("MISMATCH {}: two runs with seed {} differ", label, seed);
    }
    // Half-open source with its own read_f64.
    let mut s1 = Half(Mix::new(seed));
    let mut s2 = s1.clone();
    let a: Vec<u64> = Independent(d, &mut s1).take(40).map(|x| x.key()).collect();
    let b: Vec<u64> = (0..40).map(|_| d.sample(&mut s2).key()).collect();
    st.operations += 1;
    if a != b || s1.read_u64() != s2.read_u64() {
        st.mismatches += 1;
        println!("MISMATCH {}: differs from direct sampling on a user-defined source", label);
    }
}

/// A great many items in a row from one sampler, or as many direct samples:
/// how many, a digest, how many words, and the next word.
fn walk<T: Key, D: Sample<Value = T>>(d: &D, seed: u64, n: u64, sampler: bool) -> (u64, u64, u64, u64) {
    let mix = |h: u64, x: u64| (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    let mut src = Logged(Mix::new(seed), 0);
    let (mut h, mut k) = (0u64, 0u64);
    if sampler {
        let mut it = Independent(d, &mut src);
        while k < n {
            match it.next() {
                Some(x) => h = mix(h, x.key()),
                None => break,
            }
            k += 1;
        }
    } else {
        while k < n {
            h = mix(h, d.sample(&mut src).key());
            k += 1;
        }
    }
    (k, h, src.1, src.read_u64())
}

fn compare(a: (u64, u64, u64, u64), b: (u64, u64, u64, u64), label: &str) -> Result<u64, String> {
    if a == b {
        return Ok(a.0);
    }
    Err(format!("{}: {} items, {} words, digest {:x} instead of {} items, {} words, digest {:x}", label, a.0, a.2, a.1, b.0, b.2, b.1))
}

fn march<T: Key, D: Sample<Value = T>>(d: &D, seed: u64, n: u64, label: &str) -> Result<u64, String> {
    compare(walk(d, seed, n, true), walk(d, seed, n, false), label)
}

/// `history SETS SEED N OPS MARCH LONGEST`
pub fn main(args: &[String]) -> i32 {
    install_hook();
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let seed: u64 = args[1].parse().unwrap();
    let n: u64 = args[2].parse().unwrap();
    let ops: u64 = args[3].parse().unwrap();
    let length: u64 = args[4].parse().unwrap();
    let longest: u64 = args[5].parse().unwrap();
    let mut st = Stats::default();
    let mut plan = Mix::new(seed);
    // More items than fit into 32 bits.
    let [a, b] = [true, false].map(|how| std::thread::spawn(move || walk(&probability::distribution::Uniform::new(-1.0, 3.0), seed ^ 5, longest, how)));
    let (mut marched, mut last) = (0u64, u32::MAX);
    let mut spread = 0u64;
    for line in text.lines() {
        let mut it = line.split(' ');
        let fam: u32 = it.next().unwrap().parse().unwrap();
        let p: Vec<f64> = it.map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
        let label = format!("{} {:?}", crate::dist::FAMILIES[fam as usize], &p[..p.len().min(6)]);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let d = make(fam, &p);
            macro_rules! all { ($($v:ident),*) => { match &d { $(Dist::$v(d) => {
                for _ in 0..n {
                    let (which, seed) = (plan.below(4), 2 + plan.next() / 4);
                    with_source(d, which, seed, &mut plan, ops, &label, &mut st);
                }
                seeds(d, 2 + plan.next() / 4, &label, &mut st);
                // Distinct seeds give distinct streams where the law has many outcomes.
                let distinct: HashSet<u64> = (0..32u64)
                    .map(|s| Independent(d, &mut source::default(1000 + s)).next().unwrap().f().to_bits())
                    .collect();
                if distinct.len() > 16 { spread += 1; }
                if fam != last {
                    match march(d, 2 + plan.next() / 4, length, &label) {
                        Ok(n) => marched += n,
                        Err(e) => { st.mismatches += 1; println!("MISMATCH {}", e); }
                    }
                }
            }),* } } }
            all!(Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace,
                Logistic, Lognormal, Pert, Triangular, Uniform)
        }));
        if r.is_err() {
            st.panics += 1;
            println!("MISMATCH {}: panic {}", label, last_panic());
        }
        last = fam;
    }
    for _ in 0..n * 4 {
        let (which, seed) = (plan.below(4), 2 + plan.next() / 4);
        with_source(&Pairs, which, seed, &mut plan, ops, "user-defined Pairs", &mut st);
        with_source(&Constant, which, seed, &mut plan, ops, "user-defined Constant", &mut st);
    }
    for r in [march(&Pairs, seed ^ 9, length / 16, "user-defined Pairs"), march(&Constant, seed ^ 9, length, "user-defined Constant"), compare(a.join().unwrap(), b.join().unwrap(), "uniform, one long run")] {
        match r {
            Ok(n) => marched += n,
            Err(e) => {
                st.mismatches += 1;
                println!("MISMATCH {}", e);
            }
        }
    }
    let kinds: Vec<String> = KINDS.iter().zip(st.kinds.iter()).map(|(k, n)| format!("\"op_{}\": {}", k, n)).collect();
    println!(
        "SUMMARY {{\"histories\": {}, \"distinct_histories\": {}, \"operations\": {}, \"items\": {}, \"words\": {}, \"mismatches\": {}, \"families_with_spread\": {}, \"items_of_long_runs\": {}, {}}}",
        st.histories,
        st.distinct.len(),
        st.operations,
        st.items,
        st.words,
        st.mismatches,
        spread,
        marched,
        kinds.join(", ")
    );
    0
}
