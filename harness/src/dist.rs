//! Uniform access to the library's public API: build a distribution from
//! (family, parameters) and run one query on it.
use probability::distribution::*;
use probability::source::Source;

pub const FAMILIES: &[&str] = &[
    "bernoulli", "bernoulli_f", "beta", "binomial", "binomial_f", "categorical", "cauchy",
    "exponential", "gamma", "gaussian", "laplace", "logistic", "lognormal", "pert", "triangular",
    "uniform", "gaussian_default", "logistic_default", "lognormal_default", "uniform_default",
    "gaussian_from_iter", "gaussian_from_shape",
];
pub const OPS: &[&str] = &[
    "cdf", "pdf", "inverse", "mean", "variance", "deviation", "skewness", "kurtosis", "entropy",
    "median", "modes", "params", "sample", "sample_script", "new", "sample_word",
];

#[derive(Clone, Debug)]
pub enum Dist {
    Bernoulli(Bernoulli),
    Beta(Beta),
    Binomial(Binomial),
    Categorical(Categorical),
    Cauchy(Cauchy),
    Exponential(Exponential),
    Gamma(Gamma),
    Gaussian(Gaussian),
    Laplace(Laplace),
    Logistic(Logistic),
    Lognormal(Lognormal),
    Pert(Pert),
    Triangular(Triangular),
    Uniform(Uniform),
}

pub fn make(fam: u32, p: &[f64]) -> Dist {
    match FAMILIES[fam as usize] {
        "bernoulli" => Dist::Bernoulli(Bernoulli::new(p[0])),
        "bernoulli_f" => Dist::Bernoulli(Bernoulli::with_failure(p[0])),
        "beta" => Dist::Beta(Beta::new(p[0], p[1], p[2], p[3])),
        "binomial" => Dist::Binomial(Binomial::new(p[0] as usize, p[1])),
        "binomial_f" => Dist::Binomial(Binomial::with_failure(p[0] as usize, p[1])),
        "categorical" => Dist::Categorical(Categorical::new(p)),
        "cauchy" => Dist::Cauchy(Cauchy::new(p[0], p[1])),
        "exponential" => Dist::Exponential(Exponential::new(p[0])),
        "gamma" => Dist::Gamma(Gamma::new(p[0], p[1])),
        "gaussian" => Dist::Gaussian(Gaussian::new(p[0], p[1])),
        "laplace" => Dist::Laplace(Laplace::new(p[0], p[1])),
        "logistic" => Dist::Logistic(Logistic::new(p[0], p[1])),
        "lognormal" => Dist::Lognormal(Lognormal::new(p[0], p[1])),
        "pert" => Dist::Pert(Pert::new(p[0], p[1], p[2])),
        "triangular" => Dist::Triangular(Triangular::new(p[0], p[1], p[2])),
        "uniform" => Dist::Uniform(Uniform::new(p[0], p[1])),
        "gaussian_default" => Dist::Gaussian(Gaussian::default()),
        "logistic_default" => Dist::Logistic(Logistic::default()),
        "lognormal_default" => Dist::Lognormal(Lognormal::default()),
        "uniform_default" => Dist::Uniform(Uniform::default()),
        "gaussian_from_iter" => Dist::Gaussian(p.iter().cloned().collect()),
        // The first number tells what kind of iterator delivers the rest.
        "gaussian_from_shape" => {
            let v = &p[1..];
            Dist::Gaussian(match p[0] as u32 {
                0 => v.to_vec().into_iter().collect(),
                // The length is at most so much.
                1 => v.iter().flat_map(|&x| [f64::NAN, x, f64::INFINITY]).collect::<Vec<_>>().into_iter().filter(|x| x.is_finite()).collect(),
                2 => {
                    let mut i = 0;
                    std::iter::from_fn(|| {
                        i += 1;
                        v.get(i - 1).cloned()
                    })
                    .collect()
                }
                // The length is at least so much.
                3 => v[..v.len() / 3].iter().cloned().chain(v[v.len() / 3..].iter().flat_map(|&x| Some(x))).collect(),
                4 => v.iter().cloned().collect::<std::collections::VecDeque<f64>>().into_iter().collect(),
                5 => v.iter().cloned().collect::<std::collections::LinkedList<f64>>().into_iter().collect(),
                // Yields again after its end.
                6 => Hinted(v.iter().cloned().map(Some).chain([None, Some(1e6), Some(-3e7)]), (0, None)).collect(),
                7 => v.chunks(7).flat_map(|c| c.iter().cloned()).collect(),
                8 => v.iter().cloned().chain([f64::NAN; 9]).collect::<Vec<_>>().into_iter().take_while(|x| !x.is_nan()).collect(),
                // Wrong hints: no excuse for undefined behaviour.
                9 => Hinted(v.iter().cloned().map(Some), (v.len() + 5, Some(v.len() + 5))).collect(),
                10 => Hinted(v.iter().cloned().map(Some), (0, Some(v.len() / 2))).collect(),
                _ => Hinted(v.iter().cloned().map(Some), (v.len() / 2, Some(v.len() / 2))).collect(),
            })
        }
        _ => unreachable!(),
    }
}

struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator<Item = Option<f64>>> Iterator for Hinted<I> {
    type Item = f64;
    fn next(&mut self) -> Option<f64> {
        self.0.next().flatten()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

pub trait AsF64 {
    fn f(self) -> f64;
}
impl AsF64 for f64 {
    fn f(self) -> f64 {
        self
    }
}
impl AsF64 for u8 {
    fn f(self) -> f64 {
        self as f64
    }
}
impl AsF64 for usize {
    fn f(self) -> f64 {
        self as f64
    }
}

macro_rules! on {
    ($s:expr, [$($v:ident),*], $d:ident => $e:expr) => {
        match $s { $(Dist::$v($d) => { let r: Option<f64> = Some($e); r })* _ => None }
    };
}

impl Dist {
    pub fn cdf(&self, x: f64) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.distribution(x))
    }
    pub fn pdf(&self, x: f64) -> Option<f64> {
        match self {
            Dist::Bernoulli(d) => Some(d.mass(x as u8)),
            Dist::Binomial(d) => Some(d.mass(x as usize)),
            Dist::Categorical(d) => Some(d.mass(x as usize)),
            _ => on!(self, [Beta, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic,
                Lognormal, Pert, Triangular, Uniform], d => d.density(x)),
        }
    }
    pub fn inverse(&self, p: f64) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.inverse(p).f())
    }
    pub fn mean(&self) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.mean())
    }
    pub fn variance(&self) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.variance())
    }
    pub fn deviation(&self) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.deviation())
    }
    pub fn skewness(&self) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.skewness())
    }
    pub fn kurtosis(&self) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.kurtosis())
    }
    pub fn entropy(&self) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.entropy())
    }
    pub fn median(&self) -> Option<f64> {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.median())
    }
    pub fn modes(&self) -> Option<Vec<f64>> {
        Some(match self {
            Dist::Bernoulli(d) => d.modes().into_iter().map(AsF64::f).collect(),
            Dist::Binomial(d) => d.modes().into_iter().map(AsF64::f).collect(),
            Dist::Categorical(d) => d.modes().into_iter().map(AsF64::f).collect(),
            Dist::Beta(d) => d.modes(),
            Dist::Cauchy(d) => d.modes(),
            Dist::Exponential(d) => d.modes(),
            Dist::Gamma(d) => d.modes(),
            Dist::Gaussian(d) => d.modes(),
            Dist::Laplace(d) => d.modes(),
            Dist::Logistic(d) => d.modes(),
            Dist::Lognormal(d) => d.modes(),
            Dist::Pert(d) => d.modes(),
            Dist::Triangular(d) => d.modes(),
            Dist::Uniform(_) => return None,
        })
    }
    pub fn params(&self) -> Vec<f64> {
        match self {
            Dist::Bernoulli(d) => vec![d.p(), d.q()],
            Dist::Beta(d) => vec![d.alpha(), d.beta(), d.a(), d.b()],
            Dist::Binomial(d) => vec![d.n() as f64, d.p(), d.q()],
            Dist::Categorical(d) => {
                let mut v = vec![d.k() as f64];
                v.extend_from_slice(d.p());
                v
            }
            Dist::Cauchy(d) => vec![d.x_0(), d.gamma()],
            Dist::Exponential(d) => vec![d.lambda()],
            Dist::Gamma(d) => vec![d.k(), d.theta()],
            Dist::Gaussian(d) => vec![d.mu(), d.sigma()],
            Dist::Laplace(d) => vec![d.mu(), d.b()],
            Dist::Logistic(d) => vec![d.mu(), d.s()],
            Dist::Lognormal(d) => vec![d.mu(), d.sigma()],
            Dist::Pert(d) => vec![d.a(), d.b(), d.c(), d.alpha(), d.beta()],
            Dist::Triangular(d) => vec![d.a(), d.b(), d.c()],
            Dist::Uniform(d) => vec![d.a(), d.b()],
        }
    }
    pub fn sample<S: Source>(&self, s: &mut S) -> f64 {
        on!(self, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian,
            Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.sample(s).f())
        .unwrap()
    }

    /// Run one query. `None` means the library does not offer it.
    pub fn eval(&self, op: u32, arg: f64) -> Option<Vec<f64>> {
        let one = |v: Option<f64>| v.map(|v| vec![v]);
        match OPS[op as usize] {
            "cdf" => one(self.cdf(arg)),
            "pdf" => one(self.pdf(arg)),
            "inverse" => one(self.inverse(arg)),
            "mean" => one(self.mean()),
            "variance" => one(self.variance()),
            "deviation" => one(self.deviation()),
            "skewness" => one(self.skewness()),
            "kurtosis" => one(self.kurtosis()),
            "entropy" => one(self.entropy()),
            "median" => one(self.median()),
            "modes" => self.modes(),
            "params" => Some(self.params()),
            "sample" => {
                let mut s = crate::source::Mix::new(arg as u64);
                Some((0..8).map(|_| self.sample(&mut s)).collect())
            }
            "sample_script" if arg >= (1u64 << 52) as f64 => {
                // Ordinary words only: what 256 samples cost in total, at least, and at most.
                let mut s = crate::source::Scripted::words(vec![], arg as u64);
                let (mut total, mut least, mut most) = (0, u64::MAX, 0);
                for _ in 0..256 {
                    s.reads = 0;
                    self.sample(&mut s);
                    total += s.reads;
                    least = least.min(s.reads);
                    most = most.max(s.reads);
                }
                Some(vec![total as f64, least as f64, most as f64])
            }
            "sample_script" => {
                let mut s = crate::source::Scripted::new(arg as u64);
                let x = self.sample(&mut s);
                Some(vec![x, s.reads as f64])
            }
            "new" => Some(vec![]),
            "sample_word" => {
                // The sample that a given first word leads to, and the number of words read.
                let word = ((arg * (1u64 << 53) as f64) as u64) << 11;
                let mut s = crate::source::Scripted::words(vec![word], 77);
                let x = self.sample(&mut s);
                Some(vec![x, s.reads as f64])
            }
            _ => unreachable!(),
        }
    }
}
