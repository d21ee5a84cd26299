#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 dict(id="K1", properties=["C04", "C05", "C10", "C26"],
      what="Binomial::mass(x) where n, x or n - x is 11 (0 < x < n): entry 11 of the table of Stirling errors in src/distribution/binomial.rs is wrong, so the mass is off by a factor exp(d), d = 1.83692059243e-4 * ([n=11] - [x=11] - [n-x=11]); sums over such outcomes (entropy, totals) inherit it",
      example="Binomial::new(11, 0.5).mass(3) is too large by 1.8e-4 relatively",
      why_not_repaired="existing tests record values computed with the wrong entry to 1e-14, so a correction fails the unedited suite",
      recognised_by="the observed value equals the exact one times the predicted factor within the normal tolerance"),
 dict(id="K2", properties=["C07", "C14", "C25"],
      what="Binomial::inverse(p) where n >= 1000 and n p q <= 80: Newton's method rounds to the nearest outcome, so the answer q has 0 < p - F(q) < 0.6 mass(q) and is one less than it should be; Binomial samples in that regime inherit it",
      example="Binomial::new(1000, 0.05).inverse(0.5) is 49, but P(X <= 49) = 0.4797",
      why_not_repaired="an existing test pins the rounded answers in this regime",
      recognised_by="the regime together with 0 < p - F(q) < 0.6 mass(q) and p <= F(q + 1)"),
 dict(id="K3", properties=["C11", "C26"],
      what="Categorical::median on a tie: when the cumulative probability of outcome i >= 1 is exactly one half, the median is i - 1/2 instead of i + 1/2",
      example="Categorical::new(&[1/6, 1/3, 1/3, 1/6]).median() is 0.5 instead of 1.5",
      why_not_repaired="existing tests record the wrong values",
      recognised_by="the tie at i = median + 1/2"),
 dict(id="K4", properties=["C01", "C02"],
      what="Binomial::distribution for more than 1e13 trials: the logarithm of the beta function, of the order n ln n, loses all digits before it is exponentiated in the dependency, so the result may leave the unit interval",
      example="Binomial::new(9007199254740993, 1e-15).distribution(8.0) is of the order of 1e10",
      why_not_repaired="it needs another algorithm for the incomplete beta function than the one of the special crate, not a small patch",
      recognised_by="a Binomial with more than 1e13 trials"),
 dict(id="K5", properties=["C02"],
      what="Gamma::distribution(x) is 1 whenever x / theta exceeds 1e8 (a limit of the dependency), also when the shape k is larger than that",
      example="Gamma::new(1e9, 1.0).distribution(9.9e8) is 1, but the exact value is about 1e-2300",
      why_not_repaired="the cutoff is inside the special crate; a correction needs another algorithm",
      recognised_by="a Gamma with k > 9.9e7"),
]
X = """C04 f957515 Binomial::mass of more successes than trials underflowed n - x
C02 2806cfe Binomial::distribution(0) truncated the number of trials to i32
C10 ad88531 Binomial::entropy was NaN when a mass underflowed to zero
C07 338ed41 Binomial::inverse: wrong coefficient of the normal approximation
C07 bb8bd9a Binomial::inverse: a term of the normal approximation was not scaled
C07,C17 52f1a44 Binomial::inverse did not terminate when its starting mass underflowed or Newton's method diverged
C11 a7e5603 Binomial::median took the wrong neighbor of the mean
C11 d77137f Beta::median of symmetric shapes ignored the location
C03 c73345a Beta and Pert densities were NaN at endpoints with a unit shape
C06 1c3f41e Beta::inverse returned unconverged approximations
C13,C15 1c57e34 Beta::sample returned NaN for small shapes
C03 a6dbbb1 Gamma::density overflowed for large shapes
C03 5cdb549 Gamma::density(inf) was NaN
C03 9f21299 Logistic::density was NaN far below the location
C10 4827078 Categorical::entropy was NaN with zero probabilities
C01,C07,C15 435fdca Categorical: rounding of the cumulative sums left probability beyond the last outcome
C08,C09 f11a553 Triangular::variance and skewness cancelled catastrophically
C08,C09 2d39f8b Lognormal moments cancelled catastrophically for small sigma
C10 31041d0 Lognormal::entropy overflowed
C17,C20 84990e8 Binomial rejected the documented boundary probabilities 0 and 1
C04 75173ef Binomial::mass lost tiny positive failure probabilities
C03 bd1755b Lognormal::density divided zero by zero next to the origin
C01 3c8078a Triangular::distribution left the unit interval
C06,C17 e93de07 Beta::inverse and Pert::inverse did not terminate for extremely small probabilities
C06,C17 341836d Beta::inverse and Pert::inverse did not terminate in the tails
C17 1017b2e Binomial::inverse underflowed in debug builds when the top-down summation ended at zero
C12,C17 82617e0 Binomial::modes overflowed at usize::MAX trials
C17 25c162d Binomial::entropy summed over every outcome, for hours with 1e12 trials
C07,C15 e76b812 Binomial::inverse and sampling of degenerate distributions returned outcomes of zero probability
C07,C17 f918985 Binomial::inverse did not terminate when the summation missed the probability by rounding
C03 cc69a0f Gaussian and lognormal densities overflowed or underflowed at extreme scales
C03 cc14a1d Cauchy::density overflowed or underflowed at extreme scales
C01,C02 c02e886 Triangular::distribution overflowed or underflowed at extreme scales
C04 eb46494 Binomial::mass lost accuracy at the ends of the support for small probabilities
C09 0479c27 Triangular::skewness overflowed or underflowed at extreme scales
C07,C14,C25 bb76ca2 Binomial::inverse stopped several outcomes short in the tails where Newton's method is used
C06,C25 c5a51a5 Cauchy::inverse lost the digits of small probabilities (and of those next to one)
C06 b129484 Logistic::inverse was infinite for positive subnormal probabilities
C02,C05 8d57176 Gaussian::distribution lost the lower tail, up to being zero beyond 8.3 deviations
C02,C05 1e6e7b3 Cauchy::distribution lost the digits of the lower tail
C02 2648dc8 Binomial::distribution(0) lost the digits of a small success probability
C10 3ade61e Bernoulli::entropy lost the contribution of a nearly certain outcome
C12 8ec5a09 Binomial::modes reported a second mode when the product with a success probability next to one was rounded to an integer
C03,C20 e878c43 Pert lost the digits of its shapes far from the origin, down to below one, where the density at an end is infinite"""
fixed = ["fixed: property=%s %s" % (p, l.split(" ", 1)[1]) for l in X.split("\n") for p in l.split(" ", 1)[0].split(",")]
json.dump(dict(findings=F, fixed=fixed), open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
