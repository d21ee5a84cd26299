#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/distribution/"
ALL = [D + f + ".rs" for f in ("bernoulli beta binomial categorical cauchy exponential gamma gaussian laplace logistic "
                               "lognormal pert triangular uniform").split()]
CONT = [f for f in ALL if not any(d in f for d in ("bernoulli", "binomial", "categorical"))]
DISC = [f for f in ALL if f not in CONT]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None), _t=technique, _n=note))


NUM = ("Exploration: every recorded return value of the real library, built from the working tree, is judged against an independent "
       "reference (scipy, then mpmath at 50 digits before any alarm). Trusted: the reference formulas, mpmath, and the stated tolerances; "
       "inputs outside the generated ranges are not observed.")
PT = "The tests compare a handful of hand-picked parameters and points with rounded constants; the claim is about every valid parameter and every argument, where regime switches, cancellation and extreme scales live."

prop("C01", "Distribution functions are cumulative distribution functions",
     "For every distribution with valid parameters, the cumulative distribution function at any real argument (infinities included) is a number "
     "between 0 and 1, never decreases beyond rounding as the argument grows, is 0 below the support and 1 from its upper end on, and tends to 0 and 1 at minus and plus infinity. "
     "For discrete distributions it is constant between consecutive outcomes, and it reaches exactly 1 at the largest outcome.",
     ["inputs"], "every family, every valid parameter, every ordered pair of arguments", PT, ALL,
     [("distribution", "impl Distribution for each family in src/distribution/*.rs"), ("cumulative sums with the last one set to 1", D + "categorical.rs Categorical::new")],
     ["Distribution::distribution"], "online monitor of range, limits, steps and monotonicity over recorded CDF values",
     "Exploration with a reference-free oracle: the observed values are only compared with each other and with 0 and 1; monotone up to the family's stated accuracy.")
prop("C02", "Distribution functions have the right value",
     "For every family and valid parameters, the cumulative distribution function at any argument equals the mathematical one to the accuracy of double precision (about 1e-13, and about 1e-9 for the families that rest on incomplete beta and gamma functions; the families with a closed form keep relative accuracy in the lower tail), "
     "including both tails, the ends of the support and non-integer arguments of discrete families.",
     ["inputs"], "every family, valid parameter and argument", PT, ALL, [("distribution", "impl Distribution for each family")],
     ["Distribution::distribution"], "differential monitor against scipy/mpmath reference distributions", NUM)
prop("C03", "Densities have the right value and vanish outside the support",
     "For every continuous family and valid parameters, the density at any argument is never NaN or negative, is zero strictly outside the support and at infinities, and equals the mathematical density to relative rounding accuracy everywhere else, "
     "including next to the ends of the support, at the mode and deep in the tails.",
     ["inputs"], "every continuous family, valid parameter and argument", PT, CONT, [("density", "impl Continuous for each family")],
     ["Continuous::density"], "differential monitor against scipy/mpmath reference densities", NUM)
prop("C04", "Masses have the right value",
     "For every discrete family and valid parameters, the mass of any outcome lies in [0, 1], is zero for anything that is not an outcome (such as more successes than trials), and equals the mathematical mass to relative rounding accuracy, "
     "for small, huge and boundary numbers of trials and for probabilities next to 0 and 1.",
     ["inputs"], "every discrete family, valid parameter and outcome", PT, DISC,
     [("mass", "impl Discrete for Bernoulli, Binomial, Categorical"), ("saddle-point expansion: stirlerr and bd0", D + "binomial.rs")],
     ["Discrete::mass"], "differential monitor against exact/mpmath reference masses", NUM + " Known finding K1 is recognised by its exact predicted error.")
prop("C05", "Densities and masses agree with the distribution function",
     "For every family and valid parameters, the increase of the cumulative distribution function over any interval equals the integral of the density, or the sum of the masses, over that interval; "
     "in particular the masses of a discrete distribution sum to one.",
     ["inputs"], "every family, valid parameter and interval", PT, ALL, [("distribution and density or mass", "each family")],
     ["Distribution::distribution", "Continuous::density", "Discrete::mass"], "consistency monitor: quadrature of observed densities and sums of observed masses against observed CDF increments",
     "Exploration, reference-free: the library's functions are compared with one another; Gauss-Legendre quadrature on smooth intervals, whole lattices up to n = 2000. K1 recognised by its predicted error.")
prop("C06", "Continuous quantile functions invert the distribution function",
     "For every continuous family with an inverse and every probability in [0, 1], the inverse of the distribution function terminates, returns a point of the (closed) support that is the exact quantile up to rounding, never decreases as the probability grows, and maps 0 and 1 to the ends of the support. "
     "For Beta and Pert the returned point carries the requested cumulative probability to about 1e-8.",
     ["inputs"], "every continuous family but Gamma, valid parameter and probability", PT, [f for f in CONT if "gamma" not in f],
     [("inverse", "impl Inverse for each family"), ("rational approximation in three regimes", D + "gaussian.rs inverse"), ("Newton iteration and bisection", D + "beta.rs inverse")],
     ["Inverse::inverse"], "differential monitor against reference quantiles plus order monitor", NUM)
prop("C07", "Discrete quantile functions are generalized inverses",
     "For every discrete family and probability strictly between 0 and 1, the inverse terminates and returns the smallest outcome whose cumulative probability is at least the requested one (within rounding; within a small fraction of one jump where a large binomial uses an asymptotic expansion). "
     "It never decreases as the probability grows, returns an outcome with positive probability, and maps 0 and 1 into the ends of the support.",
     ["inputs"], "every discrete family, valid parameter and probability, in particular next to jumps", PT, DISC,
     [("inverse", "impl Inverse for Bernoulli, Binomial, Categorical"), ("summation, Newton's method, and normal approximation", D + "binomial.rs inverse")],
     ["Inverse::inverse"], "oracle on recorded quantiles: bracketing by the exact CDF around jumps", NUM + " Known finding K2 is recognised by its regime and a bound on its error.")
prop("C08", "Means, variances and deviations have the right value",
     "For every family with moments and valid parameters, the mean, variance and standard deviation equal the mathematical ones to rounding accuracy, whatever the scale of the parameters; the variance is never negative or NaN and the deviation is its square root.",
     ["inputs"], "every family and valid parameter", PT, ALL, [("mean, variance, deviation", "impl distribution::Mean, Variance for each family")],
     ["Mean::mean", "Variance::variance", "Variance::deviation"], "differential monitor against closed forms at 50 digits", NUM)
prop("C09", "Skewness and kurtosis have the right value",
     "For every family with higher moments and valid non-degenerate parameters, the skewness and the excess kurtosis equal the mathematical ones (standardized third and fourth central moments, the latter minus three) to rounding accuracy, including near-symmetric and extremely skewed shapes.",
     ["inputs"], "every family and valid parameter", PT, ALL, [("skewness, kurtosis", "impl Skewness, Kurtosis for each family")],
     ["Skewness::skewness", "Kurtosis::kurtosis"], "differential monitor against closed forms at 50 digits", NUM)
prop("C10", "Entropies have the right value",
     "For every family and valid parameters, the entropy equals the mathematical (differential or Shannon) entropy in nats, is finite whenever that is, and ignores outcomes of zero probability; large binomial distributions may use the normal approximation up to its known error.",
     ["inputs"], "every family and valid parameter", PT, ALL, [("entropy", "impl Entropy for each family")],
     ["Entropy::entropy"], "differential monitor against closed forms at 50 digits and direct summation", NUM)
prop("C11", "Medians split the probability in half",
     "For every family with a median and valid parameters, at least half of the probability lies on either side of the reported median (for discrete families it may be the midpoint between the two adjacent candidates of a tie). "
     "The unequal-shape Beta distribution with both shapes above one may use its closed-form approximation.",
     ["inputs"], "every family with a median and valid parameter", PT, [f for f in ALL if "gamma" not in f], [("median", "impl Median for each family")],
     ["Median::median"], "oracle: reference CDF on both sides of the recorded median", NUM + " Known finding K3 is recognised by the tie and the value returned for it.")
prop("C12", "Modes are the maximizers of the density or mass",
     "For every family with modes and valid parameters, the reported modes are exactly the points of largest density or mass, in ascending order and without repetition: all of them when there are ties, none when every point of the support is one or none exists.",
     ["inputs"], "every family with modes and valid parameter, in particular ties", PT, [f for f in ALL if "uniform" not in f], [("modes", "impl Modes for each family")],
     ["Modes::modes"], "oracle: closed forms and exact rational comparison of neighbouring masses", NUM)
prop("C13", "Samples of continuous distributions follow their law",
     "For every continuous family and valid parameters, samples drawn from a uniform source of randomness are distributed according to the cumulative distribution function, bulk and tails, and successive samples are independent.",
     ["inputs", "histories"], "every continuous family, valid parameter and source state", "The tests draw a few numbers from one seed and compare them with recorded output; a wrong table entry, a rejection step that is slightly off, or a correlation shows only in millions of samples.",
     CONT, [("sample", "impl Sample for each family"), ("ziggurat tables", D + "gaussian.rs"), ("Marsaglia-Tsang with boosting", D + "gamma.rs"), ("ratio of gamma variates", D + "beta.rs")],
     ["Sample::sample", "sampler::Independent"], "online statistical monitor: histogram chi-square and lag-1 pairs over up to billions of samples",
     "Exploration: an alarm needs a p-value below 1e-12 that a second, independent batch confirms, so that false alarms are negligible; deviations smaller than the resolution of the sample size are not seen.")
prop("C14", "Samples of discrete distributions follow their law",
     "For every discrete family and valid parameters, samples drawn from a uniform source of randomness take every outcome with its mass, and successive samples are independent.",
     ["inputs", "histories"], "every discrete family, valid parameter and source state", "The tests draw a few numbers from one seed; frequencies need millions.",
     DISC, [("sample", "impl Sample for Bernoulli, Binomial, Categorical")], ["Sample::sample", "sampler::Independent"],
     "online statistical monitor: outcome counts chi-square and lag-1 pairs", "As C13; K2 (Binomial::inverse in one regime) is recognised by a bound on the empirical distribution function.")
prop("C15", "Samples are outcomes, whatever the source delivers",
     "Whatever 64-bit words the source of randomness delivers (all zeros, all ones, alternating extremes), sampling terminates and yields a value that is not NaN, lies in the closed support, and is never an outcome of zero probability.",
     ["inputs", "fault_sequences"], "every family, valid parameter and sequence of words from the source", "The tests use one well-behaved generator; the extremes of a source have probability 2^-64 each.",
     ALL, [("sample", "impl Sample for each family")], ["Sample::sample"], "fault injection at the source of randomness with an online support monitor",
     "Exploration of hostile scripts of words (extremes, powers of two, corner words of the ziggurat) followed by ordinary ones; infinite values of unbounded families count as their closed support.")
prop("C16", "The independent sampler is a faithful endless iterator",
     "An independent sampler yields exactly what repeated sampling of the distribution with the same source yields, in order, without end, drawing from the source only when an item is requested and leaving it positioned after the last item. "
     "The result depends on nothing but the distribution, the state of the source and the number of items, through any way of iterating (next, nth, skip, step_by, by_ref, clones of the source).",
     ["histories", "inputs"], "every family, seed and interleaving of iterator operations", "The tests only collect the first items; the equivalence ranges over all ways of consuming an iterator.",
     ["src/sampler/mod.rs", "src/source/mod.rs"] + ALL, [("Iterator::next", "src/sampler/mod.rs Independent"), ("re-exported sources", "src/source/mod.rs")],
     ["sampler::Independent", "source::default"], "trace-equivalence monitor: recorded iterator histories against direct sampling with a word-counting source",
     "Exploration of random histories of iterator operations; the source logs every word read.")
prop("C17", "Valid requests always return",
     "Every operation of every distribution with valid parameters and a valid argument (any real number for distribution functions and densities, any outcome for masses, any probability for quantiles) returns (after an amount of work bounded by the standard deviation, in the case of a binomial), without panicking, overflowing an integer, failing an internal assertion or crashing, in debug and release builds alike.",
     ["inputs", "configurations"], "every family, operation, valid parameter and argument, in both build profiles", "The tests exercise a few benign inputs; divergence of an iteration and arithmetic overflow need particular ones.",
     ALL + ["src/lib.rs"], [("iterations: inverse of Binomial, Beta and Pert; rejection sampling", "src/distribution/*.rs")], ["all public operations"],
     "totality monitor over random histories of requests: checked build (overflow and debug assertions) with a CPU-time watchdog", "Exploration; hangs are confirmed alone with 60 s of CPU time before they count.")
prop("C18", "Location-scale families are equivariant",
     "Changing the location and scale parameters of a location-scale family transforms every answer accordingly: distribution values at corresponding points are equal, densities divide by the scale, quantiles, means, medians, modes and samples (from the same source state) follow the affine map, variances scale with its square, skewness and kurtosis stay, and entropy shifts by the logarithm of the scale.",
     ["inputs"], "every location-scale or scale family, parameters, affine map and argument", "The tests use one or two locations and scales per family.",
     CONT, [("standardization of the argument", "each family")], ["all public operations"], "metamorphic monitor: relation between two executions under exact power-of-two affine maps",
     "Exploration, reference-free: relations between executions; maps are powers of two with exactly representable shifts so that rounding stays at a few ulp.")
prop("C19", "Related distributions agree with one another",
     "Distributions that are mathematically the same, mirror images, or transforms of one another answer consistently: Pert with its Beta, Beta(1,1) with Uniform, Gamma(1,t) with Exponential, Lognormal with the exponential of Gaussian, Bernoulli with Binomial of one trial and with Categorical of two outcomes, Binomial n,p with n,1-p, Categorical with zero-probability outcomes appended, and the symmetric families with their reflections.",
     ["inputs"], "every pair of related distributions, their parameters and arguments", "No test compares two families or two parameterizations.",
     ALL, [("independent implementations of equal mathematical objects", "src/distribution/*.rs")], ["all public operations"], "metamorphic monitor: cross-family and reflection relations between executions",
     "Exploration, reference-free; tolerances as in C02 to C12.")
prop("C20", "Constructors keep their parameters and accept all valid ones",
     "Every valid parameter set, boundary cases included, is accepted; accessors return the very parameters given, derived parameters (failure probability, shape parameters of Pert, number of categories) are right to rounding, defaults are the standard distributions, alternative constructors build the same distribution, and clones equal their originals.",
     ["inputs", "configurations"], "every family and valid parameter, in both build profiles", "The tests construct a few examples.",
     ALL, [("new, with_failure, default, accessors", "each family")], ["constructors and accessors"], "monitor of constructor/accessor round trips, bit for bit", "Exploration.")
prop("C21", "Debug builds reject invalid parameters",
     "In builds with debug assertions every constructor panics on parameters that violate its documented contract (non-positive scales and shapes, empty or reversed intervals, probabilities outside their range, probability vectors that are empty, negative or do not sum to one, modes outside the support, NaN), and every quantile function on probabilities outside [0, 1].",
     ["inputs", "configurations"], "every family and every invalid parameter or probability", "Only a few invalid inputs are tested.",
     ALL + ["src/lib.rs"], [("should! assertions", "src/lib.rs and each constructor")], ["constructors", "Inverse::inverse"], "fault injection: invalid parameters in a checked build with a monitor for the rejection", "Exploration of invalid parameter sets obtained by corrupting valid ones in one place.")
prop("C22", "Gaussian collected from data has its sample moments",
     "Collecting any sequence of finite numbers, at least two of them distinct and none so large that sums or squares overflow, into a Gaussian distribution yields its arithmetic mean and its sample standard deviation (with the n - 1 denominator) to rounding accuracy, regardless of the order of the data, its offset or its length.",
     ["inputs", "histories"], "every finite sequence with at least two distinct numbers", "The tests use one short sequence.", [D + "gaussian.rs"], [("FromIterator for Gaussian", D + "gaussian.rs")], ["FromIterator::from_iter"],
     "differential monitor against exact rational arithmetic", "Exploration; tolerance follows the conditioning of the variance (offset over deviation).")
prop("C23", "Queries are pure",
     "The answer to a query depends only on the parameters and the argument: it is bit for bit the same on a fresh, reused, cloned or shared distribution, in any order of queries, from any number of threads at once, and in debug and release builds. Distributions and queries leave no trace on one another.",
     ["inputs", "histories", "schedules", "configurations"], "every family, operation, order of queries and interleaving of threads", "Tests query a fresh distribution sequentially.",
     ALL + ["src/lib.rs"], [("&self methods without interior mutability", "src/distribution/*.rs")], ["all public operations"],
     "differential monitor of repeated executions: shuffled, shared among 8 threads, fresh, cloned, checked build; ThreadSanitizer", "Exploration of histories and of thread interleavings.")
prop("C24", "No undefined behaviour or memory error",
     "No use of the library through its safe interface, with any parameters (even invalid ones in release builds), any argument and any source of randomness, reads or writes memory out of bounds, uses uninitialized memory, leaks, races or otherwise has undefined behaviour; at worst it panics, aborts, or fails to return.",
     ["inputs", "fault_sequences", "schedules"], "every sequence of calls through the safe API", "Tests run without sanitizers on benign inputs.",
     ALL + ["src/sampler/mod.rs", "src/source/mod.rs", "src/lib.rs"], [("safe Rust without unsafe blocks", "src/**"), ("table lookups", D + "gaussian.rs, " + D + "binomial.rs")], ["process-level"],
     "AddressSanitizer/LeakSanitizer build, Miri interpreter and checked build under hostile workloads", "Exploration; Miri covers a smaller workload than ASan.")

prop("C25", "Quantile and distribution functions undo each other",
     "Within each family that offers both, taking the quantile of a probability and then the distribution function of the result returns to that probability, and taking the distribution function of an argument, then the quantile, then the distribution function changes nothing, "
     "to the accuracy of the two functions (rounding; 1e-8 for Beta and Pert; within one jump for discrete families: the probability at the quantile is enough, the one just below it is not). "
     "For discrete families the quantile of a probability in the middle of the jump at an outcome is that outcome, whenever the jump is visible in double precision.",
     ["inputs", "histories"], "every family with both functions, valid parameter, probability and argument", "No test composes the two functions beyond one or two points.",
     [f for f in ALL if "gamma" not in f], [("distribution and inverse", "impl Distribution and Inverse for each family"), ("three algorithms of Binomial::inverse", D + "binomial.rs")],
     ["Distribution::distribution", "Inverse::inverse"], "round-trip monitor: arguments of later requests are recorded answers of earlier ones",
     "Exploration, reference-free. Known finding K2 is recognised by its regime, a bound on its error, and the next outcome.")
prop("C26", "Summaries describe the distribution's own density",
     "The mean, variance, skewness, excess kurtosis and entropy a distribution reports are those of the density or masses it reports, which integrate or sum to one over the support; its median halves its own distribution function, and its modes maximize its own density or mass.",
     ["inputs", "histories"], "every family and valid parameter whose support double precision resolves", "The tests compare each summary with a constant; none relates two answers of one distribution over many parameters.",
     ALL, [("moments, entropy, median, modes against density or mass", "each family")],
     ["all public operations but inverse and sample"], "consistency monitor: quadrature of the observed density (sums of observed masses) against the observed summaries",
     "Exploration, reference-free: reference quantiles only place the nodes; about 1e-9 relative to the absolute moments. K1 is corrected by its predicted factor, K3 recognised by its tie.")
prop("C27", "Sampling consumes a bounded number of words",
     "From an ordinary (uniform) source of randomness, drawing a sample reads on average no more than sixteen 64-bit words, and never hundreds of them, whatever the distribution and its parameters; a sample of a continuous distribution reads at least one.",
     ["inputs"], "every family, valid parameter and seed", "The tests never count words; rejection loops whose acceptance collapses for some shapes still return.",
     ALL, [("rejection loops", D + "gamma.rs, " + D + "gaussian.rs"), ("ratio of gamma variates", D + "beta.rs")], ["Sample::sample", "Source::read_u64"],
     "resource monitor: a word-counting source with online limits", "Exploration; the worst family needs about six words on average and a few dozen at most.")

have = sys.argv[1:] or [p["id"] for p in P if any(("def %s(" % p["id"].lower()) in open(V + "/mon/" + f).read() for f in os.listdir(V + "/mon") if f.endswith(".py"))]
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3-vt tools/setup.py",
         hooks=dict(guard="none", enable="not needed: every property is observed through the public API; the harness crate has a path dependency on /repo", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3-vt check.py %s quick" % p["id"], thorough_cmd="python3-vt check.py %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level="exploration", level_note=p["_n"]) for p in P if p["id"] in have],
         not_applicable=[dict(property=p["id"], reason="check under construction") for p in P if p["id"] not in have],
         notes="See DESIGN.md. known_findings.json lists recorded findings and fixed defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")

# DESIGN.md from its template
props = []
for p in P:
    props.append("### %s %s\n\n%s\n\n*Decided by:* %s. %s\n" % (p["id"], p["title"], p["statement"], p["_t"], p["_n"]))
det = V + "/tools/details.md"
if os.path.exists(det):
    d = open(det).read()
    for i, p in enumerate(P):
        key = "## %s\n" % p["id"]
        if key in d:
            props[i] += "\n" + d.split(key, 1)[1].split("\n## ", 1)[0].strip() + "\n"
seeded = V + "/tools/seeded.md"
text = open(V + "/tools/DESIGN.in.md").read().replace("@@PROPS@@", "\n".join(props))
notes = json.load(open(V + "/tools/seeded_notes.json"))
rows = ["| change | file | what breaks, and when | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    f = [l[6:].strip().replace("src/", "").replace("distribution/", "") for l in open(V + "/seeded/" + d + "/patch.diff") if l.startswith("+++ ")]
    rows.append("| %s | %s | %s: %s | %s |" % (d, ", ".join(f), m["what_it_breaks"], m["needs"], notes.get(d, m["property"])))
text = text.replace("@@SEEDED@@", open(seeded).read().replace("@@TABLE@@", "\n".join(rows)))
open(V + "/DESIGN.md", "w").write(text)
