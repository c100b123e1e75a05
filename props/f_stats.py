T = "the statistics have no tests at all; the laws quantify over all real samples and all call histories"
F = ["coral/stats.py"]
N = "Decided over the exact reals (no float rounding; square roots are the non-negative solutions of their equation). "
PROPS = [
 dict(id="S01", title="Mean, variance and standard deviation are the population ones",
  statement="The mean times the count is the sum; the variance is the mean of the squares minus the square of the mean, is never negative and is zero exactly for equal values; the standard deviation is its square root. The mean follows shifts and scalings, the variance ignores shifts and follows scalings squared.",
  forall="all real samples of 1-3 (thorough 5) values in [-1000, 1000]",
  why=T, files=F, mech=[("moments", "avg, var, std_dev")], note=N + "Samples of up to 3 (thorough 5) values; five scale factors."),
 dict(id="S02", title="Covariance is symmetric and bilinear, correlation is its normalisation",
  statement="The covariance is the mean of the products minus the product of the means, symmetric, linear in each sample, and equals the variance for a sample with itself. The correlation is the covariance over the product of both deviations, within [-1, 1], and 1 or -1 for samples on a rising or falling line.",
  forall="all pairs of real samples of 1-3 (thorough 5; correlation 4) values in [-1000, 1000]",
  why=T, files=F, mech=[("covariance", "covar"), ("correlation", "corr")], note=N + "Samples of up to 3 (thorough 4-5) values with variance above 0.01 for correlations."),
 dict(id="S03", title="Both Gini estimates are the same scale-free measure of inequality",
  statement="Both estimates equal the mean absolute difference over twice the mean, lie within [0, 1], and are 0 for equal shares and 1 when one holds everything. They do not depend on the scale of the values nor on their order.",
  forall="all non-negative real samples of 2-4 (thorough 5) values with positive sum, and all their relative orders; samples of 110 (300) with one symbolic value",
  why=T, files=F, mech=[("pairwise estimate", "gini_kakwani"), ("rank estimate", "gini_deaton")], note=N + "Samples of 2-4 (thorough 5) values in [0, 1000] with sum at least 1."),
 dict(id="S04", title="Remembered statistics never change a result",
  statement="Whatever calls came before, also after results were dropped from memory or the memory was cleared, every statistic of a sample is that of the sample given. Clearing forgets everything, and a repeated call is answered from memory and counted as exactly one hit.",
  forall="all sequences of 3 (thorough 4) calls of 7 functions on all pairs of integers in -9..9, with or without clearing between; all keys of histories longer than the memory",
  why="a stale or mixed-up cache entry needs a particular history of calls", files=F, mech=[("memoisation", "memoize, memos"), ("control", "cache_clear, cache_info")], note="functools.lru_cache is replaced by a faithful model that forks on equality of symbolic arguments; sequences of up to 3 (thorough 4) calls and eviction histories of the real cache sizes up to 32 (thorough 128)."),
]
