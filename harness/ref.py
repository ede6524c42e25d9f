"""Independent reference models. Nothing here imports GIRTH."""
import numpy as np
from scipy import stats

MISSING = -99999


# ---------------------------------------------------------------- functions
def logistic(x):
    x = np.asarray(x, dtype='float64')
    return np.where(x >= 0, 1.0 / (1.0 + np.exp(-np.abs(x))),
                    np.exp(-np.abs(x)) / (1.0 + np.exp(-np.abs(x))))


def log_logistic(x):
    x = np.asarray(x, dtype='float64')
    return np.where(x >= 0, -np.log1p(np.exp(-np.abs(x))),
                    x - np.log1p(np.exp(-np.abs(x))))


def quadrature(n, low, high):
    x, w = np.polynomial.legendre.leggauss(n)
    return (high - low) / 2.0 * x + (high + low) / 2.0, w * (high - low) / 2.0


# ------------------------------------------------------- category functions
# each returns probabilities [n_categories, n_theta]
def grm_probs(theta, a, thresholds):
    theta = np.atleast_1d(theta)
    thresholds = np.asarray(thresholds, 'float64')
    thresholds = thresholds[~np.isnan(thresholds)]
    upper = np.array([logistic(a * (theta - b)) for b in thresholds]).reshape(-1, theta.size)
    lower = np.array([logistic(-a * (theta - b)) for b in thresholds]).reshape(-1, theta.size)
    n = thresholds.size + 1
    out = np.empty((n, theta.size))
    out[0] = lower[0]
    out[-1] = upper[-1]
    for k in range(1, n - 1):
        out[k] = upper[k - 1] - upper[k]
    return out


def gpcm_probs(theta, a, steps):
    theta = np.atleast_1d(theta)
    steps = np.asarray(steps, 'float64')
    steps = steps[~np.isnan(steps)]
    n = steps.size + 1
    logit = np.zeros((n, theta.size))
    for k in range(1, n):
        logit[k] = logit[k - 1] + a * (theta - steps[k - 1])
    logit -= logit.max(axis=0)
    out = np.exp(logit)
    return out / out.sum(axis=0)


def ggum_probs(theta, a, delta, tau):
    """Roberts, Donoghue, Laughlin (2000): C+1 observable categories,
    thresholds tau_1..tau_C (tau_0 = 0), subjective scale of 2C+2."""
    theta = np.atleast_1d(theta)
    tau = np.asarray(tau, 'float64')
    tau = tau[~np.isnan(tau)]
    c = tau.size
    m = 2 * c + 1
    cum = np.concatenate(([0.0], np.cumsum(tau)))
    logs = np.empty((c + 1, 2, theta.size))
    for z in range(c + 1):
        logs[z, 0] = a * (z * (theta - delta) - cum[z])
        logs[z, 1] = a * ((m - z) * (theta - delta) - cum[z])
    logs -= logs.max(axis=(0, 1))
    out = np.exp(logs).sum(axis=1)
    return out / out.sum(axis=0)


def threepl(theta, a, b, c):
    return c + (1.0 - c) * logistic(a * (np.atleast_1d(theta) - b))


def md_grm_probs(thetas, a, intercepts):
    """thetas [n_factors, n]; P(Y >= k) = logistic(a.theta + d_k)."""
    z = np.asarray(a) @ thetas
    d = np.asarray(intercepts, 'float64')
    d = d[~np.isnan(d)]
    upper = [logistic(z + v) for v in d]
    out = np.empty((d.size + 1, z.size))
    out[0] = 1.0 - upper[0] if d.size > 0 else 1.0
    out[0] = logistic(-(z + d[0]))
    for k in range(1, d.size):
        out[k] = upper[k - 1] - upper[k]
    out[-1] = upper[-1]
    return out


# -------------------------------------------------------------- likelihoods
def pattern_loglik(codes, probs):
    """codes [items, persons] category index (-1: missing);
    probs: list per item of [categories, n_theta]. -> [persons, n_theta]"""
    n_theta = probs[0].shape[1]
    out = np.zeros((codes.shape[1], n_theta))
    for item, prob in zip(codes, probs):
        logp = np.log(np.maximum(prob, 1e-300))
        seen = item >= 0
        out[seen] += logp[item[seen]]
    return out


def logsumexp(values, axis):
    top = values.max(axis=axis, keepdims=True)
    return (np.log(np.exp(values - top).sum(axis=axis, keepdims=True)) + top).squeeze(axis)


def marginal_loglik(loglik, dist_weight):
    """per person log of the integral of the likelihood."""
    with np.errstate(divide='ignore'):
        logw = np.log(dist_weight)
    return logsumexp(loglik + logw, 1)


def eap(loglik, dist_weight, theta):
    top = loglik.max(axis=1, keepdims=True)
    post = np.exp(loglik - top) * dist_weight
    return (post @ theta) / post.sum(axis=1)


def recode(data, missing=MISSING):
    """Observed categories of each item coded 0..K-1 in order (-1 missing).
    Items with a single observed category: see the callers."""
    codes = np.full(data.shape, -1)
    counts = []
    for k, row in enumerate(data):
        values = np.unique(row[row != missing])
        for index, value in enumerate(values):
            codes[k][row == value] = index
        counts.append(len(values))
    return codes, counts


# ------------------------------------------------------------- distributions
def distribution(spec):
    """Builds the density a case describes."""
    kind = spec['kind']
    if kind == 'norm':
        return stats.norm(spec['loc'], spec['scale']).pdf
    if kind == 'uniform':
        return stats.uniform(spec['loc'], spec['scale']).pdf
    if kind == 't':
        return stats.t(spec['df']).pdf
    if kind == 'mix':
        def pdf(theta):
            return (0.5 * stats.norm(spec['loc'], spec['scale']).pdf(theta)
                    + 0.5 * stats.norm(-spec['loc'], spec['scale']).pdf(theta))
        return pdf
    if kind == 'skew':
        return stats.skewnorm(spec['shape'], loc=spec['loc'], scale=spec['scale']).pdf
    raise KeyError(kind)


# ------------------------------------------------------------- optimisation
def zoom_minimum(func, low, high, n=241, levels=5):
    """Global minimum of a scalar vectorised function on [low, high]."""
    a, b, size = low, high, n
    for _ in range(levels):
        grid = np.linspace(a, b, size)
        values = func(grid)
        best = int(np.nanargmin(values))
        x, fx = grid[best], values[best]
        a, b = grid[max(best - 1, 0)], grid[min(best + 1, size - 1)]
        size = 41
    return x, fx
