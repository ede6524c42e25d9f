"""Simulated data sets for the estimators, and the objectives they optimise."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from harness import gen, ref
from harness.core import Skip

MISSING = ref.MISSING


@st.composite
def dich_data(draw, n_items=(3, 8), n=(30, 150), b_max=1.6, a_high=2.2, missing=(0, 0, .1, .3), b_extreme=False):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(*n_items)), draw(st.integers(*n))
    shape = draw(st.sampled_from(['normal', 'normal', 'skew', 'bimodal', 'uniform']))
    theta = gen.abilities(rng, persons, shape)
    b, a = gen.dich_items(rng, items, b_max=b_max, a_high=a_high)
    if b_extreme and draw(st.integers(0, 3)) == 0:
        b[0] = 4.0
    data = (rng.uniform(size=(items, persons)) < ref.logistic(a[:, None] * (theta[None] - b[:, None]))).astype('int64')
    data = gen.add_missing(rng, data, draw(st.sampled_from(missing)))
    data = gen.ensure_categories(rng, data, [2] * items)
    return data


@st.composite
def poly_data(draw, model='grm', n_items=(3, 6), n=(60, 160), k=(3, 5), mixed=True, missing=(0, 0, .15),
              start=(0, 1, 1, -1, 5), min_count=4, a_range=(.5, 2.2),
              spread=(1.0, 1.0, 1.0, 2.0, 2.8), consistent=False):
    """-> data, counts. Each category occurs min_count times. With consistent, answers
    sometimes leave next to nothing to chance and discriminations meet their bounds."""
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(*n_items)), draw(st.integers(*n))
    theta = gen.abilities(rng, persons, draw(st.sampled_from(['normal', 'normal', 'skew', 'bimodal'])))
    top = draw(st.integers(*k))
    unequal = mixed and draw(st.integers(0, 2)) == 0
    counts = [top] * items
    if unequal:
        counts = [int(rng.integers(2, top + 1)) for _ in range(items)]
        counts[int(rng.integers(0, items))] = top
    _, a = gen.dich_items(rng, items, a_low=a_range[0], a_high=a_range[1])
    if consistent and draw(st.integers(0, 3)) == 0:
        a = a * 6
    spread = draw(st.sampled_from(spread))  # items that few endorse, or nearly everybody
    probs = []
    for kk, disc in zip(counts, a):
        if model == 'grm':
            probs.append(ref.grm_probs(theta, disc, gen.thresholds(rng, kk - 1, 1.4 * spread)))
        elif model == 'pcm':
            probs.append(ref.gpcm_probs(theta, disc * .8, spread * rng.uniform(-1.2, 1.2, kk - 1)))
        else:
            probs.append(ref.ggum_probs(theta, disc, rng.uniform(-1.3, 1.3), np.sort(rng.uniform(-1.6, .3, kk - 1))))
    data = gen.simulate(rng, probs)
    data = gen.add_missing(rng, data, draw(st.sampled_from(missing)))
    for item in range(items):
        for cat in range(counts[item]):
            lacking = min_count - np.count_nonzero(data[item] == cat)
            if lacking > 0:
                values, freq = np.unique(data[item][data[item] != MISSING], return_counts=True)
                donor = values[np.argmax(freq)]
                where = np.flatnonzero(data[item] == donor)
                data[item, rng.choice(where, lacking, replace=False)] = cat
    if unequal and draw(st.booleans()):
        # items of fewer categories use any part of the scale
        for item in range(items):
            used = np.sort(rng.choice(top, counts[item], replace=False))
            data[item] = np.where(data[item] == MISSING, MISSING, used[np.maximum(data[item], 0)])
    offset = draw(st.sampled_from(start))
    return np.where(data == MISSING, data, data + offset), counts


@st.composite
def mml_options(draw, kinds=('norm', 'shifted', 't', 'mix', 'skew'), lut=True, more=None):
    """Case-able option description; see options()."""
    out = {'quad': draw(st.sampled_from([None, None, {'bounds': (-5.0, 5.0), 'n': 31}, {'bounds': (-4.0, 4.0), 'n': 21},
                                         {'bounds': (-6.0, 4.5), 'n': 45}])),
           'dist': None if draw(st.booleans()) else draw(gen.distributions(kinds))}
    if lut:
        out['use_LUT'] = draw(st.sampled_from([None, True, False, False]))
    out.update(more or {})
    return out


def options(spec, **more):
    out = gen.options_from(spec.get('quad'), spec.get('dist'))
    for key in ('use_LUT', 'max_iteration', 'estimate_distribution', 'number_of_samples', 'hyper_quadrature_n'):
        if spec.get(key) is not None:
            out[key] = spec[key]
    out.update(more)
    return out


def grid(spec):
    theta, weight, density = gen.grid_from(spec.get('quad'), spec.get('dist'))
    return theta, weight, density


def recode(data):
    """ref.recode for data in which every item has at least two categories."""
    codes, counts = ref.recode(data)
    if min(counts) < 2:
        raise Skip
    return codes, counts


# ------------------------------------------------------------------ inverse
def solve_location(a, proportion, theta, dw, low=-6.0, high=6.0):
    """b with integral logistic(a (theta - b)) dw = proportion, clipped to [low, high] (a > 0)."""
    def func(b):
        return float(np.sum(ref.logistic(a * (theta - b)) * dw)) - proportion
    if func(low) <= 0:
        return low
    if func(high) >= 0:
        return high
    return brentq(func, low, high, xtol=1e-13)


def tail_proportions(codes):
    """Observed P(Y >= k), k = 1..K-1 of each item."""
    out = []
    for row in codes:
        seen = row[row >= 0]
        out.append([np.mean(seen >= k) for k in range(1, int(seen.max()) + 1)])
    return out


def missing_features(ctx, data):
    miss = data == MISSING
    if miss.any():
        ctx.feature('missing')
        if not miss[0].any():
            ctx.feature('missing, but not in the first item')
        if not miss[:, 0].any():
            ctx.feature('missing, but not from the first respondent')
    if miss.all(axis=0).any():
        ctx.feature('wholly missing respondent')


def option_features(ctx, spec):
    ctx.feature('prior ' + ('default' if spec.get('dist') is None else spec['dist']['kind']))
    if spec.get('quad'):
        ctx.feature('custom quadrature')
    if 'use_LUT' in spec:
        ctx.feature(f"LUT {spec['use_LUT']}")


# ---------------------------------------------------- marginal fit, block by block
class Fit:
    """The marginal likelihood of one data set as a function of one item's
    category probabilities, every other item held where the estimate put it."""

    def __init__(self, codes, probs, dw):
        self.codes, self.dw = codes, dw
        self.probs = list(probs)
        self.terms = [ref.pattern_loglik(codes[[i]], [p]) for i, p in enumerate(self.probs)]
        self.total = np.sum(self.terms, axis=0)
        self.loglik = self.marginal(self.total)

    def marginal(self, loglik):
        return float(ref.marginal_loglik(loglik, self.dw).sum())

    def with_item(self, item, prob):
        """Log likelihood when the item has these category probabilities."""
        other = self.total - self.terms[item]
        return self.marginal(other + ref.pattern_loglik(self.codes[[item]], [prob]))


def grm_block(theta, dw, tails):
    """category probabilities of a graded item as a function of its
    discrimination, the thresholds solved from the observed proportions."""
    def block(a):
        return ref.grm_probs(theta, a, [solve_location(a, p, theta, dw) for p in tails])
    return block


def local_gain(value, func, x, low, high, steps):
    """Largest gain in func over value by moving x by one of the factors."""
    best = -np.inf
    for step in steps:
        moved = min(max(x * step, low), high)
        best = max(best, func(moved) - value)
    return best


@st.composite
def fit_spec(draw, kinds=('norm', 'shifted', 't', 'mix', 'skew'), lut=True, latent=True, symmetric=False, iterations=True):
    """mml_options with latent distribution estimation and iteration limits."""
    spec = draw(mml_options(kinds, lut))
    if latent and draw(st.integers(0, 2)) == 0:
        spec['estimate_distribution'] = True
        spec['number_of_samples'] = draw(st.sampled_from([None, 5, 6, 7, 8, 9, 10, 11]))
    if symmetric or spec.get('estimate_distribution'):
        quad = spec['quad']
        if quad and quad['bounds'][0] != -quad['bounds'][1]:
            spec['quad'] = {'bounds': (-4.5, 4.5), 'n': quad['n']}
    if iterations:
        spec['max_iteration'] = draw(st.sampled_from([None, None, None, None, 1, 2, 4]))
    return spec


@st.composite
def long_spec(draw, lut=True):
    """One or two rounds on a small quadrature, for tests of many items and few respondents."""
    spec = {'quad': draw(st.sampled_from([{'bounds': (-4.0, 4.0), 'n': 21}, {'bounds': (-4.5, 4.5), 'n': 25}])), 'dist': None,
            'max_iteration': draw(st.sampled_from([1, 1, 2]))}
    if lut:
        spec['use_LUT'] = draw(st.sampled_from([None, True, False]))
    return spec


@st.composite
def large(draw, model='grm', two=False, spec=None, wide=(6, 10), **more):
    """-> data, spec: thousands of respondents, or items of up to ten categories."""
    if not two and draw(st.booleans()):
        size = {'n_items': (2, 4), 'n': (150, 400), 'k': wide, 'min_count': 2}
    else:
        size = {'n_items': (2, 4), 'n': (700, 2600), 'k': (2, 2) if two else (2, 4)}
    data, _ = draw(poly_data(model, start=(0,) if two else (0, 1, 1, -1, 5), **{**size, **more}))
    return data, draw(spec if spec is not None else fit_spec())


def size_feature(ctx, data):
    categories = max(np.unique(x[x != MISSING]).size for x in data)
    ctx.feature('over 600 respondents' if data.shape[1] > 600 else 'over 5 categories' if categories > 5 else
                'over 50 items' if data.shape[0] > 50 else 'small data')


LONG = {'n_items': (55, 150), 'n': (14, 22), 'missing': (0, 0, .05), 'min_count': 1}


def final_density(spec, result):
    """theta, density x weight the estimator finished with."""
    theta, weight, density = grid(spec)
    if spec.get('estimate_distribution') and spec.get('max_iteration') != 1:
        density = np.maximum(np.asarray(result['LatentPDF'].cubic_splines[-1](theta)), 0.0)
    return theta, density * weight


def check_result_shapes(ctx, result, counts, persons):
    """Discrimination [items], Difficulty [items, K-1] NaN exactly beyond each item's thresholds."""
    n = len(counts)
    a = ctx.shape('Discrimination', result['Discrimination'], (n,))
    b = ctx.shape('Difficulty', result['Difficulty'], (n, max(counts) - 1))
    for i, k in enumerate(counts):
        ctx.ok(np.isfinite(b[i, :k - 1]).all() and np.isnan(b[i, k - 1:]).all(),
               f'item {i} has {k} categories but thresholds {b[i]}')
    ctx.ok(np.isfinite(a).all(), f'discrimination not finite: {a}')
    if 'Ability' in result:
        ctx.shape('Ability', result['Ability'], (persons,))
    return a, b


def iteration_feature(ctx, spec):
    if spec.get('max_iteration'):
        ctx.feature(f"max_iteration {spec['max_iteration']}")
    if spec.get('estimate_distribution'):
        ctx.feature('latent distribution estimated')
