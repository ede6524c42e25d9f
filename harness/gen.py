"""Generators shared by the properties."""
import numpy as np
from hypothesis import strategies as st

from harness import ref

MISSING = ref.MISSING
seeds = st.integers(0, 2**32 - 1)


@st.composite
def rngs(draw):
    return np.random.default_rng(draw(seeds))


def draw_rng(draw):
    return np.random.default_rng(draw(seeds))


# --------------------------------------------------------------- responses
def simulate(rng, probs):
    """probs: list of [categories, persons] -> codes [items, persons]."""
    out = []
    for prob in probs:
        u = rng.uniform(size=prob.shape[1])
        out.append((u[None, :] > np.cumsum(prob, axis=0)[:-1]).sum(axis=0))
    return np.array(out, dtype='int64')


def abilities(rng, n, shape):
    if shape == 'normal':
        return rng.standard_normal(n)
    if shape == 'skew':
        x = rng.gamma(2.0, size=n)
        return (x - 2) / np.sqrt(2)
    if shape == 'bimodal':
        return np.where(rng.uniform(size=n) < .5, -1, 1) * .8 + rng.standard_normal(n) * .6
    return rng.uniform(-3, 3, n)


def dich_items(rng, n_items, b_max=2.0, a_low=.5, a_high=2.2):
    return (rng.uniform(-b_max, b_max, n_items),
            np.exp(rng.uniform(np.log(a_low), np.log(a_high), n_items)))


def thresholds(rng, k, spread=2.0, gap=.35):
    """k ascending thresholds, at least gap apart."""
    base = np.sort(rng.uniform(-spread, spread, k))
    for j in range(1, k):
        base[j] = max(base[j], base[j - 1] + gap)
    return base - base.mean() + rng.uniform(-.6, .6)


def add_missing(rng, data, rate, keep_items=1, missing=MISSING):
    """Removes responses at random, keeping keep_items per respondent.

    Everywhere alike, or by design: from some of the items or of the respondents only (often not from the first),
    or the last ones of those who did not finish.
    """
    data = data.copy()
    if rate <= 0:
        return data
    mask = rng.uniform(size=data.shape) < rate
    design = rng.choice(['even', 'even', 'even', 'items', 'persons', 'unfinished'])
    if design == 'items':
        complete = rng.uniform(size=data.shape[0]) < .4
        complete[0] = rng.uniform() < .6
        mask = (rng.uniform(size=data.shape) < min(1.5 * rate, .5)) & ~complete[:, None]
    elif design == 'persons':
        complete = rng.uniform(size=data.shape[1]) < .5
        complete[0] = rng.uniform() < .7
        mask = (rng.uniform(size=data.shape) < min(1.6 * rate, .5)) & ~complete
    elif design == 'unfinished':
        answered = np.where(rng.uniform(size=data.shape[1]) < min(2 * rate, .5),
                            rng.integers(keep_items, data.shape[0] + 1, data.shape[1]), data.shape[0])
        mask = np.arange(data.shape[0])[:, None] >= answered
    for person in range(data.shape[1]):
        kept = np.flatnonzero(~mask[:, person])
        if kept.size < keep_items:
            mask[rng.choice(data.shape[0], keep_items, replace=False), person] = False
    data[mask] = missing
    return data


def repeat(rng, data):
    """Respondents several times over, some of them hundreds of times."""
    times = rng.integers(1, 4, data.shape[1])
    heavy = rng.choice(data.shape[1], min(3, data.shape[1]), replace=False)
    times[heavy] = rng.integers(120, 700, heavy.size)
    return np.repeat(data, times, axis=1)


def ensure_categories(rng, data, n_categories, missing=MISSING):
    """Plants each category of each item at least once (observed)."""
    data = data.copy()
    n_items, n_persons = data.shape
    for item in range(n_items):
        k = n_categories[item]
        have = set(np.unique(data[item][data[item] != missing]).tolist())
        need = [c for c in range(k) if c not in have]
        if need:
            where = rng.choice(n_persons, len(need), replace=False)
            data[item, where] = need
        have = set(np.unique(data[item][data[item] != missing]).tolist())
        attempt = 0
        while len(have) < k and attempt < 50:
            need = [c for c in range(k) if c not in have]
            data[item, rng.choice(n_persons, len(need), replace=False)] = need
            have = set(np.unique(data[item][data[item] != missing]).tolist())
            attempt += 1
    return data


def full_categories(data, n_categories, missing=MISSING):
    for item, k in zip(data, n_categories):
        if len(np.unique(item[item != missing])) != k:
            return False
    return True


# ------------------------------------------------------------- distributions
@st.composite
def distributions(draw, kinds=('norm', 'shifted', 't', 'mix', 'skew', 'uniform')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'norm':
        return {'kind': 'norm', 'loc': 0.0, 'scale': 1.0}
    if kind == 'shifted':
        return {'kind': 'norm', 'loc': draw(st.sampled_from([-1.0, -.5, .25, .75, 1.5])),
                'scale': draw(st.sampled_from([.5, .8, 1.0, 1.4, 2.0]))}
    if kind == 't':
        return {'kind': 't', 'df': draw(st.integers(3, 12))}
    if kind == 'mix':
        return {'kind': 'mix', 'loc': draw(st.sampled_from([.5, 1.0, 1.5])),
                'scale': draw(st.sampled_from([.5, .8, 1.0]))}
    if kind == 'skew':
        return {'kind': 'skew', 'shape': draw(st.sampled_from([-3.0, 1.5, 4.0])),
                'loc': draw(st.sampled_from([-.5, 0.0, .5])), 'scale': 1.2}
    return {'kind': 'uniform', 'loc': -7.0, 'scale': 14.0}


@st.composite
def quadratures(draw, n_low=8, n_high=81):
    """(bounds, n): the default, or asymmetric / wide / narrow / odd ones."""
    if draw(st.integers(0, 2)) == 0:
        return None
    low = draw(st.sampled_from([-6.0, -5.0, -4.5, -4.0, -3.0]))
    high = draw(st.sampled_from([6.0, 5.0, 4.5, 4.0, 3.0]))
    return {'bounds': (low, high), 'n': draw(st.integers(n_low, n_high))}


def options_from(quad=None, dist=None, **more):
    out = dict(more)
    if quad is not None:
        out['quadrature_bounds'] = tuple(quad['bounds'])
        out['quadrature_n'] = int(quad['n'])
    if dist is not None:
        out['distribution'] = ref.distribution(dist)
    return out


def grid_from(quad=None, dist=None):
    """Reference quadrature: theta, weight * density."""
    low, high = (-4.5, 4.5) if quad is None else quad['bounds']
    n = 41 if quad is None else quad['n']
    theta, weight = ref.quadrature(n, low, high)
    pdf = ref.distribution(dist or {'kind': 'norm', 'loc': 0.0, 'scale': 1.0})
    return theta, weight, pdf(theta)
