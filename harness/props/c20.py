"""C20: joint maximum likelihood."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from harness import est, gen, ref
from harness.core import Property, Skip, Sub
import girth

MISSING = ref.MISSING
DICH = ('rasch_jml', 'onepl_jml', 'twopl_jml')
BOUNDS = {'rasch_jml': None, 'onepl_jml': (.25, 5), 'twopl_jml': (.25, 4), 'grm_jml': (.25, 4), 'pcm_jml': (.25, 4)}


@st.composite
def cases(draw, models):
    model = draw(st.sampled_from(models))
    if model in DICH:
        data, _ = draw(est.poly_data('grm', n_items=(4, 8), k=(2, 2), start=(0,), n=(40, 120), missing=(0, 0, .1, .25),
                                     min_count=draw(st.sampled_from([1, 2, 4, 4]))))
        rng = gen.draw_rng(draw)
        # perfect, empty and blank respondents
        for value in (0, 1, MISSING):
            if rng.uniform() < .3:
                data[:, rng.integers(0, data.shape[1])] = value
        if draw(st.integers(0, 3)) == 0:
            data = gen.repeat(rng, data)
    else:
        data, _ = draw(est.poly_data('pcm' if model.startswith('pcm') else 'grm', n_items=(4, 6), k=(2, 4), n=(40, 80),
                                     missing=(0, 0, .1), min_count=6, consistent=True))
    return {'data': data, 'model': model, 'rounds': draw(st.integers(1, 4)),
            'alpha': draw(st.sampled_from([.5, 1, 1.0, 1.6])) if model == 'rasch_jml' else None}


@st.composite
def large(draw):
    """Thousands of respondents, or many items."""
    model = draw(st.sampled_from(DICH + ('grm_jml', 'pcm_jml')))
    many = draw(st.booleans())
    if model in DICH:
        size = {'n_items': (10, 14) if many else (45, 120), 'n': (700, 2000) if many else (40, 80), 'k': (2, 2), 'start': (0,)}
    else:
        size = {'n_items': (4, 5), 'n': (500, 900), 'k': (2, 4)} if many else {'n_items': (25, 50), 'n': (40, 60), 'k': (2, 4)}
    data, _ = draw(est.poly_data('pcm' if model.startswith('pcm') else 'grm', missing=(0, 0, .1), **size))
    return {'data': data, 'model': model, 'rounds': draw(st.integers(1, 2)),
            'alpha': draw(st.sampled_from([.5, 1, 1.6])) if model == 'rasch_jml' else None}


def respondents(data, model):
    """-> codes, counts of the respondents the likelihood is taken over."""
    seen = data != MISSING
    if model in DICH:
        patterns, times = np.unique(data, axis=1, return_counts=True)
        keep = [(p[p != MISSING] == 0).any() and (p[p != MISSING] == 1).any() for p in patterns.T]
        return patterns[:, keep], times[keep]
    low, high = data[seen].min(), data[seen].max()
    mean = np.where(seen, data, 0).sum(axis=0) / np.maximum(seen.sum(axis=0), 1)
    keep = (mean > low) & (mean < high) & seen.any(axis=0)
    # a mean computed from integers: the extremes are exact
    return data[:, keep], np.ones(keep.sum(), int)


def item_probs(model, theta, a, b):
    return (ref.gpcm_probs if model == 'pcm_jml' else ref.grm_probs)(theta, a, b)


def best_abilities(codes, model, a, b):
    """Maximum likelihood ability of each column on [-6, 6], by successive grids."""
    n = codes.shape[1]
    low, high = np.full(n, -6.0), np.full(n, 6.0)
    for level in range(7):
        grid = low[:, None] + (high - low)[:, None] * np.linspace(0, 1, 41)
        total = np.zeros_like(grid)
        for i in range(codes.shape[0]):
            prob = np.log(np.maximum(item_probs(model, grid.ravel(), a[i], b[i]), 1e-300)).reshape(-1, *grid.shape)
            seen = codes[i] >= 0
            total[seen] += np.take_along_axis(prob, np.maximum(codes[i], 0)[None, :, None], 0)[0][seen]
        best = total.argmax(axis=1)
        rows = np.arange(n)
        low, high = grid[rows, np.maximum(best - 1, 0)], grid[rows, np.minimum(best + 1, 40)]
    return (low + high) / 2


def fit(case, ctx, rounds):
    func = getattr(girth, case['model'])
    data = case['data'].copy()
    options = {'max_iteration': rounds}
    if case['model'] == 'rasch_jml':
        return ctx.call(func, data, case['alpha'], options)
    return ctx.call(func, data, options)


def check(case, ctx):
    data, model = case['data'], case['model']
    n = data.shape[0]
    kept, times = respondents(data, model)
    codes, counts = est.recode(kept)
    if codes.shape[1] < 10:
        raise Skip
    before, after = fit(case, ctx, case['rounds']), fit(case, ctx, case['rounds'] + 1)

    def unpack(result):
        a = np.broadcast_to(np.asarray(result['Discrimination'], float), (n,))
        b = np.asarray(result['Difficulty'], float)
        if model in DICH:
            ctx.shape('Difficulty', b, (n,))
            b = b[:, None]
        else:
            ctx.shape('Discrimination', result['Discrimination'], (n,))
            ctx.shape('Difficulty', b, (n, max(counts) - 1))
            for i, k in enumerate(counts):
                ctx.ok(np.isfinite(b[i, :k - 1]).all() and np.isnan(b[i, k - 1:]).all(),
                       f'item {i} has {k} categories but thresholds {b[i]}')
                if model == 'grm_jml':
                    ctx.ok((np.diff(b[i, :k - 1]) > -1e-6).all(), f'thresholds are not ordered: {b[i]}')
        return a, b
    a0, b0 = unpack(before)
    a1, b1 = unpack(after)
    if model == 'rasch_jml':
        ctx.close('discrimination as given', after['Discrimination'], np.full(n, float(case['alpha'])), atol=0)
    else:
        low, high = BOUNDS[model]
        ctx.ok((a1 >= low - 1e-6).all() and (a1 <= high + 1e-6).all(), f'discrimination outside of {low, high}: {a1}')
    ctx.ok(np.nanmax(np.abs(b1)) <= 6 + 1e-6, f'difficulty outside of [-6, 6]: {b1}')
    if np.array_equal(a0, a1) and np.array_equal(b0, b1, equal_nan=True):
        ctx.feature('converged')
        if model == 'pcm_jml':
            raise Skip  # stops on the discriminations alone, a few thousandths early when these are on their bounds
    theta = best_abilities(codes, model, a0, b0)
    theta = theta - theta.mean()
    theta = theta / theta.std(ddof=1)

    def loglik(i, x):
        prob = item_probs(model, theta, x[0], x[1:])
        seen = codes[i] >= 0
        value = prob[np.maximum(codes[i], 0), np.arange(theta.size)]
        return float((np.log(np.maximum(value, 1e-23)) * times)[seen].sum())
    total = 0.0
    for i in range(n):
        x = np.r_[a1[i], b1[i, :counts[i] - 1]]
        here = loglik(i, x)
        if model in ('rasch_jml', 'onepl_jml'):
            best = max(loglik(i, np.r_[x[0], v]) for v in np.clip(x[1] + np.r_[-.5, -.1, -.02, .02, .1, .5], -6, 6))
        else:
            box = [(.25, 4)] + [(-6, 6)] * (counts[i] - 1)
            best = here
            for start in (x, np.r_[a0[i], b0[i, :counts[i] - 1]]):
                low, high = np.array(box).T
                found = minimize(lambda z: -loglik(i, z) if model != 'grm_jml' or (np.diff(z[1:]) > 0).all() else 1e6,
                                 np.clip(start, low, high), method='L-BFGS-B', bounds=box, options={'maxiter': 60})
                best = max(best, -found.fun)
        ctx.atmost(f'{model}: log likelihood gained by another estimate of an item', best - here, 0.0,
                   1e-2)
        total += here
    if model == 'onepl_jml':
        for step in (.9, .97, 1.03, 1.1):
            alpha = float(np.clip(a1[0] * step, .25, 5))
            moved = 0.0
            for i in range(n):
                grid = np.linspace(-6, 6, 121)
                values = [loglik(i, np.r_[alpha, v]) for v in grid]
                at = int(np.argmax(values))
                fine = np.linspace(grid[max(at - 1, 0)], grid[min(at + 1, 120)], 41)
                moved += max(loglik(i, np.r_[alpha, v]) for v in fine)
            ctx.atmost('onepl_jml: log likelihood gained by another discrimination', moved - total, 0.0, 1e-2)
    est.missing_features(ctx, data)
    est.size_feature(ctx, data)
    ctx.feature(model, f"round {case['rounds'] + 1}")
    ctx.nontrivial()


AXES = {'data': ('item', 'person')}
PROP = Property(
    'C20', 'Simulated data with missing entries, perfect, empty and blank respondents; the estimates after k rounds '
           'against those after k+1. Non-trivial: every case.',
    [Sub('dichotomous', cases(DICH), check, quick=16, thorough=60, axes=AXES, minimum={'item': 3, 'person': 20}),
     Sub('large', large(), check, quick=2, thorough=20, axes=AXES, minimum={'item': 3, 'person': 20}),
     Sub('polytomous', cases(('grm_jml', 'pcm_jml')), check, quick=7, thorough=60, axes=AXES,
         minimum={'item': 3, 'person': 20})],
    ['abilities are standardised over distinct response patterns (dichotomous) or respondents (polytomous), as the '
     'code does'])
