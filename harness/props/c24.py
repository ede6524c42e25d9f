"""C24: starting values of the multidimensional models."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Skip, Sub
from girth.multidimensional import initial_guess_md
from girth.common import polychoric_correlation
from girth.factoranalysis import maximum_likelihood_factor_analysis

MISSING = ref.MISSING


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    f = draw(st.sampled_from([1, 2, 2, 3]))
    items, persons = draw(st.integers(2 * f + 1, 8)), draw(st.integers(150, 300))
    k = draw(st.sampled_from([2, 2, 3, 4]))
    a = rng.uniform(.5, 1.6, (items, f))
    thetas = rng.standard_normal((f, persons))
    data = gen.simulate(rng, [ref.md_grm_probs(thetas, a[i], gen.thresholds(rng, k - 1, .8, .6)[::-1]) for i in range(items)])
    data = gen.add_missing(rng, data, draw(st.sampled_from([0, 0, .1])))
    data = gen.ensure_categories(rng, data, [k] * items)
    if k > 2 and draw(st.booleans()):
        # some items do not use the whole scale, most often the first
        for item in {0, int(rng.integers(0, items))}:
            low = int(rng.integers(0, k - 1))
            high = int(rng.integers(low + 1, k))
            data[item] = np.where(data[item] == MISSING, MISSING, np.clip(data[item], low, high))
        if set(np.unique(data[data != MISSING])) != set(range(k)):
            data[-1, :k] = np.arange(k)
    if k > 2 and draw(st.integers(0, 2)) == 0:
        # a scale with codes nobody uses in between
        used = np.sort(rng.choice(k + 2, k, replace=False))
        used -= used[0]
        data = np.where(data == MISSING, MISSING, used[np.maximum(data, 0)])
        k = int(used[-1]) + 1
    return {'data': data, 'f': f, 'k': k, 'offset': draw(st.sampled_from([0, 1, 3, -2])),
            'processors': draw(st.sampled_from([None] * 12 + [2])),
            'dtype': draw(st.sampled_from(['bool', 'int8', 'float64', 'int64']))}


def check(case, ctx):
    data, f, k = case['data'], case['f'], case['k']
    shifted = np.where(data == MISSING, data, data + case['offset'])
    options = None if case['processors'] is None else {'num_processors': case['processors']}
    got = ctx.call(initial_guess_md, shifted.copy(), f, options)
    ctx.shape('initial guess', got, (data.shape[0], f))
    try:
        correlation = polychoric_correlation(data, 0, k - 1)
        loading, _, unique = maximum_likelihood_factor_analysis(correlation, f)
        if not np.isfinite(unique).all():
            raise Skip
    except np.linalg.LinAlgError:
        raise Skip from None
    want = 1.7 * loading / np.sqrt(unique)[:, None]
    scale = max(1.0, np.abs(want @ want.T).max())
    ctx.close('products of the loadings', got @ got.T / scale, want @ want.T / scale, atol=1e-6)
    if f > 1:
        n = data.shape[0]
        for j in range(f):
            ctx.close('loading fixed at zero', got[n - 1 - j, j + 1:], np.zeros(f - 1 - j), atol=1e-8)
            ctx.ok(got[n - 1 - j, j] > -1e-9, f'loading {got[n - 1 - j, j]} of item {n - 1 - j} on factor {j}')
    else:
        ctx.close('one factor is not rotated', np.abs(got), np.abs(want), atol=1e-6 * scale)
    if not (data == MISSING).any() and not (case['dtype'] == 'bool' and k > 2):
        other = ctx.call(initial_guess_md, data.astype(case['dtype']), f)
        ctx.close(f"as {case['dtype']}", other @ other.T / scale, want @ want.T / scale, atol=1e-6)
        ctx.feature('as ' + case['dtype'])
    else:
        ctx.feature('missing')
    ctx.feature(f'{f} factors', f'{k} categories')
    if len(np.unique(data[data != MISSING])) < k:
        ctx.feature('a code without use')
    ctx.nontrivial()


PROP = Property(
    'C24', 'Simulated data of 1-3 factors (3-8 items, 150-300 respondents, 2-4 categories, any first code) with missing '
           'entries, in several number types. Non-trivial: every case.',
    [Sub('initial_guess', cases(), check, quick=8, thorough=60)],
    ['the correlations and the factor analysis are those of C26 and C36'])
