"""C09: multidimensional scoring."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from harness import gen, ref
from harness.core import Property, Skip, Sub
from girth import multidimensional_ability_eap, multidimensional_ability_map


@st.composite
def cases(draw, map_=False, large=False):
    rng = gen.draw_rng(draw)
    f = draw(st.sampled_from([2, 2, 3, 4] if large else [2, 2, 2, 3]))
    n_items, n = draw(st.integers(f, 8)), draw(st.integers(6, 14))
    if large:
        n_items, n = draw(st.sampled_from([5, 12, 40, 90])), draw(st.sampled_from([130, 270, 600] if map_ else [130, 270, 600, 1100]))
        n_items = min(n_items, 12) if map_ else n_items
    two_pl = draw(st.booleans())
    mixed = (not two_pl) and draw(st.booleans())
    kmax = 2 if two_pl else draw(st.integers(3, 9 if large else 5))
    counts = [int(rng.integers(2, kmax + 1)) if mixed else kmax for _ in range(n_items)]
    counts[0] = kmax
    far = draw(st.integers(0, 3)) == 0
    if far:
        # respondents far out, and enough items to tell
        n_items, n = n_items + 8, n + 6
        counts = counts + [kmax] * 8
    a = rng.uniform(-1.2, 2.2, (n_items, f))
    thetas = rng.standard_normal((f, n)) * (2.5 if far else 1)
    b = np.full((n_items, kmax - 1), np.nan)
    probs = []
    for i, k in enumerate(counts):
        b[i, :k - 1] = gen.thresholds(rng, k - 1, 5.0 if far else 2.0)[::-1]
        probs.append(ref.md_grm_probs(thetas, a[i], b[i]))
    data = gen.simulate(rng, probs)
    data = gen.add_missing(rng, data, draw(st.sampled_from([0, 0, .15])))
    data = gen.ensure_categories(rng, data, counts)
    if draw(st.integers(0, 5)) == 0:
        # a wholly missing respondent, if the categories survive it
        trial = data.copy()
        trial[:, rng.integers(0, n)] = ref.MISSING
        if gen.full_categories(trial, counts):
            data = trial
    start = draw(st.sampled_from([0, 1, 1, 3, -2]))
    data = np.where(data == ref.MISSING, data, data + start)
    flat = two_pl and draw(st.booleans())
    n_quad = draw(st.integers(8, {2: 21, 3: 11, 4: 8}[f]))
    kinds = ('norm', 'shifted', 't') if map_ else ('norm', 'shifted', 't', 'mix', 'skew')
    return {'data': data, 'b': b[:, 0] if flat else b, 'a': a, 'counts': counts, 'start': start,
            'quad': None if draw(st.integers(0, 5)) == 0 and f == 2 else
            {'bounds': draw(st.sampled_from([(-4.5, 4.5), (-4.0, 4.0), (-3.0, 5.0)])), 'n': n_quad},
            'judged': rng.integers(0, n, 6) if large else None, 'dist': draw(gen.distributions(kinds))}


def prepare(case, ctx):
    codes, counts = ref.recode(case['data'])
    if counts != case['counts']:
        raise Skip
    b = case['b'].reshape(len(counts), -1)
    f = case['a'].shape[1]
    if codes.shape[1] > 100:
        ctx.feature('more than 100 respondents')
    ctx.feature(f'{f} factors', 'prior ' + case['dist']['kind'],
                'dichotomous' if max(counts) == 2 else 'polytomous')
    if len(set(counts)) > 1:
        ctx.feature('unequal categories')
    if (codes < 0).any():
        ctx.feature('missing')
    if (codes < 0).all(axis=0).any():
        ctx.feature('wholly missing respondent')
    return codes, b, f


def check_eap(case, ctx):
    codes, b, f = prepare(case, ctx)
    options = gen.options_from(case['quad'], case['dist'])
    got = ctx.call(multidimensional_ability_eap, case['data'].copy(), case['b'].copy(), case['a'].copy(), options)
    ctx.shape('abilities', got, (f, codes.shape[1]))
    theta, weight, density = gen.grid_from(case['quad'], case['dist'])
    grids = np.array(np.meshgrid(*[theta] * f, indexing='ij')).reshape(f, -1)
    wgrid = np.array(np.meshgrid(*[weight * density] * f, indexing='ij')).reshape(f, -1).prod(axis=0)
    probs = [ref.md_grm_probs(grids, case['a'][i], b[i]) for i in range(b.shape[0])]
    loglik = ref.pattern_loglik(codes, probs)
    for k in range(f):
        want = ref.eap(loglik, wgrid, grids[k])
        ctx.close('posterior mean', got[k], want, atol=1e-7)
    ctx.nontrivial(np.ptp(got) > 1e-3)


def check_map(case, ctx):
    codes, b, f = prepare(case, ctx)
    got = ctx.call(multidimensional_ability_map, case['data'].copy(), case['b'].copy(), case['a'].copy(),
                   {'distribution': ref.distribution(case['dist'])})
    ctx.shape('abilities', got, (f, codes.shape[1]))
    if np.abs(got).max() > 3:
        ctx.feature('beyond three')
    ctx.ok(np.isfinite(got).all() and np.abs(got).max() <= 4 + 1e-9, 'abilities outside of [-4, 4]')
    pdf = ref.distribution(case['dist'])
    n = codes.shape[1]
    for j in range(n) if case.get('judged') is None else sorted({0, n - 1, *(int(x) for x in case['judged'] if x < n)}):
        def objective(x):
            x = np.asarray(x, 'float64').reshape(f, 1)
            total = 0.0
            for i in range(b.shape[0]):
                if codes[i, j] >= 0:
                    total += np.log(max(ref.md_grm_probs(x, case['a'][i], b[i])[codes[i, j], 0], 1e-300))
            return -(total + np.log(pdf(x[:, 0])).sum())
        here = objective(got[:, j])
        best = here
        for start in (got[:, j], np.zeros(f)):
            found = minimize(objective, np.clip(start, -3.99, 3.99), method='L-BFGS-B', bounds=[(-4, 4)] * f,
                             options={'ftol': 1e-13, 'gtol': 1e-8})
            if case['dist']['kind'] == 'norm' or np.abs(found.x - got[:, j]).max() < .3:
                best = min(best, found.fun)
        ctx.atmost('log posterior short of the optimum', here - best, 0.0, 2e-5)
    ctx.nontrivial()


AXES = {'data': ('item', 'person'), 'b': ('item',), 'a': ('item',)}
PROP = Property(
    'C09', '2-3 factors, dichotomous and graded items with equal and unequal numbers of categories, missing entries, '
           'priors, quadratures. Every category of every item occurs (see assumptions). Non-trivial: the abilities '
           'vary.',
    [Sub('eap', cases(), check_eap, quick=60, thorough=60),
     Sub('map', cases(map_=True), check_map, quick=25, thorough=60),
     Sub('large_eap', cases(large=True), check_eap, quick=3, thorough=20),
     Sub('large_map', cases(map_=True, large=True), check_map, quick=1, thorough=20)],
    ['the scored data contain each category of each item: categories are identified from the data '
     '(KNOWN_FINDINGS.jsonl has what happens otherwise)'])
