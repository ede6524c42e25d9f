"""C23: multidimensional models by marginal maximum likelihood."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from harness import est, gen, ref
from harness.core import Property, Skip, Sub
import girth
import girth.common

MISSING = ref.MISSING


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    f = draw(st.sampled_from([2, 2, 2, 2, 3]))
    items, persons = draw(st.integers(f + 2, 7)), draw(st.integers(70, 160))
    two = draw(st.booleans())
    counts = [2 if two else int(rng.integers(2, 5)) for _ in range(items)]
    if not two:
        counts[0] = 3
    a = rng.uniform(.3, 1.6, (items, f)) * np.where(rng.uniform(size=(items, f)) < .2, -1, 1)
    thetas = rng.standard_normal((f, persons))
    probs = [ref.md_grm_probs(thetas, a[i], gen.thresholds(rng, k - 1, 1.2)[::-1]) for i, k in enumerate(counts)]
    data = gen.simulate(rng, probs)
    data = gen.add_missing(rng, data, draw(st.sampled_from([0, 0, .12])))
    for i, k in enumerate(counts):
        for cat in range(k):
            lacking = 4 - np.count_nonzero(data[i] == cat)
            if lacking > 0:
                values, freq = np.unique(data[i][data[i] != MISSING], return_counts=True)
                where = np.flatnonzero(data[i] == values[np.argmax(freq)])
                data[i, rng.choice(where, lacking, replace=False)] = cat
    offset = 0 if two else draw(st.sampled_from([0, 1, 1, 4]))
    data = np.where(data == MISSING, data, data + offset)
    quad = draw(st.sampled_from([{'bounds': (-4.5, 4.5), 'n': 15}, {'bounds': (-4.0, 4.0), 'n': 13},
                                 {'bounds': (-5.0, 5.0), 'n': 17}]))
    if f == 3:
        quad = {'bounds': (-4.0, 4.0), 'n': 9}
    return {'data': data, 'two': two, 'f': f, 'spec': {
        'quad': quad, 'dist': draw(st.sampled_from([None, None, {'kind': 'norm', 'loc': 0.0, 'scale': 1.3}])),
        'use_LUT': draw(st.sampled_from([None, False, True])), 'max_iteration': draw(st.sampled_from([1, 2, 4, 10]))},
        'guess': draw(st.sampled_from([None, True, False]))}


def check(case, ctx):
    data, f, spec, guess = case['data'], case['f'], case['spec'], case['guess']
    codes, counts = est.recode(data)
    items = len(counts)
    if f > items:
        raise Skip
    if guess is not False:
        correlation = girth.common.polychoric_correlation(data, int(data[data != MISSING].min()), int(data.max()))
        if not np.linalg.eigvalsh(correlation)[0] > 1e-6:
            raise Skip  # no factor analysis to start from
    more = {} if guess is None else {'initial_guess': guess}
    func = girth.multidimensional_twopl_mml if case['two'] else girth.multidimensional_grm_mml
    result = ctx.call(func, data.copy(), f, est.options(spec, **more))
    a = ctx.shape('Discrimination', result['Discrimination'], (items, f))
    if case['two']:
        d = ctx.shape('Difficulty', result['Difficulty'], (items,)).reshape(-1, 1)
    else:
        d = ctx.shape('Difficulty', result['Difficulty'], (items, max(counts) - 1))
    for i, k in enumerate(counts):
        ctx.ok(np.isfinite(d[i, :k - 1]).all() and np.isnan(d[i, k - 1:]).all(),
               f'item {i} has {k} categories but intercepts {d[i]}')
        ctx.ok((np.diff(d[i, :k - 1]) < 1e-6).all(), f'intercepts of item {i} do not descend: {d[i]}')
    # identification: the last items load on the first factors only
    for k in range(f):
        row = a[items - 1 - k]
        ctx.close('loading fixed at zero', row[k + 1:], np.zeros(f - 1 - k), atol=1e-9)
        if guess is not False:
            ctx.ok(row[k] >= .15 - 1e-6, f'item {items - 1 - k} has loading {row[k]} on factor {k}')
    ctx.ok(a[-1, 0] >= .2 - 1e-6 and a[-1, 0] <= 5 + 1e-6, f'last item outside of [0.2, 5]: {a[-1]}')
    ctx.ok((np.abs(a[:-1]) <= 4 + 1e-6).all(), f'discrimination outside of its bounds: {a}')
    theta, weight, density = est.grid(spec)
    dw = weight * density
    tails = est.tail_proportions(codes)
    for i, row in enumerate(tails):
        size = float(np.clip(np.linalg.norm(a[i]), .15, 5.99))
        for k, p in enumerate(row):
            want = est.solve_location(size, p, theta, dw)
            if abs(want) > 5.5:
                ctx.feature('threshold beyond the search range')
                continue
            ctx.close('expected proportion above a threshold',
                      float(np.sum(ref.logistic(size * theta + d[i, k]) * dw)), p, atol=1e-3)
    grids = np.array(np.meshgrid(*[theta] * f, indexing='ij')).reshape(f, -1)
    wgrid = np.array(np.meshgrid(*[dw] * f, indexing='ij')).reshape(f, -1).prod(axis=0)
    fit = est.Fit(codes, [ref.md_grm_probs(grids, a[i], d[i]) for i in range(items)], wgrid)
    tol = 1e-5 * max(1.0, abs(fit.loglik) / 100)
    ctx.close('log likelihood', result['LL'], fit.loglik, atol=tol)
    ctx.close('AIC', result['AIC'], -2 * fit.loglik, atol=tol)
    ctx.close('BIC', result['BIC'], -2 * fit.loglik, atol=tol)
    ctx.shape('Ability', result['Ability'], (f, data.shape[1]))
    for k in range(f):
        ctx.close('Ability', result['Ability'][k], ref.eap(fit.total, wgrid, grids[k]), atol=1e-6)

    def prob(i, z):
        size = float(np.clip(np.linalg.norm(z), .15, 5.99))
        row = [-size * est.solve_location(size, p, theta, dw) for p in tails[i]]
        full = np.zeros(f)
        full[:len(z)] = z
        return ref.md_grm_probs(grids, full, row)
    judged = [items - 1, items - 2] if spec['max_iteration'] < 10 else [items - 1, items - 2, 0]
    # starting values of near 25 are possible in the first round, and lost to rounding there
    if f == 2 and (spec['max_iteration'] > 1 or guess is False):
        for i in judged:
            free = min(f, items - i)
            x = a[i, :free]
            here, best = fit.loglik, -np.inf
            moves = [x * s for s in (.6, .85, .95, 1.05, 1.15)]
            if free > 1:
                moves += [x + s * np.eye(free)[k] for s in (-.6, -.15, .15, .6) for k in range(free)]
            for z in moves:
                z = np.clip(z, -3, 3) if free > 1 else np.clip(z, .2, 5)
                if guess is not False and 1 < free == items - i:
                    z[-1] = max(z[-1], .15)
                best = max(best, fit.with_item(i, prob(i, z)))
            ctx.atmost('log likelihood gained by another discrimination nearby' + ('' if i == items - 1 else ' (inner)'),
                       best - here, 0.0, .02 if i == items - 1 else (2.0 if spec['max_iteration'] >= 4 else 6.0))
    est.missing_features(ctx, data)
    est.option_features(ctx, spec)
    ctx.feature(f'{f} factors', 'dichotomous' if case['two'] else 'graded', f'initial guess {guess}',
                f"max_iteration {spec['max_iteration']}")
    ctx.nontrivial(np.abs(a).max() > .2)


def check_refuses(case, ctx):
    ctx.refuses(f"{case['f']} factors", girth.multidimensional_grm_mml, case['data'], case['f'])
    ctx.refuses(f"{case['f']} factors", girth.multidimensional_twopl_mml, case['data'], case['f'])
    ctx.nontrivial()


PROP = Property(
    'C23', 'Simulated dichotomous and graded data of 2 and 3 factors (4-7 items, 70-160 respondents) with missing '
           'entries, quadratures, look-up table, starting values and iteration limits. Non-trivial: some discrimination '
           'exceeds 0.2.',
    [Sub('multidimensional', cases(), check, quick=10, thorough=60),
     Sub('one_factor', st.fixed_dictionaries({'f': st.sampled_from([1, 0, -2]),
                                              'data': st.just(np.array([[0, 1, 1], [1, 0, 1], [0, 0, 1]]))}),
         check_refuses, quick=3, shards=1)],
    ['with starting values: the polychoric correlations are positive definite', 'normal priors centred at zero: the proportions are matched by rotating the factors',
     'only the items estimated last (and, after ten rounds, the first) are judged for optimality'])
