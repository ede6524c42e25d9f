"""C12: graded response and two parameter models by marginal maximum likelihood."""
import numpy as np
from hypothesis import strategies as st

from harness import est, ref
from harness.core import Property, Sub, Violation
from girth import grm_mml, twopl_mml


@st.composite
def cases(draw, two=False, latent=True):
    spec = draw(est.fit_spec(latent=latent))
    if two:
        data, counts = draw(est.poly_data('grm', n_items=(3, 8), k=(2, 2), start=(0,), n=(40, 160)))
    else:
        data, counts = draw(est.poly_data('grm', k=(2, 5)))
    return {'data': data, 'spec': spec, 'two': two}


@st.composite
def strong(draw):
    """Items close to Guttman scales, judged on a fine and wide quadrature."""
    spec = draw(est.fit_spec(kinds=('norm',), latent=False))
    spec['quad'] = {'bounds': draw(st.sampled_from([(-6.0, 6.0), (-5.0, 6.0), (-7.0, 7.0)])), 'n': 91}
    spec['dist'] = None
    data, counts = draw(est.poly_data('grm', n_items=(3, 5), n=(120, 300), k=(3, 5), a_range=(2.0, 6.0), min_count=2))
    return {'data': data, 'spec': spec, 'two': False, 'strong': True}


@st.composite
def long(draw):
    two = draw(st.booleans())
    data, _ = draw(est.poly_data('grm', k=(2, 2) if two else (2, 4), **dict(est.LONG, start=(0,)) if two else est.LONG))
    return {'data': data, 'spec': draw(est.long_spec()), 'two': two}


@st.composite
def large(draw):
    two = draw(st.booleans())
    data, spec = draw(est.large('grm', two, est.fit_spec()))
    return {'data': data, 'spec': spec, 'two': two}


def check_graded(ctx, codes, counts, a, b, theta, dw, low, high, spec, interior=(.2, 5.0)):
    """Thresholds reproduce the observed proportions under the final density."""
    tails = est.tail_proportions(codes)
    ctx.ok((a >= low - 1e-6).all() and (a <= high + 1e-6).all(), f'discrimination outside of [{low}, {high}]: {a}')
    for i, row in enumerate(tails):
        finite = b[i][:counts[i] - 1]
        ctx.ok((np.diff(finite) > -1e-6).all(), f'thresholds of item {i} are not ordered: {finite}')
        for k, p in enumerate(row):
            want = est.solve_location(a[i], p, theta, dw)
            if abs(want) > 5.5:
                ctx.feature('threshold beyond the search range')
                continue
            got = float(np.sum(ref.logistic(a[i] * (theta - b[i, k])) * dw))
            ctx.close('expected proportion above a threshold', got, p, atol=3e-4)
    return tails


def check(case, ctx):
    data, spec = case['data'], case['spec']
    codes, counts = est.recode(data)
    func = twopl_mml if case['two'] else grm_mml
    result = ctx.call(func, data.copy(), est.options(spec))
    if case['two']:
        ctx.shape('2PL difficulty', result['Difficulty'], (len(counts),))
        result = dict(result, Difficulty=np.asarray(result['Difficulty']).reshape(-1, 1))
    a, b = est.check_result_shapes(ctx, result, counts, data.shape[1])
    theta, dw = est.final_density(spec, result)
    tails = check_graded(ctx, codes, counts, a, b, theta, dw, .2, 5.0, spec)
    fit = est.Fit(codes, [ref.grm_probs(theta, x, y) for x, y in zip(a, b)], dw)
    # after a limited number of rounds only the last item has seen the final values of the others
    settled = range(len(counts)) if spec.get('max_iteration') is None else [len(counts) - 1]
    for i in settled:
        if max(abs(est.solve_location(a[i], p, theta, dw)) for p in tails[i]) > 5.5:
            continue
        block = est.grm_block(theta, dw, tails[i])
        gain = est.local_gain(fit.loglik, lambda x, i=i, block=block: fit.with_item(i, block(x)), a[i], .2, 5.0,
                              (.93, .98, 1.02, 1.07) if case.get('strong') else (.8, .93, .98, 1.02, 1.07, 1.25))
        ctx.atmost('log likelihood gained by another discrimination nearby', gain, 0.0, 1e-2)
    est.missing_features(ctx, data)
    est.size_feature(ctx, data)
    est.option_features(ctx, spec)
    est.iteration_feature(ctx, spec)
    ctx.feature('unequal categories' if len(set(counts)) > 1 else f'{counts[0]} categories')
    ctx.nontrivial(((a > .21) & (a < 4.99)).any())


def check_recorded(case, ctx):
    """Items that everyone answers alike: the recorded finding gives the opposite end of the search range."""
    for place in case['places']:
        data = np.array(case['data'])
        data[place] = 0
        result = ctx.call(twopl_mml, data, {'use_LUT': case['lut'], 'max_iteration': 3})
        got = float(np.asarray(result['Difficulty']).ravel()[place])
        if got < 0:
            raise Violation(f'opposite end of the range: item {place}, right for nobody, has difficulty {got}')


AXES = {'data': ('item', 'person')}
PROP = Property(
    'C12', 'Simulated dichotomous and graded data (3-8 items, 40-160 respondents, 2-5 categories, equal or not, any '
           'first code) with missing entries, every prior, quadrature, with and without look-up table, estimated '
           'latent distribution and iteration limits. Non-trivial: some discrimination is off its bounds.',
    [Sub('graded', cases(), check, quick=10, thorough=60, axes=AXES, minimum={'item': 2}),
     Sub('two_parameter', cases(two=True), check, quick=12, thorough=60, axes=AXES, minimum={'item': 2}),
     Sub('long', long(), check, quick=3, thorough=25, axes=AXES, minimum={'item': 2}),
     Sub('large', large(), check, quick=3, thorough=25, axes=AXES, minimum={'item': 2}),
     Sub('strong', strong(), check, quick=6, thorough=40, axes=AXES, minimum={'item': 2}),
     Sub('recorded', st.nothing(), check_recorded, shards=0)],
    ['the thresholds are judged where the exact solution lies within the search range',
     'with an iteration limit only the item estimated last is judged for optimality'])
