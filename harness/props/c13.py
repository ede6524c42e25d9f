"""C13: partial credit model by marginal maximum likelihood."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from harness import est, ref
from harness.core import Property, Sub
from girth import pcm_mml


@st.composite
def cases(draw):
    spec = draw(est.fit_spec(lut=False))
    data, counts = draw(est.poly_data('pcm', k=(2, 5), consistent=True))
    return {'data': data, 'spec': spec}


@st.composite
def long(draw):
    data, _ = draw(est.poly_data('pcm', k=(2, 4), **est.LONG))
    return {'data': data, 'spec': draw(est.long_spec(lut=False))}


@st.composite
def large(draw):
    data, spec = draw(est.large('pcm', spec=est.fit_spec(lut=False), wide=(6, 8)))
    return {'data': data, 'spec': spec}


def block_gain(fit, item, prob, x, bounds):
    """Log likelihood gained by re-optimising one item's parameters."""
    low, high = np.array(bounds).T
    # the objective is per response pattern, of the order of hundreds: tight tolerances
    found = minimize(lambda z: -fit.with_item(item, prob(z)), np.clip(x, low, high), method='L-BFGS-B',
                     bounds=bounds, options={'maxiter': 60})
    return -found.fun - fit.loglik


def check(case, ctx):
    data, spec = case['data'], case['spec']
    codes, counts = est.recode(data)
    result = ctx.call(pcm_mml, data.copy(), est.options(spec))
    a, b = est.check_result_shapes(ctx, result, counts, data.shape[1])
    ctx.ok((a >= .25 - 1e-6).all() and (a <= 4 + 1e-6).all(), f'discrimination outside of [0.25, 4]: {a}')
    ctx.ok(np.nanmax(np.abs(b)) <= 6 + 1e-6, f'step difficulty outside of [-6, 6]: {b}')
    theta, dw = est.final_density(spec, result)

    def prob(x):
        return ref.gpcm_probs(theta, x[0], x[1:])
    points = [np.r_[a[i], b[i, :k - 1]] for i, k in enumerate(counts)]
    fit = est.Fit(codes, [prob(x) for x in points], dw)
    settled = range(len(counts)) if spec.get('max_iteration') is None else [len(counts) - 1]
    for i in settled:
        gain = block_gain(fit, i, prob, points[i], [(.25, 4)] + [(-6, 6)] * (counts[i] - 1))
        ctx.atmost("log likelihood gained by changing one item's parameters", gain, 0.0, 5e-2)
    est.missing_features(ctx, data)
    est.size_feature(ctx, data)
    est.option_features(ctx, spec)
    est.iteration_feature(ctx, spec)
    ctx.feature('unequal categories' if len(set(counts)) > 1 else f'{counts[0]} categories')
    ctx.nontrivial(((a > .26) & (a < 3.99)).any())


PROP = Property(
    'C13', 'Simulated generalised partial credit data (3-6 items, 60-160 respondents, 2-5 categories, equal or not) '
           'with missing entries, priors, quadratures, estimated latent distribution and iteration limits. '
           'Non-trivial: some discrimination is off its bounds.',
    [Sub('partial_credit', cases(), check, quick=25, thorough=60, axes={'data': ('item', 'person')},
         minimum={'item': 2}),
     Sub('large', large(), check, quick=3, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2}),
     Sub('long', long(), check, quick=3, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2})],
    ['with an iteration limit only the item estimated last is judged for optimality'])
