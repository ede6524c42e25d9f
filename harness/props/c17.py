"""C17: information criteria and abilities that come with an estimate."""
import numpy as np
from hypothesis import strategies as st

from harness import est, ref
from harness.core import Property, Sub
import girth

MODELS = ('grm', 'twopl', 'grm_eap', 'twopl_eap', 'pcm', 'gum')


@st.composite
def cases(draw):
    model = draw(st.sampled_from(MODELS))
    two = model.startswith('twopl')
    data, _ = draw(est.poly_data({'pcm': 'pcm', 'gum': 'gum'}.get(model, 'grm'), n_items=(2, 5), n=(40, 100),
                                 k=(2, 2) if two else (2, 4), start=(0,) if two else (0, 1, 3)))
    if draw(st.integers(0, 4)) == 0:
        data = np.c_[data, np.full((data.shape[0], 1), ref.MISSING)]
    spec = draw(est.fit_spec(lut=model in ('grm', 'twopl')))
    return {'data': data, 'model': model, 'spec': spec}


@st.composite
def long(draw):
    model = draw(st.sampled_from(MODELS))
    two = model.startswith('twopl')
    size = dict(est.LONG, k=(2, 2) if two else (2, 4), start=(0,) if two else (0, 1, 3))
    data, _ = draw(est.poly_data({'pcm': 'pcm', 'gum': 'gum'}.get(model, 'grm'), **size))
    spec = draw(est.long_spec(lut=model in ('grm', 'twopl')))
    spec.update(hyper_quadrature_n=11, max_iteration=1)
    return {'data': data, 'model': model, 'spec': spec}


@st.composite
def large(draw):
    model = draw(st.sampled_from(MODELS))
    data, spec = draw(est.large({'pcm': 'pcm', 'gum': 'gum'}.get(model, 'grm'), model.startswith('twopl'),
                                est.fit_spec(lut=model in ('grm', 'twopl')), wide=(5, 8)))
    spec['max_iteration'] = draw(st.sampled_from([1, 2, 3]))
    return {'data': data, 'model': model, 'spec': spec}


def estimate(model, data, options):
    if model == 'gum':
        return girth.gum_mml(data, options=options)
    return {'grm': girth.grm_mml, 'twopl': girth.twopl_mml, 'grm_eap': girth.grm_mml_eap,
            'twopl_eap': girth.twopl_mml_eap, 'pcm': girth.pcm_mml}[model](data, options)


def category_probs(model, result, theta, n):
    if model == 'gum':
        return [ref.ggum_probs(theta, a, d, tau[np.isfinite(tau)])
                for a, d, tau in zip(result['Discrimination'], result['Delta'], result['Tau'])]
    probs = ref.gpcm_probs if model == 'pcm' else ref.grm_probs
    b = np.asarray(result['Difficulty']).reshape(n, -1)
    return [probs(theta, *x) for x in zip(result['Discrimination'], b)]


def check(case, ctx):
    data, model, spec = case['data'], case['model'], case['spec']
    codes, counts = est.recode(data)
    result = ctx.call(estimate, model, data.copy(), est.options(spec))
    theta, dw = est.final_density(spec, result)
    _, weight, density = est.grid(spec)
    loglik = ref.pattern_loglik(codes, category_probs(model, result, theta, data.shape[0]))
    final = float(ref.marginal_loglik(loglik, dw).sum())
    null = float(ref.marginal_loglik(loglik, weight * density).sum())
    estimated = bool(spec.get('estimate_distribution'))
    k = ((spec.get('number_of_samples') or 9) - 3) if estimated else 0
    aic, bic = result['AIC'], result['BIC']
    ctx.equal('keys', sorted(aic) + sorted(bic), ['delta', 'final', 'null'] * 2)
    tol = 1e-5 * max(1.0, abs(final) / 100)
    ctx.close('AIC null', aic['null'], -2 * null, atol=tol)
    ctx.close('AIC final', aic['final'], 2 * k - 2 * final, atol=tol)
    ctx.close('AIC delta', aic['delta'], aic['null'] - aic['final'], atol=tol)
    ctx.close('BIC null', bic['null'], -2 * null, atol=tol)
    ctx.close('BIC final', bic['final'], k * np.log(data.shape[1]) - 2 * final, atol=tol)
    ctx.close('BIC delta', bic['delta'], bic['null'] - bic['final'], atol=tol)
    ctx.shape('Ability', result['Ability'], (data.shape[1],))
    ctx.close('Ability', result['Ability'], ref.eap(loglik, dw, theta), atol=1e-6)
    est.missing_features(ctx, data)
    est.size_feature(ctx, data)
    est.option_features(ctx, spec)
    est.iteration_feature(ctx, spec)
    ctx.feature(model)
    ctx.nontrivial(np.ptp(result['Ability']) > 1e-3)


PROP = Property(
    'C17', 'The six unidimensional marginal estimators on simulated data with missing entries and wholly missing '
           'respondents, priors, quadratures, iteration limits, with and without estimated latent distribution. '
           'Non-trivial: the abilities vary.',
    [Sub('metrics', cases(), check, quick=16, thorough=60, axes={'data': ('item', 'person')}, minimum={'item': 2}),
     Sub('large', large(), check, quick=3, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2}),
     Sub('long', long(), check, quick=3, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2})],
    ['the number of parameters charged is that of the latent distribution alone, as the code counts it'])
