"""C16: mixed Bayesian / marginal maximum likelihood estimation."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from harness import est, ref
from harness.core import Property, Sub, Violation
from harness.props.c12 import check_graded
from girth import grm_mml_eap, twopl_mml_eap


@st.composite
def cases(draw):
    spec = draw(est.fit_spec(lut=False))
    spec['hyper_quadrature_n'] = draw(st.sampled_from([None, 15, 33, 41]))
    two = draw(st.booleans())
    low = 50 if spec.get('estimate_distribution') else 15
    if two:
        data, _ = draw(est.poly_data('grm', n_items=(2, 6), k=(2, 2), start=(0,), n=(low, 100), min_count=2))
    else:
        data, _ = draw(est.poly_data('grm', n_items=(2, 5), k=(2, 4), n=(low, 100), min_count=2))
    return {'data': data, 'spec': spec, 'two': two}


@st.composite
def long(draw):
    two = draw(st.booleans())
    data, _ = draw(est.poly_data('grm', k=(2, 2) if two else (2, 4), **dict(est.LONG, start=(0,)) if two else est.LONG))
    spec = draw(est.long_spec(lut=False))
    spec.update(hyper_quadrature_n=draw(st.sampled_from([11, 15])), max_iteration=1)
    return {'data': data, 'spec': spec, 'two': two}


@st.composite
def large(draw):
    two = draw(st.booleans())
    data, spec = draw(est.large('grm', two, est.fit_spec(lut=False), wide=(5, 7)))
    spec['hyper_quadrature_n'] = draw(st.sampled_from([None, 15, 33]))
    return {'data': data, 'spec': spec, 'two': two}


def scale_mean(values, n):
    """Posterior mean of the Rayleigh scale under its log normal hyper prior."""
    x, w = ref.quadrature(n, .1, 5)
    log = np.array([stats.rayleigh(.25, s).logpdf(values).sum() for s in x])
    post = np.exp(log - log.max()) * w * stats.lognorm(.25).pdf(x)
    return (post @ x) / post.sum()


def check(case, ctx):
    data, spec = case['data'], case['spec']
    codes, counts = est.recode(data)
    func = twopl_mml_eap if case['two'] else grm_mml_eap
    result = ctx.call(func, data.copy(), est.options(spec))
    if case['two']:
        ctx.shape('2PL difficulty', result['Difficulty'], (len(counts),))
        result = dict(result, Difficulty=np.asarray(result['Difficulty']).reshape(-1, 1))
    a, b = est.check_result_shapes(ctx, result, counts, data.shape[1])
    theta, dw = est.final_density(spec, result)
    tails = check_graded(ctx, codes, counts, a, b, theta, dw, .25, 5.0, spec)
    # hyper parameter: known finding, each item enters once per category instead of once
    n = spec['hyper_quadrature_n'] or 41
    scale = float(result['Rayleigh_Scale'])
    wanted = [scale_mean(a, n), scale_mean(np.repeat(a, counts), n)]
    error = min(abs(scale - w) for w in wanted)
    ctx.note('Rayleigh scale', error / 1e-6)
    ctx.ok(error <= 1e-6, f'Rayleigh scale {scale}, posterior mean {wanted[0]} (by categories {wanted[1]})')
    # discriminations
    limit = spec.get('max_iteration')
    if limit in (None, 1):
        fit = est.Fit(codes, [ref.grm_probs(theta, x, y) for x, y in zip(a, b)], dw)
        x, w = ref.quadrature(n, .25, 5)
        prior = w * stats.rayleigh(.25, scale if limit is None else 1.0).pdf(x)
        for i in (range(len(counts)) if limit is None else [len(counts) - 1]):
            # the look-up table cannot represent thresholds beyond its ends (see C38)
            if max(abs(est.solve_location(.25, p, theta, dw)) for p in tails[i]) > 5.9:
                ctx.feature('threshold beyond the table')
                continue
            block = est.grm_block(theta, dw, tails[i])
            loglik = np.array([fit.with_item(i, block(v)) for v in x])
            post = np.exp(loglik - loglik.max()) * prior
            # a sparse estimated density leaves thresholds between its lumps loosely determined
            ctx.close('discrimination', a[i], (post @ x) / post.sum(), atol=2e-3 if limit else 1e-2 if not
                      spec.get('estimate_distribution') else 5e-2)
    est.missing_features(ctx, data)
    est.size_feature(ctx, data)
    est.option_features(ctx, spec)
    est.iteration_feature(ctx, spec)
    ctx.feature('2PL' if case['two'] else 'graded', f'hyper quadrature {n}')
    ctx.nontrivial()


def check_recorded(case, ctx):
    """A fixed case: the hyper parameter counts an item once per category (recorded finding)."""
    result = grm_mml_eap(case['data'])
    a = result['Discrimination']
    got, want = float(result['Rayleigh_Scale']), scale_mean(a, 41)
    times = np.repeat(a, [np.unique(item).size for item in case['data']])
    if abs(got - scale_mean(times, 41)) < 1e-6 < abs(got - want):
        raise Violation(f'Rayleigh scale counts an item once per category: {got:.4f}, once per item it is {want:.4f}')
    ctx.ok(abs(got - want) < 1e-6, f'scale {got:.4f}, posterior mean given the discriminations {want:.4f}')


PROP = Property(
    'C16', 'Small simulated data sets (2-6 items, 15-100 respondents, 2-4 categories) with missing entries, priors, '
           'quadratures, hyper quadratures, estimated latent distribution and iteration limits. '
           'Non-trivial: every case (each is compared with posterior means computed apart).',
    [Sub('posterior_mean', cases(), check, quick=10, thorough=60, axes={'data': ('item', 'person')},
         minimum={'item': 2}),
     Sub('large', large(), check, quick=2, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2}),
     Sub('long', long(), check, quick=3, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2}),
     Sub('recorded', st.nothing(), check_recorded, quick=1, shards=0)],
    ['the Rayleigh scale is judged with each item counted once, or once per category as the code does '
     '(KNOWN_FINDINGS.jsonl)'])
