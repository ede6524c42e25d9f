"""C18: estimation of the latent distribution."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog

from harness import est, gen, ref
from harness.core import Property, Skip, Sub
import girth
from girth.utilities import LatentPDF
from harness.props import c17


def reference_spline(x, space, delta, coefficients):
    """Cubic B-spline density with these coefficients, written out again."""
    z = np.abs((np.atleast_1d(x)[:, None] - space[None]) / delta)
    basis = np.where(z < 1, (4 - 6 * z**2 + 3 * z**3) / 6, np.where(z < 2, (2 - z)**3 / 6, 0.0))
    return basis @ coefficients / delta


def knots(high, n):
    """Interior spline centres on a symmetric interval (-high, high)."""
    stop = high * (n - 1) / (n + 3)
    return np.linspace(-stop, stop, n)


def judge_constraints(ctx, spline, high, n, tol=1e-6):
    space = knots(high, n)
    delta = space[1] - space[0]
    c = np.asarray(spline.coefficients, float)
    ctx.shape('coefficients', c, (n + 4,))
    ctx.close('outer coefficients', np.r_[c[:2], c[-2:]], np.zeros(4), atol=1e-12)
    c = c[2:-2]
    ctx.ok(c.min() >= -1e-9, f'negative coefficient {c.min()}')
    ctx.close('total probability', c.sum(), 1.0, atol=tol)
    ctx.close('mean', c @ space, 0.0, atol=tol)
    # the spline itself adds a variance of delta^2 / 3
    ctx.close('variance', c @ space**2 + delta**2 / 3, 1.0, atol=tol)
    return space, delta, c


@st.composite
def direct(draw):
    rng = gen.draw_rng(draw)
    n = draw(st.sampled_from([5, 6, 7, 9, 9, 11, 13]))
    # wide enough for a unit variance to be reachable, knots close enough
    high = draw(st.sampled_from([3.5, 4.0, 4.5, 5.0, 6.0]))
    return {'n': n, 'high': high, 'quad_n': draw(st.sampled_from([21, 31, 41, 61])),
            'persons': draw(st.integers(30, 200)), 'items': draw(st.integers(3, 10)),
            'shape': draw(st.sampled_from(['normal', 'skew', 'bimodal', 'uniform'])), 'seed': int(rng.integers(2**31)),
            'tiny': draw(st.sampled_from([0, 0, 0, 12, 40, 150]))}


def check_direct(case, ctx):
    n, high = case['n'], case['high']
    space = knots(high, n)
    if n % 2 == 0 and space[n // 2]**2 > 1 - (space[1] - space[0])**2 / 3:
        raise Skip  # knots too coarse for a unit variance
    rng = np.random.default_rng(case['seed'])
    theta, weight = ref.quadrature(case['quad_n'], -high, high)
    person = gen.abilities(rng, case['persons'], case['shape'])
    b, a = gen.dich_items(rng, case['items'], b_max=1.5)
    data = rng.uniform(size=(case['items'], case['persons'])) < ref.logistic(a[:, None] * (person - b[:, None]))
    loglik = ref.pattern_loglik(data.astype(int), [np.array([ref.logistic(-x * (theta - y)), ref.logistic(x * (theta - y))])
                                                  for x, y in zip(a, b)])
    # what items beyond these would contribute to each respondent alike: the density does not depend on it
    likelihood = np.exp(loglik) * 10.0**-rng.uniform(0, case['tiny'] + 1e-9, case['persons'])[:, None]
    latent = ctx.call(LatentPDF, {'estimate_distribution': True, 'number_of_samples': n,
                                  'quadrature_bounds': (-high, high), 'quadrature_n': case['quad_n']})
    before = likelihood.copy()
    density = ctx.call(latent.optimize_distribution, likelihood)
    ctx.equal('input unchanged', likelihood, before)
    spline = latent.cubic_splines[-1]
    space, delta, c = judge_constraints(ctx, spline, high, n)
    basis = np.array([reference_spline(theta, space[[k]], delta, np.ones(1)) for k in range(n)])
    ctx.close('density at the quadrature points', density, c @ basis, atol=1e-8)
    ctx.close('spline at the quadrature points', spline(theta), c @ basis, atol=1e-8)
    # certificate: the log likelihood is concave in c, so what a linear program
    # gains along the gradient bounds what any admissible density could gain
    per = likelihood @ (basis * weight).T
    value = per @ c
    gradient = (per / value[:, None]).sum(axis=0)
    found = linprog(-gradient, A_eq=np.array([np.ones(n), space, space**2]),
                    b_eq=[1, 0, 1 - delta**2 / 3], bounds=[(0, None)] * n)
    ctx.ok(found.status == 0, 'harness: the linear program failed')
    bound = float(gradient @ found.x - gradient @ c)
    ctx.atmost('log likelihood any other admissible density can gain', bound, 0.0, LIMIT)
    # second call of the estimator, from the solution
    again = ctx.call(latent, likelihood, 1)
    ctx.close('weights in a later round', again, latent.cubic_splines[-1](theta) * weight, atol=1e-10)
    first = ctx.call(latent, likelihood, 0)
    ctx.close('weights in the first round', first, latent.null_distribution * weight, atol=1e-10)
    ctx.feature(case['shape'], f'{n} samples', 'tiny likelihoods' if case['tiny'] else 'plain')
    ctx.nontrivial()


LIMIT = .1


@st.composite
def fits(draw):
    case = draw(c17.cases())
    spec = case['spec']
    spec['estimate_distribution'] = True
    spec['number_of_samples'] = draw(st.sampled_from([None, 5, 7, 9, 12, 13]))
    if spec['max_iteration'] == 1:
        spec['max_iteration'] = 2
    quad = spec['quad']
    if quad and quad['bounds'][0] != -quad['bounds'][1]:
        spec['quad'] = {'bounds': (-4.5, 4.5), 'n': quad['n']}
    return case


def check_fit(case, ctx):
    data, model, spec = case['data'], case['model'], case['spec']
    result = ctx.call(c17.estimate, model, data.copy(), est.options(spec))
    latent = result['LatentPDF']
    n = spec['number_of_samples'] or 9
    high = spec['quad']['bounds'][1] if spec['quad'] else 4.5
    judge_constraints(ctx, latent.cubic_splines[-1], high, n)
    x, y = ctx.call(latent.cubic_splines[-1].continuous_pdf, (-high, high), 4001)
    ctx.ok(np.min(y) > -1e-9, 'negative density')
    step = x[1] - x[0]
    ctx.close('integral, mean and variance of the density',
              [y.sum() * step, (y * x).sum() * step, (y * x * x).sum() * step], [1.0, 0.0, 1.0], atol=1e-4)
    ctx.feature(model, f'{n} samples')
    est.missing_features(ctx, data)
    ctx.nontrivial()


PROP = Property(
    'C18', 'Likelihood matrices of simulated respondents from normal, skewed, bimodal and uniform populations given '
           'straight to the latent distribution, and the marginal estimators with the distribution estimated. '
           'Non-trivial: every case.',
    [Sub('optimum', direct(), check_direct, quick=40, thorough=60),
     Sub('estimators', fits(), check_fit, quick=10, thorough=60)],
    ['quadrature bounds symmetric around zero', 'knots fine enough for a density of unit variance'])
