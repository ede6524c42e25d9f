"""C19: the spline density and the latent density controller."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog

from harness import gen, ref
from harness.core import Property, Skip, Sub
from harness.props.c18 import knots, reference_spline
from girth.utilities import CubicSplinePDF, LatentPDF
from girth.utilities.latent_ability_distribution import resample


@st.composite
def splines(draw):
    rng = gen.draw_rng(draw)
    n = draw(st.integers(5, 25))
    high = draw(st.sampled_from([1.0, 2.5, 3.5, 4.5, 5.0, 6.0, 8.0]))
    kind = draw(st.sampled_from(['probability', 'probability', 'free', 'single']))
    if kind == 'single':
        c = np.zeros(n)
        c[draw(st.integers(0, n - 1))] = 1.0
    elif kind == 'free':
        c = rng.normal(size=n) * 3
    else:
        c = rng.dirichlet(np.full(n, .7))
    return {'n': n, 'high': high, 'c': c, 'kind': kind,
            'x': np.r_[rng.uniform(-1.3 * high, 1.3 * high, 15), knots(high, n)],
            'n_points': draw(st.integers(2, 60)), 'extra': draw(st.sampled_from([-1, 1, 4, -4]))}


def check_spline(case, ctx):
    n, high, c, x = case['n'], case['high'], case['c'], case['x']
    spline = ctx.call(CubicSplinePDF, {'number_of_samples': n, 'quadrature_bounds': (-high, high)})
    space = knots(high, n)
    delta = space[1] - space[0]
    ctx.close('density before any update', ctx.call(spline, x), np.zeros(x.size), atol=1e-12)
    before = c.copy()
    ctx.call(spline.update_coefficients, c)
    ctx.equal('input unchanged', c, before)
    scale = max(np.abs(c).max(), 1e-3) / delta
    want = reference_spline(x, space, delta, c)
    ctx.close('density', ctx.call(spline, x), want, atol=1e-11 * scale)
    ctx.close('density at one place', ctx.call(spline, float(x[0])), want[:1], atol=1e-11 * scale)
    shuffled = x[::-1].copy()
    shuffled[1:-1] *= .97
    ctx.close('density at other places', ctx.call(spline, shuffled), reference_spline(shuffled, space, delta, c),
              atol=1e-11 * scale)
    moved = np.sort(x)
    moved[1:-1] = moved[1:-1] * .9 + .1 * moved[2:]
    ctx.close('density at moved places', ctx.call(spline, moved), reference_spline(moved, space, delta, c),
              atol=1e-11 * scale)
    ctx.close('density at ordered places', ctx.call(spline, np.sort(x)), want[np.argsort(x)], atol=1e-11 * scale)
    outside = np.array([-1.5 * high, -high, high, 1.2 * high])
    ctx.close('density outside of the bounds', ctx.call(spline, outside), np.zeros(4), atol=1e-10 * scale)
    # piecewise cubic: five point Gauss is exact between knots
    edges = np.linspace(-high, high, n + 4)
    node, weight = np.polynomial.legendre.leggauss(5)
    half = (edges[1:] - edges[:-1]) / 2
    theta = (half[:, None] * node + (edges[1:] + edges[:-1])[:, None] / 2).ravel()
    w = (half[:, None] * weight).ravel()
    y = ctx.call(spline, theta)
    ctx.close('integral', w @ y, c.sum(), atol=1e-10 * (1 + np.abs(c).sum()))
    ctx.close('first moment', w @ (y * theta), c @ space, atol=1e-10 * high * (1 + np.abs(c).sum()))
    ctx.close('second moment', w @ (y * theta**2), c @ space**2 + delta**2 / 3 * c.sum(),
              atol=1e-10 * high**2 * (1 + np.abs(c).sum()))
    if case['kind'] != 'free':
        ctx.ok(np.min(y) >= -1e-12, 'negative density of non-negative coefficients')
    # the finely sampled density
    low, up = -.9 * high, 1.1 * high
    px, py = ctx.call(spline.continuous_pdf, (low, up), case['n_points'])
    ctx.close('locations of the continuous density', px, np.linspace(low, up, case['n_points']), atol=1e-9)
    ctx.close('continuous density', py, reference_spline(px, space, delta, c), atol=1e-10 * scale)
    px, py = ctx.call(spline.continuous_pdf)
    ctx.close('default locations', px, np.linspace(-5, 5, 2001), atol=1e-9)
    # a wrong number of coefficients is refused, and the old ones are kept
    ctx.refuses('a wrong number of coefficients', spline.update_coefficients, np.ones(max(n + case['extra'], 2)))
    ctx.close('density after the refusal', ctx.call(spline, x), want, atol=1e-11 * scale)
    ctx.call(spline.update_coefficients, 2 * c[::-1])
    ctx.close('density after another update', ctx.call(spline, x), reference_spline(x, space, delta, 2 * c[::-1]),
              atol=2e-11 * scale)
    ctx.feature(case['kind'])
    ctx.nontrivial(case['kind'] != 'single')


# ------------------------------------------------------------------ resample
@st.composite
def resamples(draw):
    rng = gen.draw_rng(draw)
    return {'n': draw(st.sampled_from([7, 8, 9, 11, 12, 13])), 'm': draw(st.sampled_from([7, 9, 10, 11, 13, 15])),
            'high': draw(st.sampled_from([3.5, 4.0, 4.5, 5.0])), 'target': rng.dirichlet(np.full(15, .7))}


def admissible(n, high, target):
    """Non-negative coefficients of mean 0 and variance 1 near some direction."""
    space = knots(high, n)
    delta = space[1] - space[0]
    cost = -np.interp(space, np.linspace(-high, high, target.size), target)
    out = []
    for sign in (cost, np.abs(space) + cost, -cost * .1 + space**4 * .01):
        found = linprog(sign, A_eq=np.array([np.ones(n), space, space**2]), b_eq=[1, 0, 1 - delta**2 / 3],
                        bounds=[(0, None)] * n)
        if found.status != 0:
            return None
        out.append(found.x)
    return np.mean(out, axis=0)


def check_resample(case, ctx):
    n, m, high = case['n'], case['m'], case['high']
    c = admissible(n, high, case['target'])
    if c is None or admissible(m, high, case['target']) is None:
        raise Skip
    spline = ctx.call(CubicSplinePDF, {'number_of_samples': n, 'quadrature_bounds': (-high, high)})
    ctx.call(spline.update_coefficients, c)
    ctx.refuses('the number of samples it already has', resample, spline, n)
    if n == m:
        ctx.feature('same number')
        return
    new = ctx.call(resample, spline, m)
    space_n, space = knots(high, n), knots(high, m)
    delta = space[1] - space[0]
    ctx.close('the old density is kept', spline(space_n), reference_spline(space_n, space_n, space_n[1] - space_n[0], c),
              atol=1e-10)
    got = np.asarray(new.coefficients[2:-2])
    ctx.shape('coefficients', got, (m,))
    ctx.ok(got.min() >= -1e-8, f'negative coefficient {got.min()}')
    ctx.close('integral, mean and variance', [got.sum(), got @ space, got @ space**2 + delta**2 / 3], [1.0, 0.0, 1.0],
              atol=1e-5)
    # optimality of a convex quadratic: the linear gain bounds any gain
    points = np.r_[-high + delta * np.array([0, 1]), space, high - delta * np.array([1, 0])]
    values = reference_spline(points, space_n, space_n[1] - space_n[0], c)
    basis = np.array([reference_spline(points, space[[k]], delta, np.ones(1)) for k in range(m)]).T
    error = (values - basis @ got) * delta
    gradient = -2 * delta * basis.T @ error
    found = linprog(gradient, A_eq=np.array([np.ones(m), space, space**2]), b_eq=[1, 0, 1 - delta**2 / 3],
                    bounds=[(0, None)] * m)
    ctx.ok(found.status == 0, 'harness: the linear program failed')
    ctx.atmost('squared error another density could save', gradient @ got - gradient @ found.x, 0.0, LIMIT)
    ctx.feature('more samples' if m > n else 'fewer samples')
    ctx.nontrivial()


LIMIT = 5e-3


# ------------------------------------------------------------------- control
@st.composite
def controls(draw):
    rng = gen.draw_rng(draw)
    quad = draw(gen.quadratures(n_low=9))
    dist = draw(st.one_of(st.none(), gen.distributions()))
    return {'quad': quad, 'dist': dist, 'persons': draw(st.integers(1, 30)), 'estimate': draw(st.booleans()),
            'iteration': draw(st.integers(0, 5)), 'k': draw(st.integers(0, 60)), 'seed': int(rng.integers(2**31)),
            'samples': draw(st.sampled_from([None, 5, 9, 12]))}


def check_control(case, ctx):
    options = gen.options_from(case['quad'], case['dist'])
    if case['estimate']:
        options['estimate_distribution'] = True
    if case['samples']:
        options['number_of_samples'] = case['samples']
    theta, weight, density = gen.grid_from(case['quad'], case['dist'])
    latent = ctx.call(LatentPDF, options) if options else ctx.call(LatentPDF)
    ctx.close('locations', latent.quadrature_locations, theta, atol=1e-10)
    ctx.close('weights', latent.weights, weight, atol=1e-10)
    ctx.close('given density', latent.null_distribution, density, atol=1e-10)
    rng = np.random.default_rng(case['seed'])
    table = rng.uniform(.01, 1, (case['persons'], theta.size))
    before = table.copy()
    iteration = 0 if case['estimate'] else case['iteration']
    got = ctx.call(latent, table, iteration)
    ctx.close('density times weights', got, density * weight, atol=1e-10)
    again = ctx.call(latent, table, iteration)
    ctx.close('density times weights, second call', again, density * weight, atol=1e-10)
    aic, bic = ctx.call(latent.compute_metrics, table, got, case['k'])
    loglik = np.log(table @ (density * weight)).sum()
    ctx.close('AIC', aic, 2 * case['k'] - 2 * loglik, atol=1e-7)
    ctx.close('BIC', bic, case['k'] * np.log(case['persons']) - 2 * loglik, atol=1e-7)
    ctx.equal('input unchanged', table, before)
    ctx.feature('estimating' if case['estimate'] else 'not estimating', 'given density' if case['dist'] else 'default')
    ctx.nontrivial(case['persons'] > 2)


PROP = Property(
    'C19', 'Spline densities of 5-25 coefficients (probabilities, free, single) on bounds 1-8 wide; splines resampled to '
           'another number of knots; latent density controllers over random quadratures, densities and likelihood '
           'tables. Non-trivial: more than one coefficient, a real change of knots, more than two respondents.',
    [Sub('spline', splines(), check_spline, quick=150, thorough=60),
     Sub('resample', resamples(), check_resample, quick=60, thorough=60),
     Sub('control', controls(), check_control, quick=150, thorough=60)],
    ['quadrature bounds symmetric around zero for splines', 'knots fine enough for a density of unit variance'])
