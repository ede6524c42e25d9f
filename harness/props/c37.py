"""C37: minimum rank factor analysis."""
import numpy as np
from hypothesis import strategies as st

from harness import fa, gen
from harness.core import Property, Skip, Sub
from girth.factoranalysis import minimum_rank_factor_analysis, principal_axis_factor


def unexplained(matrix, unique, n):
    return np.sort(np.linalg.eigvalsh(matrix - np.diag(unique)))[::-1][n:].sum()


def feasible(factor, x):
    """The largest unique variances along x that keep the rest a covariance."""
    return (np.linalg.svd(x * factor, compute_uv=False)[-1] / x)**2


def starts(matrix, n):
    """The starting values; sampled matrices exist on which they do not converge."""
    try:
        return principal_axis_factor(matrix, n)[2]
    except RuntimeError as exc:  # did not converge, and said so
        raise Skip from exc


def check(case, ctx):
    matrix, n = case['matrix'], case['n']
    items = matrix.shape[0]
    before = matrix.copy()
    starts(matrix, n)
    loadings, values, unique = ctx.call(minimum_rank_factor_analysis, matrix, n)
    ctx.equal('input unchanged', matrix, before)
    ctx.shape('loadings', loadings, (items, n))
    ctx.shape('unique variances', unique, (items,))
    ctx.ok(np.all(unique > 0) and np.all(unique <= 1 + 1e-9), f'unique variances {unique}')
    reduced = matrix - np.diag(unique)
    eigen, factors = fa.top(reduced, n)
    ctx.close('smallest eigenvalue of the reduced matrix', np.linalg.eigvalsh(reduced)[0], 0.0, atol=1e-8)
    ctx.close('eigenvalues', values, eigen, atol=1e-8)
    ctx.close('common part', loadings @ loadings.T, factors @ factors.T, atol=1e-7)
    ctx.close('inner products of the loadings', loadings.T @ loadings, np.diag(eigen), atol=1e-8)
    left = unexplained(matrix, unique, n)
    if not case['noise']:
        ctx.feature('exact structure')
        slack = .02 if items <= 13 else .1
        ctx.atmost('unexplained common variance of an exact structure', left, 0.0, slack)
        ctx.close('unique variances recovered', unique, 1 - np.square(case['loadings']).sum(axis=1), atol=slack)
    else:
        # nothing nearby explains more of the common variance
        factor = np.linalg.cholesky(matrix).T
        rng = np.random.default_rng(int(case['order'][0]) + 7)
        x, best = 1 / np.sqrt(unique), left
        for k in range(40):
            trial = unexplained(matrix, feasible(factor, x * np.exp(rng.normal(size=items) * (.01, .05)[k % 2])), n)
            best = min(best, trial)
        ctx.atmost('unexplained common variance over what is found nearby', left, best, .05 if items <= 13 else .2)
    start = case['start'].copy()
    other = ctx.call(minimum_rank_factor_analysis, matrix, n, initial_guess=start)
    ctx.equal('initial guess unchanged', start, case['start'])
    ctx.close('smallest eigenvalue from another start', np.linalg.eigvalsh(matrix - np.diag(other[2]))[0], 0.0, atol=1e-8)
    ctx.feature(f'{n} factors', f"{case['noise']} observations")
    ctx.nontrivial()


@st.composite
def small_samples(draw):
    """Correlations of 60 observations: improper (Heywood) solutions are common."""
    rng = gen.draw_rng(draw)
    n = draw(st.integers(1, 3))
    items = draw(st.integers(2 * n + 1, 2 * n + 6))
    loadings = rng.uniform(-.9, .9, (items, n))
    loadings *= np.sqrt(np.minimum(1, .97 / np.square(loadings).sum(axis=1)))[:, None]
    matrix = loadings @ loadings.T
    np.fill_diagonal(matrix, 1.0)
    matrix = np.corrcoef(rng.multivariate_normal(np.zeros(items), matrix, size=draw(st.sampled_from([40, 60, 100]))).T)
    return {'matrix': (matrix + matrix.T) / 2, 'n': n}


def check_improper(case, ctx):
    """Where the starting values are improper the result still is a factor analysis."""
    matrix, n = case['matrix'], case['n']
    start = starts(matrix, n)
    loadings, values, unique = ctx.call(minimum_rank_factor_analysis, matrix, n)
    ctx.ok(np.all(unique > 0) and np.all(unique <= 1 + 1e-9), f'unique variances {unique}')
    reduced = matrix - np.diag(unique)
    eigen, factors = fa.top(reduced, n)
    ctx.close('smallest eigenvalue of the reduced matrix', np.linalg.eigvalsh(reduced)[0], 0.0, atol=1e-8)
    ctx.close('eigenvalues', values, eigen, atol=1e-8)
    if fa.gap(reduced, n) > 1e-3:
        ctx.close('common part', loadings @ loadings.T, factors @ factors.T, atol=1e-6)
    ctx.feature('improper start' if start.min() <= 0 else 'proper start')
    ctx.nontrivial(start.min() <= 0)


@st.composite
def wide_structures(draw):
    """Exact structures whose unique variances are anywhere in .05-.9."""
    rng = gen.draw_rng(draw)
    n = draw(st.integers(1, 2))
    items = draw(st.integers(2 * n + 2, 2 * n + 7))
    loadings = fa.structure(rng, items, n)
    community = rng.uniform(draw(st.sampled_from([.1, .3])), draw(st.sampled_from([.6, .95])), items)
    loadings *= np.sqrt(community / np.square(loadings).sum(axis=1))[:, None]
    matrix = loadings @ loadings.T
    np.fill_diagonal(matrix, 1.0)
    return {'matrix': (matrix + matrix.T) / 2, 'community': community, 'n': n}


def check_wide(case, ctx):
    """The unique variances of an exact structure are found, wherever they are."""
    matrix, n = case['matrix'], case['n']
    starts(matrix, n)
    _, values, unique = ctx.call(minimum_rank_factor_analysis, matrix, n)
    ctx.atmost('unexplained common variance of an exact structure', unexplained(matrix, unique, n), 0.0, .02)
    ctx.close('unique variances recovered', unique, 1 - case['community'], atol=.02)
    ctx.close('explained common variance', np.sum(values), case['community'].sum(), atol=.04)
    ctx.feature(f'{n} factors')
    ctx.nontrivial(case['community'].min() < .3 or case['community'].max() > .8)


PROP = Property(
    'C37', 'Correlation matrices of 1-3 well marked factors on 4-13 items (a few on 20-45), exact and sampled from 200-800 observations, and '
           'matrices of 40-100 observations whose starting values are often improper. Non-trivial: every case; for small '
           'samples, an improper start; for wide structures, a communality under .3 or over .8.',
    [Sub('minimum_rank', fa.problems(covariance=False), check, quick=60, thorough=100),
     Sub('large', fa.problems(covariance=False, large=True), check, quick=1, thorough=100),
     Sub('wide', wide_structures(), check_wide, quick=40, thorough=100),
     Sub('small_samples', small_samples(), check_improper, quick=40, thorough=100)],
    ['correlation matrices'])
