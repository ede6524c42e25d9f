"""C35: principal axis factoring."""
import numpy as np

from harness import fa
from harness.core import Property, Skip, Sub
from girth.factoranalysis import principal_axis_factor

TOL = 1e-6


def check(case, ctx):
    matrix, n = case['matrix'], case['n']
    before = matrix.copy()

    def run(m=matrix, **kwargs):
        return ctx.call(principal_axis_factor, m, n, tolerance=TOL, **kwargs)

    def step(unique):
        return np.diag(matrix) - np.square(fa.top(matrix - np.diag(unique), n)[1]).sum(axis=1)
    # the plain iteration, to keep to problems with a solution inside the bounds
    plain = np.zeros(matrix.shape[0])
    for _ in range(3000):
        previous, plain = plain, step(plain)
        if np.abs(plain - previous).max() < 1e-9:
            break
    else:
        raise Skip
    if np.min(plain / np.diag(matrix)) < .01 or fa.gap(matrix - np.diag(plain), n) < 1e-3 * np.diag(matrix).mean():
        raise Skip
    loadings, values, unique = run()
    ctx.equal('input unchanged', matrix, before)
    ctx.shape('loadings', loadings, (matrix.shape[0], n))
    size = np.diag(matrix)
    ctx.close('unique variances are a fixed point', step(unique) / size, unique / size, atol=1e-4)
    ctx.ok(np.all(unique > 0) and np.all(unique < size * (1 + 1e-9)), f'unique variance out of bounds {unique}')
    reduced = matrix - np.diag(unique)
    want, factors = fa.top(reduced, n)
    ctx.close('eigenvalues of the reduced matrix', values, want, atol=1e-7)
    ctx.close('common part', loadings @ loadings.T, factors @ factors.T, atol=1e-6)
    ctx.close('inner products of the loadings', loadings.T @ loadings, np.diag(want), atol=1e-7)
    if not case['noise']:
        ctx.feature('exact structure')
        ctx.close('unique variances recovered', unique / size, 1 - np.square(case['loadings']).sum(axis=1) / size, atol=5e-3)
    # the default tolerance stops near a fixed point, in any unit of measurement
    for unit in (1.0, case.get('unit', 1.0)):
        coarse = ctx.call(principal_axis_factor, matrix * unit, n)[2] / unit
        ctx.close(f'a fixed point at the default tolerance, unit {unit}', step(coarse) / size, coarse / size, atol=2e-2)
    order = case['order']
    moved = run(matrix[np.ix_(order, order)])
    ctx.close('unique variances, items rearranged', moved[2] / size[order], unique[order] / size[order], atol=1e-3)
    # another starting point
    start = case['start'].copy()
    other = run(initial_guess=start)
    ctx.equal('initial guess unchanged', start, case['start'])
    ctx.close('a fixed point from another start', step(other[2]) / size, other[2] / size, atol=1e-4)
    # a starting point at the solution stays there
    stay = run(initial_guess=unique.copy())
    ctx.close('unique variances from the solution', stay[2] / size, unique / size, atol=1e-3)
    ctx.feature(case['kind'], f'{n} factors')
    ctx.nontrivial()


PROP = Property(
    'C35', 'Correlation and covariance matrices of 1-3 well marked factors on 4-13 items and of up to six on 20-45, exact and sampled from 200-800 '
           'observations. Non-trivial: every case.',
    [Sub('principal_axis', fa.problems(), check, quick=60, thorough=100),
     Sub('large', fa.problems(large=True), check, quick=3, thorough=100)],
    ['the plain iteration settles at positive unique variances'])
