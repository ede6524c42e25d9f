"""C36: maximum likelihood factor analysis."""
import numpy as np

from harness import fa
from harness.core import Property, Skip, Sub
from girth.factoranalysis import maximum_likelihood_factor_analysis


def discrepancy(matrix, common, unique):
    implied = common + np.diag(unique)
    sign, logdet = np.linalg.slogdet(implied)
    return logdet + np.trace(np.linalg.solve(implied, matrix))


def check(case, ctx):
    matrix, n = case['matrix'], case['n']
    items = matrix.shape[0]
    before = matrix.copy()

    def run(m=matrix, **kwargs):
        return ctx.call(maximum_likelihood_factor_analysis, m, n, tolerance=1e-10, max_iter=20000, **kwargs)
    loadings, values, unique = run()
    ctx.equal('input unchanged', matrix, before)
    ctx.shape('loadings', loadings, (items, n))
    ctx.ok(np.all(unique > 0), f'unique variances {unique}')
    size = np.diag(matrix)
    if np.min(unique / size) < 1e-3:
        raise Skip  # improper solution
    ctx.close('eigenvalues', values, np.square(loadings).sum(axis=0), atol=1e-9)
    # likelihood equations
    implied = loadings @ loadings.T + np.diag(unique)
    inverse = np.linalg.inv(implied)
    scaled = np.sqrt(unique)
    left = inverse @ (implied - matrix) @ inverse
    ctx.close('derivative for the unique variances', np.diag(left) * unique, np.zeros(items), atol=1e-5)
    ctx.close('derivative for the loadings', (inverse @ (implied - matrix) @ inverse @ loadings) * scaled[:, None],
              np.zeros((items, n)), atol=1e-5)
    ctx.close('variances are reproduced', np.diag(implied) / size, np.ones(items), atol=1e-5)
    inner = loadings.T @ (loadings / unique[:, None])
    ctx.close('canonical loadings', inner - np.diag(np.diag(inner)), np.zeros((n, n)), atol=1e-5 * (1 + np.abs(inner).max()))
    # the loadings are the best for these unique variances
    root = np.sqrt(unique)
    eigen, vectors = np.linalg.eigh(matrix / np.outer(root, root))
    best = vectors[:, -n:] * np.sqrt(np.maximum(eigen[-n:] - 1, 0)) * root[:, None]
    ctx.close('best loadings for the unique variances', loadings @ loadings.T, best @ best.T, atol=1e-5)
    common = case['loadings'] @ case['loadings'].T
    truth = size - np.diag(common)
    if not case['noise']:
        ctx.feature('exact structure')
        ctx.close('unique variances recovered', unique / size, truth / size, atol=1e-4)
        ctx.close('common part recovered', loadings @ loadings.T, common, atol=1e-3)
    elif np.all(truth > 0):
        ctx.atmost('discrepancy over that of the true structure', discrepancy(matrix, loadings @ loadings.T, unique),
                   discrepancy(matrix, common, truth), 1e-6)
    def agrees(label, found, bound=None):
        bound = size if bound is None else bound
        if np.min(found / bound) < 1e-3:
            ctx.feature('an improper solution elsewhere')  # another optimum of the likelihood
            return False
        ctx.close(label, found / bound, unique / size if bound is size else (unique / size)[order], atol=1e-3)
        return True
    # the unit of measurement does not matter to this method
    d, order = case['scale'], case['order']
    agrees('other units, unique variances', run(matrix * np.outer(d, d))[2] / d**2)
    agrees('items rearranged, unique variances', run(matrix[np.ix_(order, order)])[2], size[order])
    start = case['start'].copy()
    begun = run(initial_guess=start)
    ctx.equal('initial guess unchanged', start, case['start'])
    agrees('another start, unique variances', begun[2])
    # a start in whole numbers is one like others: in units where the variances are some hundreds
    whole = np.diag(matrix).min()
    count = np.maximum(np.round(300 * start / whole), 1)
    agrees('a start of integers, unique variances',
           run(matrix * 300 / whole, initial_guess=count.astype('int64'))[2] * whole / 300)
    # whatever the size of the variances
    unit = case.get('unit', 1.0)
    sized = ctx.call(maximum_likelihood_factor_analysis, matrix * unit, n, tolerance=1e-10 * unit, max_iter=20000)
    if agrees(f'unit {unit}, unique variances', sized[2] / unit):
        ctx.close(f'unit {unit}, common part', (sized[0] @ sized[0].T) / unit, loadings @ loadings.T, atol=1e-3 * size.max())
    # the default settings are near
    rough = ctx.call(maximum_likelihood_factor_analysis, matrix, n)
    ctx.atmost('discrepancy at the default settings', discrepancy(matrix, rough[0] @ rough[0].T, rough[2]),
               discrepancy(matrix, loadings @ loadings.T, unique), .05)
    ctx.feature(case['kind'], f'{n} factors')
    ctx.nontrivial()


PROP = Property(
    'C36', 'Correlation and covariance matrices of 1-3 well marked factors on 4-13 items and of up to six on 20-45, exact and sampled from 200-800 '
           'observations. Non-trivial: every case.',
    [Sub('maximum_likelihood', fa.problems(), check, quick=60, thorough=100),
     Sub('large', fa.problems(large=True), check, quick=2, thorough=100)],
    ['proper solutions (no unique variance at zero)'])
