"""C34: principal components."""
import numpy as np
from hypothesis import strategies as st

from harness import fa, gen
from harness.core import Property, Sub
from girth.factoranalysis import principal_components_analysis


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 60)))
    kind = draw(st.sampled_from(['covariance', 'correlation', 'singular', 'diagonal', 'duplicated', 'integer', 'indefinite']))
    rows = items + 3 if kind not in ('singular',) else max(items // 2, 1)
    x = rng.normal(size=(rows, items)) @ rng.normal(size=(items, items))
    if kind == 'duplicated' and items > 1:
        x[:, -1] = x[:, 0]
    matrix = x.T @ x / rows
    if kind in ('correlation', 'duplicated'):
        scale = np.sqrt(np.diag(matrix))
        matrix = matrix / np.outer(scale, scale)
    if kind == 'diagonal':
        matrix = np.diag(np.diag(matrix))
    if kind == 'integer':
        x = rng.integers(-3, 4, (rows, items))
        matrix = x.T @ x
    if kind == 'indefinite':
        # pairwise deletion and polychoric correlations need not be definite
        q = np.linalg.qr(rng.normal(size=(items, items)))[0]
        matrix = q @ np.diag(np.r_[rng.uniform(.5, 2, 1), rng.uniform(-.45, 1.5, items - 1)]) @ q.T
    return {'matrix': (matrix + matrix.T) // 2 if kind == 'integer' else (matrix + matrix.T) / 2, 'kind': kind,
            'n': draw(st.one_of(st.none(), st.integers(1, items))), 'scale': draw(st.sampled_from([.01, 7.0, 300.0, 1e-8, 1e6]))}


def check(case, ctx):
    matrix, items = case['matrix'], case['matrix'].shape[0]
    n = items if case['n'] is None else case['n']
    before = matrix.copy()
    out = ctx.call(principal_components_analysis, matrix) if case['n'] is None else ctx.call(
        principal_components_analysis, matrix, n)
    ctx.equal('input unchanged', matrix, before)
    loadings, values, unique = out
    want, _ = fa.top(matrix, n)
    size = max(np.abs(np.linalg.eigvalsh(matrix)).sum(), 1e-12)
    ctx.shape('loadings', loadings, (items, n))
    ctx.close('eigenvalues', values / size, want / size, atol=1e-9)
    ctx.equal('unique variance', unique, np.zeros(items))
    kept = np.maximum(want, 0)
    ctx.close('inner products of the loadings', loadings.T @ loadings / size, np.diag(kept) / size, atol=1e-8)
    ctx.close('eigenvector equation', (matrix @ loadings - loadings * kept) / size**1.5, np.zeros((items, n)), atol=1e-8)
    rest = np.sort(np.linalg.eigvalsh(matrix))[::-1][n:]
    residual = matrix - loadings @ loadings.T
    if case['kind'] != 'indefinite':
        ctx.close('what is left', np.square(residual).sum() / size**2, np.square(rest).sum() / size**2, atol=1e-8)
    if n == items and case['kind'] != 'indefinite':
        ctx.close('the matrix itself', loadings @ loadings.T / size, matrix / size, atol=1e-8)
    again = ctx.call(principal_components_analysis, matrix * case['scale'], n)
    ctx.close('eigenvalues, another unit', again[1] / size, want * case['scale'] / size, atol=1e-8 * case['scale'])
    if case['kind'] != 'indefinite':
        ctx.close('loadings, another unit', again[0] @ again[0].T / (size * case['scale']), loadings @ loadings.T / size,
                  atol=1e-7 if n == items or want[-1] - rest[-1] > .01 * size else np.inf)
    ctx.feature(case['kind'], 'all factors' if n == items else 'some factors')
    ctx.nontrivial(items > 2)


PROP = Property(
    'C34', 'Random covariance and correlation matrices of 1-60 items: full rank, singular, diagonal, with duplicated items, '
           'integers, indefinite ones; some and all factors. Non-trivial: more than two items.',
    [Sub('components', cases(), check, quick=250, thorough=100)],
    ['components of negative eigenvalues, of indefinite matrices, have zero loadings and only their eigenvalues are judged'])
