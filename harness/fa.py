"""Factor analysis problems shared by C34-C37."""
import numpy as np
from hypothesis import strategies as st

from harness import gen


def structure(rng, items, n):
    """Loadings with every factor well marked and communalities below .8."""
    loadings = rng.uniform(-.3, .3, (items, n))
    loadings[np.arange(items), np.arange(items) % n] = rng.uniform(.5, .8, items) * rng.choice([-1, 1], items)
    community = np.square(loadings).sum(axis=1)
    return loadings * np.sqrt(np.minimum(1, .8 / community))[:, None]


@st.composite
def problems(draw, covariance=True, noises=(0, 0, 200, 800), large=False):
    rng = gen.draw_rng(draw)
    n = draw(st.integers(1, 6 if large else 3))
    items = draw(st.integers(20, 45)) if large else draw(st.integers(2 * n + 2, 2 * n + 7))
    loadings = structure(rng, items, n)
    matrix = loadings @ loadings.T
    np.fill_diagonal(matrix, 1.0)
    noise = draw(st.sampled_from(noises))
    if noise:
        matrix = np.cov(rng.multivariate_normal(np.zeros(items), matrix, size=noise).T)
        scale = np.sqrt(np.diag(matrix))
        matrix = matrix / np.outer(scale, scale)
        np.fill_diagonal(matrix, 1.0)
    kind = draw(st.sampled_from(['correlation', 'covariance'])) if covariance else 'correlation'
    if kind == 'covariance':
        scale = rng.uniform(.5, 2, items) * draw(st.sampled_from([1.0, 1.0, .03, 20.0]))
        matrix, loadings = matrix * np.outer(scale, scale), loadings * scale[:, None]
    matrix = (matrix + matrix.T) / 2
    return {'matrix': matrix, 'loadings': loadings, 'n': n, 'noise': noise, 'kind': kind, 'order': rng.permutation(items),
            'scale': rng.uniform(.6, 1.6, items), 'start': rng.uniform(.2, .8, items) * np.diag(matrix),
            'unit': float(draw(st.sampled_from([1e-4, 1e-8, 1e-2, 1e4])))}


def top(matrix, n):
    """Eigenvalues (descending) and loadings of the largest n."""
    values, vectors = np.linalg.eigh(matrix)
    values, vectors = values[::-1][:n], vectors[:, ::-1][:, :n]
    return values, vectors * np.sqrt(np.maximum(values, 0))


def gap(matrix, n):
    """Distance between the last kept and the first dropped eigenvalue."""
    values = np.linalg.eigvalsh(matrix)[::-1]
    return values[n - 1] - values[n] if n < values.size else values[n - 1]
