"""C33: entropy and sparse rotation of loadings."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from harness import gen
from harness.core import Property, Sub
from girth.common import entropy
from girth.factoranalysis import sparsify_loadings


def row_entropy(matrix):
    total = 0.0
    for row in np.asarray(matrix, float):
        if not np.any(row):
            continue
        p = row**2 / np.sum(row**2)
        total -= sum(v * np.log(v) for v in p if v > 1e-300)
    return total


@st.composite
def entropies(draw):
    rng = gen.draw_rng(draw)
    rows, columns = draw(st.integers(1, 10)), draw(st.integers(1, 6))
    x = rng.normal(size=(rows, columns)) * draw(st.sampled_from([.01, 1.0, 100.0]))
    x[rng.uniform(size=x.shape) < draw(st.sampled_from([0, .3]))] = 0.0
    for k in range(rows):
        x[k, rng.integers(columns)] = rng.choice([-1.0, .5])
    for k in range(columns):
        x[rng.integers(rows), k] = rng.choice([-2.0, .5])
    empty = draw(st.sampled_from([None, None, 'row', 'column']))
    if empty == 'row':
        x[rng.integers(rows)] = 0.0
    if empty == 'column':
        x[:, rng.integers(columns)] = 0.0
    return {'x': x, 'scale': rng.uniform(.1, 9, max(rows, columns)), 'signs': rng.choice([-1.0, 1.0], size=x.shape)}


def check_entropy(case, ctx):
    x = case['x']
    before = x.copy()
    got = float(ctx.call(entropy, x))
    ctx.equal('input unchanged', x, before)
    ctx.close('entropy of the rows', got, row_entropy(x), atol=1e-9)
    ctx.close('entropy of the rows, named axis', float(ctx.call(entropy, x, axis=1)), row_entropy(x), atol=1e-9)
    ctx.close('entropy of the columns', float(ctx.call(entropy, x, axis=0)), row_entropy(x.T), atol=1e-9)
    ctx.close('entropy of one row', float(ctx.call(entropy, x[0], axis=0)), row_entropy(x[:1]), atol=1e-9)
    if not (np.any(x, axis=0).all() and np.any(x, axis=1).all()):
        ctx.feature('a row or column of zeros')
    ctx.ok(-1e-9 <= got <= x.shape[0] * np.log(x.shape[1]) + 1e-9, f'entropy {got} out of range')
    scaled = x * case['scale'][:x.shape[0], None] * case['signs']
    ctx.close('entropy of scaled rows and flipped signs', float(ctx.call(entropy, scaled)), got, atol=1e-9)
    whole = np.where(np.round(x) == 0, 0, np.round(x))
    if np.abs(whole).max() > 0:
        for kind in ('int64', 'float32', 'int16'):
            if np.abs(whole).max() < 30000:
                for axis in (0, 1):
                    ctx.close(f'entropy of {kind}', float(ctx.call(entropy, whole.astype(kind), axis=axis)),
                              row_entropy(whole if axis else whole.T), atol=1e-4 if kind == 'float32' else 1e-9)
        ctx.feature('whole numbers')
    ctx.nontrivial(min(x.shape) > 1)


# ------------------------------------------------------------------ rotation
def basis_matrix(angles, n):
    out = []
    for row in np.asarray(angles).reshape(n, -1):
        v = np.ones(n)
        v[1:] = np.cumprod(np.sin(row))
        v[:-1] *= np.cos(row)
        out.append(v)
    return np.array(out)


def objective(bases, loadings, alpha):
    rotated = loadings @ np.linalg.inv(bases)
    p = rotated**2
    power = p.sum(axis=1, keepdims=True)
    p = p / np.where(power == 0, 1, power)
    return -(p * np.log(p + 1e-23)).sum() + alpha * np.linalg.cond(bases)


def simple(rng, items, n, orthogonal, spread=.45):
    """Loadings on one factor each, and well separated factors."""
    loadings = np.zeros((items, n))
    loadings[np.arange(items), np.arange(items) % n] = rng.uniform(.4, .9, items) * rng.choice([-1, 1], items)
    bases = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if not orthogonal:
        bases = bases + rng.uniform(-spread, spread, (n, n)) / n
        bases /= np.linalg.norm(bases, axis=1, keepdims=True)
    return loadings, bases


@st.composite
def loadings_cases(draw):
    rng = gen.draw_rng(draw)
    n = draw(st.sampled_from([2, 2, 3, 3, 4]))
    items = draw(st.integers(n + 2, 9))
    kind = draw(st.sampled_from(['any', 'simple', 'near simple']))
    orthogonal = draw(st.integers(0, 3)) == 0
    if kind == 'any':
        loadings = rng.normal(size=(items, n)) * .5
    else:
        clean, bases = simple(rng, items, n, orthogonal)
        loadings = clean @ bases + (kind == 'near simple') * rng.normal(size=(items, n)) * .03
    if draw(st.integers(0, 5)) == 0:
        loadings[rng.integers(items)] = 0.0
    return {'loadings': loadings, 'alpha': draw(st.sampled_from([None, .25, .5, 1.0, 2.0])), 'orthogonal': orthogonal,
            'seed': draw(st.sampled_from([0, 1, int(rng.integers(2**31)), int(rng.integers(2**31))])), 'kind': kind,
            'start': rng.uniform(0, 2 * np.pi, n * (n - 1)) if draw(st.booleans()) else None}


def check_sparse(case, ctx):
    loadings, n = case['loadings'], case['loadings'].shape[1]
    if not np.any(loadings, axis=1).all():
        ctx.feature('an item without any loading')
    kwargs = {'seed': case['seed']}
    if case['start'] is not None:
        kwargs['initial_guess'] = case['start'].copy()
    if case['alpha'] is not None:
        kwargs['alpha'] = case['alpha']
    if case['orthogonal']:
        kwargs['orthogonal'] = True
    before = loadings.copy()
    rotated, bases = ctx.call(sparsify_loadings, loadings, **kwargs)
    ctx.equal('input unchanged', loadings, before)
    if case['start'] is not None:
        ctx.equal('initial guess unchanged', kwargs['initial_guess'], case['start'])
    ctx.shape('rotated loadings', rotated, loadings.shape)
    ctx.shape('bases', bases, (n, n))
    ctx.close('length of the bases', np.linalg.norm(bases, axis=1), np.ones(n), atol=1e-9)
    ctx.close('rotated loadings times bases', rotated @ bases, loadings, atol=1e-7)
    alpha = 50.0 if case['orthogonal'] else (.5 if case['alpha'] is None else case['alpha'])
    if case['orthogonal']:
        ctx.close('inner products of the bases', bases @ bases.T, np.eye(n), atol=.02)
    value = objective(bases, loadings, alpha)
    if case['start'] is not None:
        ctx.atmost('objective over that of the initial guess', value,
                   objective(basis_matrix(case['start'], n), loadings, alpha), 1e-6)
    # no better solution nearby, by a different method
    angles = np.array([from_vector(row) for row in bases]).ravel()
    near = minimize(lambda x: objective(basis_matrix(x, n), loadings, alpha), angles, method='Nelder-Mead',
                    options={'maxiter': 400}).fun
    ctx.atmost('objective over a local optimum', value, near, .3 if case['orthogonal'] else .1)
    again = ctx.call(sparsify_loadings, loadings, **kwargs)
    ctx.equal('loadings of the same seed', again[0], rotated)
    ctx.equal('bases of the same seed', again[1], bases)
    ctx.feature('orthogonal' if case['orthogonal'] else 'oblique', case['kind'], f'{n} factors', *(['seed zero'] * (case['seed'] == 0)),
                'start given' if case['start'] is not None else 'start drawn')
    ctx.nontrivial()


def from_vector(vector):
    angles = []
    for k in range(vector.size - 1):
        tail = np.linalg.norm(vector[k + 1:])
        angles.append(np.arctan2(tail if k < vector.size - 2 else vector[-1], vector[k]))
    return np.array(angles)


# ------------------------------------------------------------------ recovery
@st.composite
def batches(draw):
    rng = gen.draw_rng(draw)
    return {'seed': int(rng.integers(2**31)), 'n': draw(st.sampled_from([2, 3])), 'orthogonal': draw(st.booleans()),
            'items': draw(st.integers(8, 12))}


def check_recovery(case, ctx):
    rng = np.random.default_rng(case['seed'])
    n, found = case['n'], 0
    for trial in range(6):
        clean, bases = simple(rng, case['items'], n, case['orthogonal'], .3)
        rotated, _ = ctx.call(sparsify_loadings, clean @ bases, alpha=.25, orthogonal=case['orthogonal'],
                              seed=int(rng.integers(2**31)))
        # one factor per item, up to order and sign
        share = np.sort(rotated**2, axis=1)[:, -1] / np.square(rotated).sum(axis=1)
        found += bool(np.all(share > .98))
    ctx.note('share of problems not recovered', (6 - found) / 6)
    ctx.ok(found >= 2, f'simple structure found in {found} of 6 problems')
    ctx.feature('orthogonal' if case['orthogonal'] else 'oblique', f'{n} factors')
    ctx.nontrivial()


PROP = Property(
    'C33', 'Random arrays with zeros, whole rows and columns of zeros for the entropy; loadings of 2-3 factors (any, simple and nearly simple structures), '
           'given and drawn starting points, seeds, alphas, oblique and orthogonal; batches of six simple structures. '
           'Non-trivial: more than one row and column; every rotation.',
    [Sub('entropy', entropies(), check_entropy, quick=150, thorough=100),
     Sub('sparse', loadings_cases(), check_sparse, quick=7, thorough=80),
     Sub('recovery', batches(), check_recovery, quick=2, thorough=60)],
    ['two or more factors', 'the entropy of zeros is zero'])
