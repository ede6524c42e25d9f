"""C26: polychoric correlations."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtri, ndtr

from harness import gen, ref
from harness.core import Property, Skip, Sub
from girth.common import polychoric_correlation, polychoric_correlation_serial

MISSING = ref.MISSING
NODES, WEIGHTS = np.polynomial.legendre.leggauss(48)


def bivariate_cdf(h, k, rho):
    """P(X <= h, Y <= k) by Plackett's integral over the correlation."""
    angle = np.arcsin(rho)
    t = np.sin((NODES + 1) / 2 * angle)
    c2 = 1 - t**2
    h, k = np.asarray(h)[..., None], np.asarray(k)[..., None]
    kernel = np.exp(-(h * h - 2 * h * k * t + k * k) / (2 * c2))
    return ndtr(h[..., 0]) * ndtr(k[..., 0]) + angle / 2 * (kernel @ WEIGHTS) / (2 * np.pi)


def table_of(x, y):
    seen = (x != MISSING) & (y != MISSING)
    x, y = x[seen], y[seen]
    return np.array([[np.count_nonzero((x == u) & (y == v)) for v in np.unique(y)] for u in np.unique(x)], float)


def loglik(table, rho):
    n = table.sum()
    rows = np.r_[-12.0, ndtri(table.sum(axis=1).cumsum()[:-1] / n), 12.0]
    columns = np.r_[-12.0, ndtri(table.sum(axis=0).cumsum()[:-1] / n), 12.0]
    cdf = bivariate_cdf(rows[:, None] + np.zeros(columns.size), columns[None] + np.zeros((rows.size, 1)), rho)
    cdf[0], cdf[:, 0] = 0.0, 0.0
    cell = np.diff(np.diff(cdf, axis=0), axis=1)
    return float((table * np.log(np.maximum(cell, 1e-46))).sum())


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(2, 4)), draw(st.integers(30, 150))
    k = draw(st.integers(2, 5))
    base = rng.standard_normal(persons)
    strength = draw(st.sampled_from([0.0, .5, 1.0, 2.0, 3.0, 5.0]))
    rare = k > 2 and draw(st.integers(0, 4)) == 0
    if rare:
        items, persons = 2, draw(st.integers(1200, 4000))
        base, strength = rng.standard_normal(persons), min(strength, 2.0)
    outliers = not rare and k > 2 and draw(st.integers(0, 2)) == 0
    if outliers:
        persons = draw(st.integers(200, 500))
        base, strength = rng.standard_normal(persons), draw(st.sampled_from([3.0, 5.0]))
    data = []
    for _ in range(items):
        latent = strength * rng.choice([-1, 1]) * base + rng.standard_normal(persons)
        latent /= np.sqrt(1 + strength**2)
        cuts = gen.thresholds(rng, k - 1, 1.0, .3)
        if rare:
            # a category at an end that one in some hundreds or thousands chooses
            end = np.sort(latent)
            cuts[0] = end[rng.integers(1, 6)]
            cuts[-1] = max(end[-rng.integers(1, 6)], cuts[-1]) if rng.integers(2) else cuts[-1]
            cuts = np.sort(cuts)
        data.append(np.digitize(latent, cuts))
    data = np.array(data)
    if outliers:
        # a few answers that contradict the others
        for _ in range(draw(st.integers(1, 3))):
            data[:, rng.integers(0, persons)] = rng.choice([0, k - 1], items)
    data = gen.add_missing(rng, data, draw(st.sampled_from([0, 0, .15])))
    start = draw(st.sampled_from([1, 1, 0, -2, 3]))
    return {'data': np.where(data == MISSING, data, data + start), 'start': start, 'k': k,
            'wide': draw(st.integers(0, 2)), 'dtype': draw(st.sampled_from(['int64', 'int32', 'float64']))}


def check(case, ctx):
    data, start, k = case['data'].astype(case['dtype']), case['start'], case['k']
    stop = start + k - 1 + (2 if case['wide'] == 1 else 0)
    items = data.shape[0]
    tables = {}
    for i in range(items):
        for j in range(i):
            tables[i, j] = table_of(data[i], data[j])
            if min(tables[i, j].shape) < 2:
                raise Skip
    if (start, stop) == (1, 5) and case['wide'] == 0:
        got = ctx.call(polychoric_correlation_serial, data.copy())
    else:
        got = ctx.call(polychoric_correlation_serial, data.copy(), start, stop)
    ctx.shape('correlations', got, (items, items))
    ctx.equal('diagonal', np.diag(got), np.ones(items))
    ctx.equal('symmetry', got, got.T)
    ctx.ok(np.abs(got).max() <= 1.0, f'correlation beyond one: {got}')
    interior = np.zeros((items, items), bool)
    for (i, j), table in tables.items():
        rho = got[i, j]
        here = loglik(table, rho)
        grid = np.linspace(-.999, .999, 81)
        values = np.array([loglik(table, r) for r in grid])
        peaks = int((np.diff(np.sign(np.diff(values))) < 0).sum()) + int(values[0] > values[1]) + int(values[-1] > values[-2])
        at = int(values.argmax())
        fine = np.linspace(grid[max(at - 1, 0)], grid[min(at + 1, 80)], 61)
        fine_values = np.array([loglik(table, r) for r in fine])
        # beyond, cells vanish and the likelihood is flat up to rounding: where it is highest is chance
        interior[i, j] = interior[j, i] = abs(fine[fine_values.argmax()]) < .95 and abs(rho) < .98
        if peaks <= 1:
            best = fine_values.max()
            # close to a perfect correlation the cells vanish and the likelihood is a matter of rounding
            if abs(fine[fine_values.argmax()]) < .98:
                ctx.atmost('log likelihood gained by another correlation', best - here, 0.0, 1e-4)
                ctx.feature('interior')
            else:
                ctx.ok(np.sign(rho) == np.sign(fine[fine_values.argmax()]) and abs(rho) > .95,
                       f'correlation {rho}, the likelihood rises to {fine[fine_values.argmax()]}')
                ctx.feature('near one')
    # reversing an item reverses its correlations
    flipped = data.copy()
    flipped[0] = np.where(data[0] == MISSING, MISSING, 2 * start + k - 1 - data[0])
    other = ctx.call(polychoric_correlation_serial, flipped, start, stop)
    judged = interior[0, 1:]
    ctx.close('reversed item', other[0, 1:][judged], -got[0, 1:][judged], atol=1e-3)
    ctx.close('the others', other[1:, 1:], got[1:, 1:], atol=1e-12)
    order = np.arange(items)[::-1]
    swapped = ctx.call(polychoric_correlation_serial, data[order], start, stop)
    off = interior
    ctx.close('permuted items', np.where(off, swapped[order][:, order], 0), np.where(off, got, 0), atol=1e-3)
    # pairwise deletion
    pair = (data[0] != MISSING) & (data[1] != MISSING)
    alone = ctx.call(polychoric_correlation_serial, data[:2, pair], start, stop)
    ctx.close('the pair by itself', alone[0, 1], got[0, 1], atol=1e-9)
    if (data == MISSING).any():
        ctx.feature('missing')
    if data.shape[1] > 1000:
        ctx.feature('rare categories')
    ctx.feature(f'{k} categories', f'first code {start}')
    ctx.nontrivial(np.abs(got[0, 1]) > .05)


def check_parallel(case, ctx):
    data, start, k = case['data'].astype(case['dtype']), case['start'], case['k']
    stop = start + k - 1
    want = polychoric_correlation_serial(data, start, stop)
    for count in (1, case['workers']):
        got = ctx.call(polychoric_correlation, data.copy(), start, stop, count)
        ctx.close(f'{count} processes', got, want, atol=1e-12)
    if case['default']:
        ctx.close('default processes', ctx.call(polychoric_correlation, data.copy(), start, stop), want, atol=1e-12)
    ctx.feature(f"{case['workers']} processes")
    ctx.nontrivial()


@st.composite
def parallel(draw):
    case = draw(cases())
    case['workers'] = draw(st.sampled_from([2, 3, 5]))
    case['default'] = draw(st.booleans())
    return case


@st.composite
def large(draw):
    rng = gen.draw_rng(draw)
    items, persons, k = draw(st.sampled_from([130, 135, 142])), draw(st.integers(24, 40)), draw(st.sampled_from([2, 3]))
    latent = rng.standard_normal(persons) * rng.uniform(-2, 2, items)[:, None] + rng.standard_normal((items, persons))
    data = np.array([np.digitize(row, np.quantile(row, np.arange(1, k) / k)) for row in latent]) + 1
    return {'data': data, 'k': k, 'workers': draw(st.sampled_from([2, 3, 4])), 'pairs': rng.integers(0, items, (40, 2))}


def check_large(case, ctx):
    data, k = case['data'], case['k']
    items = data.shape[0]
    got = ctx.call(polychoric_correlation, data.copy(), 1, k, case['workers'])
    ctx.shape('correlations', got, (items, items))
    ctx.equal('diagonal', np.diag(got), np.ones(items))
    ctx.equal('symmetry', got, got.T)
    for i, j in case['pairs']:
        i, j = min(i, j, items - 1), min(max(i, j), items - 1)
        if i != j:
            want = polychoric_correlation_serial(data[[i, j]], 1, k)[0, 1]
            ctx.close(f'items {i} and {j} of {items}', got[i, j], want, atol=1e-9)
    ctx.feature(f"{items} items, {case['workers']} processes")
    ctx.nontrivial()


PROP = Property(
    'C26', 'Simulated ordinal items (2-4 items, 30-500 respondents, 2-5 categories, any first code) with missing entries, and of 130-142 items, '
           'correlations of any size and sign, judged against the bivariate normal likelihood integrated apart. '
           'Non-trivial: a correlation beyond 0.05.',
    [Sub('correlation', cases(), check, quick=24, thorough=60, axes={'data': ('item', 'person')}, minimum={'item': 2}),
     Sub('processes', parallel(), check_parallel, quick=3, thorough=20),
     Sub('large', large(), check_large, quick=1, thorough=6, axes={'data': ('item', 'person')}, minimum={'item': 3, 'person': 20}, shards=2)],
    ['each pair of items shows at least two categories of both',
     'beyond 0.98 only the direction is judged'])
