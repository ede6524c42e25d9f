"""C29: classical test theory statistics and Cronbach's alpha."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Skip, Sub
from harness.props.c28 import objective
from girth.common import cronbach_alpha
import girth

MISSING = ref.MISSING


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(2, 9)), draw(st.integers(6, 80))
    if draw(st.integers(0, 9)) == 0:
        items, persons = items + draw(st.sampled_from([0, 20])), persons + draw(st.sampled_from([130, 300, 1000]))
    k = draw(st.integers(2, 6))
    start = draw(st.sampled_from([1, 1, 0, -3, 9, 60, 100]))
    strength = draw(st.sampled_from([0.0, .7, 1.5, 3.0]))
    theta = rng.standard_normal(persons)
    data = []
    for _ in range(items):
        sign = 1 if rng.uniform() < .85 else -1
        latent = strength * sign * theta + rng.standard_normal(persons)
        data.append(np.digitize(latent / np.sqrt(1 + strength**2), gen.thresholds(rng, k - 1, 1.0, .3)) + start)
    data = gen.add_missing(rng, np.array(data), draw(st.sampled_from([0, 0, .1, .35])))
    if draw(st.integers(0, 3)) == 0:
        data[:, rng.uniform(size=persons) < .1] = MISSING
    types = ['int64', 'int64', 'int32', 'float64']
    if not (data == MISSING).any():
        types += ['int8', 'int8', 'int16'] + ['uint8'] * (start >= 0)
    return {'data': data, 'start': start, 'k': k, 'order': rng.permutation(persons), 'items': rng.permutation(items),
            'shift': rng.integers(-4, 5, items), 'dtype': draw(st.sampled_from(types))}


def alpha(data):
    """Definition; a person's total is n times the mean of the responses."""
    rows = [[v for v in column if v != MISSING] for column in data.T.tolist()]
    n = data.shape[0]
    totals = [n * sum(r) / len(r) for r in rows if r]
    items = [np.var([v for v in row if v != MISSING], ddof=1) for row in data.tolist()]
    return n / (n - 1) * (1 - sum(items) / np.var(totals, ddof=1))


def usable(data):
    for row in data:
        row = row[row != MISSING]
        if row.size < 3 or np.ptp(row) == 0:
            return False
    n = data.shape[0]
    totals = [np.mean(c[c != MISSING]) for c in data.T if (c != MISSING).any()]
    return len(totals) > 2 and np.var(totals) * n * n > .02


def check_alpha(case, ctx):
    data = case['data'].astype(case['dtype'])
    if not usable(data):
        raise Skip
    before = data.copy()
    got = float(ctx.call(cronbach_alpha, data))
    ctx.equal('input unchanged', data, before)
    ctx.close('alpha', got, alpha(data), atol=1e-9, rtol=1e-9)
    ctx.feature(str(data.dtype))
    complete = not (data == MISSING).any()
    if complete:
        data = data.astype('float64') if data.dtype.kind == 'f' else data.astype('int64')
        total = data.sum(axis=0)
        n = data.shape[0]
        classic = n / (n - 1) * (1 - data.var(axis=1, ddof=1).sum() / total.var(ddof=1))
        ctx.close('alpha of complete data', got, classic, atol=1e-9, rtol=1e-9)
        ctx.ok(got <= 1 + 1e-9, f'alpha {got}')
        ctx.close('alpha, items shifted', float(ctx.call(cronbach_alpha, data + case['shift'][:data.shape[0], None])), got,
                  atol=1e-8, rtol=1e-8)
        ctx.close('alpha, all items reversed', float(ctx.call(cronbach_alpha, 3 - data)), got, atol=1e-8, rtol=1e-8)
        if set(np.unique(data)) <= {0, 1}:
            ctx.feature('True/False')
            ctx.close('alpha of True/False', float(ctx.call(cronbach_alpha, data.astype(bool))), got, atol=1e-9)
    else:
        ctx.feature('missing')
        if (data == MISSING).all(axis=0).any():
            ctx.feature('a person without responses')
            kept = data[:, (data != MISSING).any(axis=0)]
            ctx.close('alpha without the persons who did not respond', float(ctx.call(cronbach_alpha, kept)), got, atol=1e-9)
    moved = data[case['items'][case['items'] < data.shape[0]]][:, case['order'][case['order'] < data.shape[1]]]
    ctx.close('alpha, rearranged', float(ctx.call(cronbach_alpha, moved)), got, atol=1e-8, rtol=1e-8)
    ctx.nontrivial(len(np.unique(data)) > 2)


def check_ctt(case, ctx):
    data = case['data'].astype(case['dtype'])
    n = data.shape[0]
    if n < 3 or not usable(data):
        raise Skip
    pairs = []
    for item in range(n):
        rest = np.delete(data, item, axis=0)
        if not usable(rest):
            raise Skip
        both = (data[item] != MISSING) & (rest != MISSING).any(axis=0)
        score = np.array([np.mean(c[c != MISSING]) for c in rest.T[both]])
        own = data[item][both]
        if own.size < 6 or np.ptp(own) == 0 or np.var(score) < 1e-3:
            raise Skip
        pairs.append((score, own))
    before = data.copy()
    if case['start'] == 1 and case['k'] == 5:
        out = ctx.call(girth.classical_test_statistics, data)
    else:
        out = ctx.call(girth.classical_test_statistics, data, case['start'], case['start'] + case['k'] - 1)
    ctx.equal('input unchanged', data, before)
    responses = [row[row != MISSING] for row in data]
    ctx.equal('number of responses', out['Item Counts'], [r.size for r in responses])
    ctx.close('mean', out['Mean'], [r.mean() for r in responses], atol=1e-9)
    ctx.close('standard deviation', out['Std'], [r.std(ddof=1) for r in responses], atol=1e-9)
    ctx.close('alpha without the item', out['Cronbach Alpha'], [alpha(np.delete(data, i, axis=0)) for i in range(n)],
              atol=1e-8, rtol=1e-8)
    ctx.close('correlation with the rest', out['Item-Score Correlation'],
              [np.corrcoef(score, own)[0, 1] for score, own in pairs], atol=1e-8)
    poly = ctx.shape('polyserial correlation', out['Polyserial Correlation'], (n,))
    for item, (score, own) in enumerate(pairs):
        func = objective(score, own)
        best, _ = ref.zoom_minimum(func, -.99, .99)
        grid = func(np.linspace(-.99, .99, 201))
        peaks = int((np.diff(np.sign(np.diff(grid))) > 0).sum()) + int(grid[0] < grid[1]) + int(grid[-1] < grid[-2])
        if peaks == 1 and abs(best) < .95:
            ctx.feature('polyserial compared')
            ctx.close('polyserial correlation', poly[item], best, atol=2e-4)
    if (data == MISSING).any():
        ctx.feature('missing')
    if (data == MISSING).all(axis=0).any():
        ctx.feature('a person without responses')
    ctx.nontrivial()


AXES = {'data': ('item', 'person')}
PROP = Property(
    'C29', 'Simulated ordinal responses (2-29 items, 6-1080 respondents, 2-6 categories from any start), with reversed items, '
           'missing responses and persons who did not respond. Non-trivial: a statistic of more than two values.',
    [Sub('alpha', cases(), check_alpha, quick=150, thorough=100, axes=AXES, minimum={'item': 2, 'person': 3}),
     Sub('statistics', cases(), check_ctt, quick=60, thorough=100, axes=AXES, minimum={'item': 3, 'person': 6})],
    ['every item and every rest score varies', 'person totals vary by more than rounding'])
