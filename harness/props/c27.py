"""C27: contingency tables."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub
from girth.common import contingency_table, validate_contingency_table

MISSING = ref.MISSING


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    n = draw(st.integers(0, 60))
    if draw(st.integers(0, 9)) == 0:
        n = n * 10 + draw(st.sampled_from([200, 300, 66000]))
    start = draw(st.sampled_from([1, 1, 0, -3, -1, 4, 100]))
    stop = start + draw(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(7, 20)))
    low, high = start - draw(st.integers(0, 1)), stop + draw(st.integers(0, 1))
    x, y = rng.integers(low, high + 1, (2, n))
    if n and draw(st.booleans()):
        x[rng.uniform(size=n) < .2] = MISSING
        y[rng.uniform(size=n) < .2] = MISSING
    if n and draw(st.integers(0, 2)) == 0:
        y[:] = np.where(y == stop, start, y)
    dtype = draw(st.sampled_from(['int64', 'int64', 'float64', 'int32']))
    if n and min(x.min(), y.min()) > MISSING and draw(st.booleans()):
        dtype = draw(st.sampled_from(['int8', 'int16']))
    if n and set(np.unique(np.r_[x, y])) <= {0, 1}:
        dtype = draw(st.sampled_from(['bool', 'uint8']))
    x, y = x.astype(dtype), y.astype(dtype)
    if n and dtype == 'float64' and draw(st.booleans()):
        # a mean put in for a missing answer belongs to no category
        for vector in (x, y):
            vector[rng.uniform(size=n) < .2] += rng.choice([.5, -.25, .9])
    return {'x': x, 'y': y, 'start': start, 'stop': stop}


def check(case, ctx):
    x, y, start, stop = case['x'], case['y'], case['start'], case['stop']
    if (start, stop) == (1, 5):
        got = ctx.call(contingency_table, x, y)
    else:
        got = ctx.call(contingency_table, x, y, start, stop)
    size = stop - start + 1
    want = np.zeros((size, size))
    for u, v in zip(x.tolist(), y.tolist()):
        if start <= u <= stop and start <= v <= stop and u == int(u) and v == int(v):
            want[int(u) - start, int(v) - start] += 1
    ctx.equal('counts', got, want)
    before = want.copy()
    short = ctx.call(validate_contingency_table, want)
    ctx.equal('input unchanged', want, before)
    rows = [i for i in range(size) if want[i].any()]
    columns = [j for j in range(size) if want[:, j].any()]
    ctx.equal('empty rows and columns removed', short, want[np.ix_(rows, columns)])
    ctx.equal('transposed', ctx.call(contingency_table, y, x, start, stop), want.T)
    ctx.feature(str(x.dtype), f'first code {start}')
    if len(rows) < size or len(columns) < size:
        ctx.feature('empty margins')
    ctx.nontrivial(want.any())


@st.composite
def tables(draw):
    rng = gen.draw_rng(draw)
    shape = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    table = rng.integers(0, draw(st.sampled_from([2, 4, 50])), shape)
    if draw(st.booleans()):
        # seldom used categories of large samples
        table = table * rng.choice([0, 1, 1, 1000, 10 ** 6], (shape[0], 1)) * rng.choice([0, 1, 1, 1, 1000], shape[1])
    for axis in range(2):
        if draw(st.integers(0, 2)) == 0:
            np.moveaxis(table, axis, 0)[rng.integers(0, shape[axis])] = 0
    if table.any():
        table[table > 0] += draw(st.sampled_from([0, 0, 3]))
    return {'table': table.astype(draw(st.sampled_from(['int64', 'float64', 'float64'])))}


def check_validate(case, ctx):
    table = case['table']
    got = ctx.call(validate_contingency_table, table.copy())
    rows = [i for i in range(table.shape[0]) if table[i].any()]
    columns = [j for j in range(table.shape[1]) if table[:, j].any()]
    ctx.equal('empty rows and columns removed', got, table[np.ix_(rows, columns)])
    if len(rows) < table.shape[0] or len(columns) < table.shape[1]:
        ctx.feature('empty margins')
    total = table.sum()
    if total and min(table.sum(axis=k)[table.sum(axis=k) > 0].min() for k in (0, 1)) < 1e-3 * total:
        ctx.feature('a seldom used category')
    ctx.nontrivial(total > 0)


PROP = Property(
    'C27', 'Random pairs of ordinal vectors (0-66600 respondents, scales of 1-21 values from any start) with missing and '
           'foreign codes, values between the codes, several number types; tables with counts from 0 to 10^9 and empty margins. '
           'Non-trivial: some pair is counted.',
    [Sub('table', cases(), check, quick=200, thorough=100, axes={'x': ('person',), 'y': ('person',)}),
     Sub('validation', tables(), check_validate, quick=100, thorough=100, axes={'table': ('row', 'column')})])
