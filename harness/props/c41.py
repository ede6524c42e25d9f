"""C41: conditioning of ordinal responses."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub
from girth import condition_polytomous_response

MISSING = ref.MISSING


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(1, 8)), draw(st.integers(1, 40))
    if draw(st.integers(0, 7)) == 0:
        items, persons = items + draw(st.sampled_from([0, 30, 70])), persons * draw(st.sampled_from([1, 15]))
    low = draw(st.sampled_from([0, 0, 1, 1, -3, 5, -12000, 70000]))
    k = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.sampled_from([12, 40])))
    data = rng.integers(low, low + k, (items, persons))
    step = draw(st.sampled_from([1, 1, 2, 10, 100, 1000]))
    data = data * step
    if draw(st.integers(0, 3)) == 0:
        # uneven spacing
        step, jumps = 1, np.cumsum(rng.integers(1, draw(st.sampled_from([4, 200, 5000])), k)) - draw(st.sampled_from([0, 50]))
        data = jumps[rng.integers(0, k, (items, persons))]
    # extreme respondents
    for person in range(persons):
        if rng.uniform() < .2:
            data[:, person] = rng.choice([data.min(), data.max()])
    data = np.where(rng.uniform(size=data.shape) < draw(st.sampled_from([0, 0, .2, .6])), MISSING, data)
    if draw(st.integers(0, 4)) == 0:
        data[:, rng.integers(0, persons)] = MISSING
    for i in range(items):
        if (data[i] == MISSING).all():
            data[i, rng.integers(0, persons)] = low * step
    dtype = draw(st.sampled_from(['int64', 'int64', 'int32', 'float64']))
    if not (data == MISSING).any() and data.min() >= 0 and draw(st.integers(0, 3)) == 0:
        dtype = draw(st.sampled_from(['int8', 'uint8', 'int16']))
        if data.max() > np.iinfo(dtype).max:
            dtype = 'int16'
    if set(np.unique(data)) <= {0, 1} and draw(st.booleans()):
        dtype = 'bool'
    return {'data': data.astype(dtype), 'trim': draw(st.sampled_from([None, True, False, False]))}


def reference(data, trim):
    data = data.astype('int64')
    low, high = data[data != MISSING].min(), data[data != MISSING].max()
    keep = []
    for column in data.T:
        seen = column[column != MISSING]
        keep.append(seen.size > 0 and not (seen == low).all() and not (seen == high).all())
    if trim:
        data = data[:, np.array(keep, bool)]
    out, lengths, offset = np.full(data.shape, MISSING), [], 0
    for i, row in enumerate(data):
        values = sorted(set(row[row != MISSING].tolist()))
        for rank, value in enumerate(values):
            if len(values) == 1:
                rank = int(value != low)
            out[i, row == value] = offset + rank
        lengths.append(max(len(values), 2))
        offset += lengths[-1]
    return out, lengths, keep


def check(case, ctx):
    data, trim = case['data'], case['trim']
    before = data.copy()
    effective = True if trim is None else trim
    codes, lengths, keep = reference(data, effective)
    if trim is None:
        got = ctx.call(condition_polytomous_response, data)
    else:
        got = ctx.call(condition_polytomous_response, data, trim_ends=trim)
    ctx.equal('input unchanged', data, before)
    ctx.equal('linear indices', got[0], codes)
    ctx.ok(np.asarray(got[0]).dtype.kind == 'i', f'indices of type {np.asarray(got[0]).dtype}')
    ctx.equal('categories per item', got[1], lengths)
    ctx.equal('mask of valid responses', got[2], codes != MISSING)
    ctx.feature(str(data.dtype), 'trimmed' if effective else 'kept')
    if np.ptp(data[data != MISSING].astype('int64')) > 127:
        ctx.feature('codes far apart')
    if (before == MISSING).any():
        ctx.feature('missing')
    if effective and not all(keep):
        ctx.feature('respondents dropped')
    if min(lengths) < max(lengths):
        ctx.feature('unequal categories')
    ctx.nontrivial(codes.shape[1] > 1 and max(lengths) > 2)


PROP = Property(
    'C41', 'Random ordinal matrices (1-78 items, 1-600 respondents, 1-40 categories, any first code and even or uneven spacing up to thousands), extreme '
           'and wholly missing respondents, several number types. Non-trivial: more than one respondent left and an '
           'item with more than two categories.',
    [Sub('conditioning', cases(), check, quick=300, thorough=100, axes={'data': ('item', 'person')})])
