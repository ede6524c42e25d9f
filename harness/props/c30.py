"""C30: reverse scoring."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub
from girth.common import reverse_score

MISSING = ref.MISSING


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(1, 8)), draw(st.integers(0, 20))
    if draw(st.integers(0, 5)) == 0:
        items, persons = items * 20, persons * 20
    k = draw(st.one_of(st.integers(2, 9), st.sampled_from([20, 100, 126])))
    data = rng.integers(1, k + 1, (items, persons))
    data = np.where(rng.uniform(size=data.shape) < draw(st.sampled_from([0, 0, .2, .6])), MISSING, data)
    dtype = draw(st.sampled_from(['int64', 'int64', 'int32', 'float64', 'float32']))
    if not (data == MISSING).any() and draw(st.integers(0, 2)) == 0:
        dtype = draw(st.sampled_from(['int8', 'uint8', 'int16', 'uint16']))
    if dtype.startswith('float') and draw(st.booleans()):
        # ratings in halves, or averages of ratings
        part = rng.integers(0, 4, data.shape) / 4
        data = np.where((data == MISSING) | (data == k), data, data + part)
    mask = rng.uniform(size=items) < draw(st.sampled_from([0.0, .4, .4, 1.0]))
    return {'data': data.astype(dtype), 'mask': mask, 'k': k, 'default': draw(st.booleans()),
            'wrong': draw(st.sampled_from([-1, 1, 2])), 'order': draw(st.sampled_from(['C', 'F']))}


def check(case, ctx):
    data, mask, k = np.asarray(case['data'], order=case['order']), case['mask'], case['k']
    args = () if (k == 5 and case['default']) else (k,)
    before, mask_before = data.copy(), mask.copy()
    got = ctx.call(reverse_score, data, mask, *args)
    ctx.equal('input unchanged', data, before)
    ctx.equal('mask unchanged', mask, mask_before)
    want = [[v if (not flip or v == MISSING) else k + 1 - v for v in row] for row, flip in zip(data.tolist(), mask.tolist())]
    ctx.equal('reversed responses', got, np.array(want).reshape(data.shape))
    ctx.ok(not np.shares_memory(got, data), 'the result is the input array itself')
    back = ctx.call(reverse_score, got, mask, *args)
    ctx.equal('reversed twice', back, data)
    wrong = data.shape[0] + case['wrong']
    if wrong > 0:
        ctx.refuses('a mask of another length', reverse_score, data, np.ones(wrong, bool), *args)
    ctx.feature(str(data.dtype), 'some items reversed' if 0 < mask.sum() < mask.size else 'all or none reversed')
    if (data[mask] == MISSING).any():
        ctx.feature('missing response in a reversed item')
    ctx.nontrivial(mask.any() and data.size > 0)


PROP = Property(
    'C30', 'Random Likert responses (1-160 items, 0-400 respondents, scales of 2-126 values) with missing responses, masks of '
           'none, some and all items, several number types. Non-trivial: some response is reversed.',
    [Sub('reverse', cases(), check, quick=250, thorough=100, axes={'data': ('item', 'person'), 'mask': ('item',)})])
