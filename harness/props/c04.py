"""C04: tagging missing data."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Property, Sub
import girth
from girth import tag_missing_data

TAG = -99999


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    shape = draw(st.sampled_from([(3, 5), (6, 20), (1, 7), (9, 2), (4, 4), (12,), (2, 3, 4), (40, 300), (0, 5)]))
    dtype = draw(st.sampled_from(['int64', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32',
                                  'bool', 'float64', 'float64', 'float32', 'float16']))
    low, high = draw(st.sampled_from([(0, 2), (0, 5), (1, 6), (-2, 9), (0, 100)]))
    data = rng.integers(low, high, shape)
    if dtype.startswith('u') or dtype == 'bool':
        data = np.abs(data)
    data = data.astype(dtype)
    if dtype.startswith('float'):
        mask = rng.uniform(size=shape) < .2
        data[mask] = np.nan
        mask = rng.uniform(size=shape) < .1
        data[mask] += .5
        # values next to the valid ones, and out of the ordinary ones
        mask = rng.uniform(size=shape) < .1
        data[mask] = np.nextafter(data[mask], np.array(np.inf, dtype))
        if dtype != 'float16':
            mask = rng.uniform(size=shape) < .1
            data[mask] *= draw(st.sampled_from([1 + 1e-6, 1 - 1e-6, 1e30, 0.0, -1.0]))
        data[rng.uniform(size=shape) < .03] = draw(st.sampled_from([np.inf, -np.inf, -0.0]))
    elif dtype in ('int64', 'int32'):
        mask = rng.uniform(size=shape) < .15
        data[mask] = draw(st.sampled_from([-99999, 9, -1, 99, -99998, 99999, 256, 65537]))
        if dtype == 'int64' and draw(st.booleans()):
            data[rng.uniform(size=shape) < .1] += draw(st.sampled_from([2**32, -2**32, 2**53]))
    valid = draw(st.sampled_from([[0, 1], [1, 2, 3, 4, 5], [0], [0, 1, 2, 3], [-2, -1, 0, 1, 2], [1, 3], [5, 1, 2],
                                  [0, .5, 1], [2.5], list(range(101)), [300, 1]]))
    kind = draw(st.sampled_from(['list', 'tuple', 'array', 'narrow']))
    if kind == 'narrow' and any(v != int(v) or v > 127 for v in valid):
        kind = 'array'
    return {'data': data, 'valid': valid, 'kind': kind}


def check(case, ctx):
    data, valid = case['data'], case['valid']
    arg = {'list': list, 'tuple': tuple, 'array': np.array, 'narrow': lambda v: np.array(v, 'int8')}[case['kind']](valid)
    before = data.copy()
    got = ctx.call(tag_missing_data, data, arg)
    ctx.shape('tagged', got, data.shape)
    ctx.equal('input unchanged', data, before)
    ctx.ok(not np.shares_memory(got, data), 'the result aliases the input')
    n_tag = 0
    flat, src = np.asarray(got).ravel().tolist(), data.ravel().tolist()
    for x, y in zip(flat, src):
        good = any(y == v for v in valid)
        n_tag += not good
        want = y if good else TAG
        if not x == want:
            ctx.ok(False, f'value {y!r} ({data.dtype}) with valid {valid} became {x!r}, expected {want!r}')
    ctx.ok(girth.INVALID_RESPONSE == TAG, 'the public marker is -99999')
    again = ctx.call(tag_missing_data, got, arg)
    ctx.equal('idempotent', again, got)
    ctx.feature(str(data.dtype), case['kind'])
    ctx.nontrivial(0 < n_tag < data.size)


PROP = Property(
    'C04', 'Random response arrays of every dtype and shape with random valid lists. '
           'Non-trivial: some responses are valid and some are not.',
    [Sub('tagging', cases(), check, quick=250, thorough=60)])
