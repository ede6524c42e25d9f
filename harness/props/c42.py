"""C42: counting utilities for dichotomous responses."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub
import girth

MISSING = ref.MISSING


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(1, 9)), draw(st.integers(1, 40))
    if draw(st.integers(0, 5)) == 0:
        items = draw(st.integers(60, 400))
    p = rng.uniform(.05, .95, (items, 1))
    data = (rng.uniform(size=(items, persons)) < p).astype('int64')
    other = draw(st.sampled_from([MISSING, MISSING, MISSING, 2, -1]))
    data = np.where(rng.uniform(size=data.shape) < draw(st.sampled_from([0, 0, .2, .7])), other, data)
    for value in (0, 1, other):
        if rng.uniform() < .3:
            data[:, rng.integers(0, persons)] = value
    if items >= 60:
        # nearly constant patterns
        for person in range(0, persons, 2):
            value = rng.integers(0, 2)
            data[:, person] = np.where(data[:, person] == other, other, value)
            data[rng.integers(0, items), person] = 1 - value
    dtype = draw(st.sampled_from(['int64', 'float64', 'int32']))
    if np.isin(data, (0, 1)).all() and draw(st.booleans()):
        dtype = 'bool'
    return {'data': data.astype(dtype), 'times': rng.integers(1, 9, persons),
            'alpha': draw(st.sampled_from([1, .3, 1.0, 1.7, 4.0])), 'vector': draw(st.booleans())}


def check(case, ctx):
    data, times = case['data'], case['times']
    before = data.copy()
    zeros, ones = ctx.call(girth.get_true_false_counts, data)
    want = [[sum(1 for x in row if x == v) for row in before.tolist()] for v in (0, 1)]
    ctx.equal('count of false', zeros, want[0])
    ctx.equal('count of true', ones, want[1])
    sign = ctx.call(girth.convert_responses_to_kernel_sign, data)
    lookup = [[-1.0 if x == 1 else 1.0 if x == 0 else 0.0 for x in row] for row in before.tolist()]
    ctx.equal('kernel sign', sign, lookup)
    if np.isin(before, (0, 1, MISSING)).all():
        keep = [any(x == 0 for x in column) and any(x == 1 for x in column) for column in before.T.tolist()]
        left, count = ctx.call(girth.trim_response_set_and_counts, data, times)
        ctx.equal('patterns left', left, before[:, keep])
        ctx.equal('counts left', count, times[keep])
        ctx.feature('trimmed')
    ctx.equal('input unchanged', data, before)
    both = (np.array(want) > 0).all(axis=0)
    if both.all():
        alpha = np.linspace(.5, 2, len(both)) if case['vector'] else case['alpha']
        scalar = np.log(np.array(want[0]) / np.array(want[1]))
        expected = scalar * np.sqrt(1 + np.asarray(alpha)**2 / 3) / alpha
        ctx.close('approximate difficulty', ctx.call(girth.mml_approx, data, alpha), expected, atol=1e-10)
        ctx.close('approximate difficulty, ratio given', ctx.call(girth.mml_approx, None, alpha, scalar=scalar), expected,
                  atol=1e-10)
        ctx.close('approximate difficulty, default', ctx.call(girth.mml_approx, data), scalar * np.sqrt(4 / 3), atol=1e-10)
        ctx.feature('approximation')
    ctx.feature(str(data.dtype))
    if (before == MISSING).any():
        ctx.feature('missing')
    ctx.nontrivial(both.any())


@st.composite
def many(draw):
    return {'persons': draw(st.sampled_from([130, 260, 1000, 33000, 66000, 140000])), 'seed': draw(gen.seeds),
            'dtype': draw(st.sampled_from(['int8', 'int64', 'float32', 'bool', 'uint8'])),
            'p': draw(st.sampled_from([.001, .5, .999]))}


def check_many(case, ctx):
    rng = np.random.default_rng(case['seed'])
    data = rng.uniform(size=(3, case['persons'])) < np.array([[case['p']], [1.0], [0.0]])
    right = [sum(row) for row in data.tolist()]
    data = data.astype(case['dtype'])
    zeros, ones = ctx.call(girth.get_true_false_counts, data)
    ctx.equal('count of true', [int(x) for x in ones], right)
    ctx.equal('count of false', [int(x) for x in zeros], [case['persons'] - x for x in right])
    if 0 < right[0] < case['persons']:
        ctx.close('approximate difficulty', ctx.call(girth.mml_approx, data[:1]),
                  np.sqrt(4 / 3) * np.log([(case['persons'] - right[0]) / right[0]]), atol=1e-9)
        ctx.nontrivial()
    times = rng.integers(1, 200000, case['persons']).astype('int64')
    left, count = ctx.call(girth.trim_response_set_and_counts, data, times)
    mixed = np.array([0 < int(c.astype(int).sum()) < 3 for c in data.T]) if case['persons'] < 2000 else None
    if mixed is not None:
        ctx.equal('patterns left', left, data[:, mixed])
        ctx.equal('counts left', count, times[mixed])
    ctx.feature(f"{case['persons']} respondents")


PROP = Property(
    'C42', 'Random response matrices (1-9 items, 1-40 respondents; also 60-400 items, and up to 140000 respondents) with missing and foreign codes, constant respondents, '
           'several number types. Non-trivial: an item with both answers.',
    [Sub('counting', cases(), check, quick=300, thorough=100, axes={'data': ('item', 'person'), 'times': ('person',)}),
     Sub('many', many(), check_many, quick=10, thorough=20)])
