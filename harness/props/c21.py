"""C21: conditional maximum likelihood of the Rasch model."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from harness import gen, ref
from harness.core import Property, Skip, Sub
from girth import rasch_conditional


@st.composite
def cases(draw, large=False):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(2, 8)), draw(st.integers(20, 250))
    spread = draw(st.sampled_from([1.8, 1.8, 3.0, 4.5]))
    if draw(st.integers(0, 4)) == 0:
        items, persons, spread = items + draw(st.sampled_from([15, 15, 50])), persons + 100, min(spread, 3.0)
    if large:
        items, spread = draw(st.sampled_from([100, 135, 180, 260])), 2.0
        persons = 2 * items + draw(st.integers(20, 90))
    theta = gen.abilities(rng, persons, draw(st.sampled_from(['normal', 'skew', 'bimodal', 'uniform'])))
    b = rng.uniform(-spread, spread, items)
    data = (rng.uniform(size=(items, persons)) < ref.logistic(theta[None] - b[:, None])).astype('int64')
    if not large and draw(st.integers(0, 3)) == 0:
        data = gen.repeat(rng, data)
        persons = data.shape[1]
    return {'data': data, 'alpha': draw(st.sampled_from([1, 1.0, .5, 1.7, 3.0])),
            'order': rng.permutation(persons), 'item_order': rng.permutation(items),
            'type': draw(st.sampled_from(['int64', 'int64', 'float64', 'int8', 'uint8', 'bool', 'float32'])),
            'extremes': draw(st.integers(0, 4))}


def informative(data):
    total = data.sum(axis=0)
    return data[:, (total > 0) & (total < data.shape[0])]


def summed(data):
    """The same by multiplying out the score polynomial, for more items than can be enumerated."""
    totals = data.sum(axis=1)
    sizes = np.bincount(data.sum(axis=0), minlength=data.shape[0] + 1)

    def product(e):
        out = np.ones(1)
        for x in e:
            out = np.convolve(out, [1.0, x])
        return out

    def func(b):
        e = np.exp(-b)
        whole = product(e)[1:-1]
        value = float(totals @ b) + sizes[1:-1] @ np.log(whole)
        if e.size > 60:
            expected = leave_one_out(e, sizes, whole)
        else:
            expected = [sizes[1:-1] @ (e[i] * product(np.delete(e, i))[:-1] / whole) for i in range(e.size)]
        return value, totals - np.array(expected)
    return func


def leave_one_out(e, sizes, whole):
    """Expected totals, with the products of all items but one by divide and conquer."""
    expected = np.zeros(e.size)

    def descend(indices, others):
        if indices.size == 1:
            i = indices[0]
            expected[i] = sizes[1:-1] @ (e[i] * others[:-1] / whole)
            return
        half = indices.size // 2
        left, right = indices[:half], indices[half:]
        for mine, rest in ((left, right), (right, left)):
            out = others
            for i in rest:
                out = np.convolve(out, [1.0, e[i]])
            descend(mine, out)
    descend(np.arange(e.size), np.ones(1))
    return expected


def conditional(data):
    """-> (negative conditional log likelihood, its gradient) of centred b, by enumeration."""
    items = data.shape[0]
    if items > 10:
        return summed(data)
    patterns = np.array(list(itertools.product((0, 1), repeat=items)))
    score = patterns.sum(axis=1)
    totals = data.sum(axis=1)
    sizes = np.bincount(data.sum(axis=0), minlength=items + 1)

    def func(b):
        logs = -patterns @ b
        value, expected = float(totals @ b), np.zeros(items)
        for r in range(1, items):
            chosen = score == r
            top = logs[chosen].max()
            mass = np.exp(logs[chosen] - top)
            value += sizes[r] * (np.log(mass.sum()) + top)
            expected += sizes[r] * (mass @ patterns[chosen]) / mass.sum()
        return value, totals - expected
    return func


def check(case, ctx):
    data, alpha = case['data'], case['alpha']
    used = informative(data)
    items = data.shape[0]
    p = used.mean(axis=1) if used.size else np.zeros(items)
    if used.shape[1] < 2 * items or p.min() < .004 or p.max() > .996:
        raise Skip  # no finite estimate
    options = {'max_iteration': 400}
    result = ctx.call(rasch_conditional, data.astype(case['type']), alpha, options)
    ctx.equal('discrimination as given', float(result['Discrimination']), float(alpha))
    b = ctx.shape('Difficulty', result['Difficulty'], (items,)) * alpha
    ctx.close('mean difficulty', b.mean(), 0.0, atol=1e-9)
    func = conditional(used)
    found = minimize(func, np.zeros(items), jac=True, method='L-BFGS-B', options={'ftol': 1e-14, 'gtol': 1e-9})
    want = found.x - found.x.mean()
    if np.abs(want).max() < 4.9:
        ctx.feature('interior', 'beyond three' if np.abs(want).max() > 3 else 'within three')
        ctx.atmost('conditional log likelihood gained by other difficulties', func(b)[0] - found.fun, 0.0,
                   2e-5 * used.shape[1])
        ctx.close('observed less expected item totals', func(b)[1] / used.shape[1], np.zeros(items), atol=5e-4)
    # the iteration settles slowly where difficulties are extreme
    settled = 2e-2 if np.abs(want).max() < 3.5 else .15
    # respondents, their order and perfect or empty records
    other = ctx.call(rasch_conditional, data[:, case['order']], alpha, options)['Difficulty']
    ctx.close('permuted respondents', other, b / alpha, atol=1e-9)
    extra = np.repeat(np.array([[0, 1]] * items), case['extremes'], axis=1)
    other = ctx.call(rasch_conditional, np.c_[data, extra], alpha, options)['Difficulty']
    ctx.close('perfect and empty records added', other, b / alpha, atol=1e-9)
    if np.abs(want).max() < 4.9:
        other = ctx.call(rasch_conditional, data[case['item_order']], alpha, options)['Difficulty']
        ctx.close('permuted items', other, b[case['item_order']] / alpha, atol=settled / alpha)
        other = ctx.call(rasch_conditional, 1 - data, alpha, options)['Difficulty']
        ctx.close('reversed coding', other, -b / alpha, atol=settled / alpha)
    other = ctx.call(rasch_conditional, data.copy(), options=options)['Difficulty']
    ctx.close('default discrimination', other, b, atol=1e-9)
    order = np.argsort(used.sum(axis=1))
    ctx.ok(np.abs(want).max() >= 4.9 or (np.diff(b[order]) <= settled / 2).all(), f'difficulties {b} do not follow the totals {used.sum(axis=1)}')
    ctx.feature(f'discrimination {alpha}', case['type'])
    ctx.nontrivial(items > 2)


def check_recorded(case, ctx):
    """Missing data (recorded finding)."""
    result = ctx.call(rasch_conditional, case['data'])
    ctx.ok(np.isfinite(result['Difficulty']).all(), 'not finite')


PROP = Property(
    'C21', 'Simulated Rasch data (2-58 items, a few of 100-260, 20-610 respondents, also with answers given hundreds of times over, difficulties up to the ends of the search range), judged '
           'against the conditional likelihood summed over all response patterns. Non-trivial: more than two items.',
    [Sub('conditional', cases(), check, quick=40, thorough=80, axes={'data': ('item', 'x')}, minimum={'item': 2}),
     Sub('large', cases(True), check, quick=1, thorough=20),
     Sub('recorded', st.nothing(), check_recorded, quick=1, shards=0)],
    ['complete data', 'every item is solved by 0.4% to 99.6% of the informative respondents; the likelihood is judged where '
                      'the exact difficulties stay within 4.9 of their mean (the search range is 5)'])
