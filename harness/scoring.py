"""Cases and objectives for scoring respondents with known item parameters."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref

MISSING = ref.MISSING


@st.composite
def dich_case(draw, kinds, three=False, max_items=14, max_persons=10, need_quad=True, scalar=True, large=False):
    rng = gen.draw_rng(draw)
    n_items = draw(st.integers(1, max_items))
    n = draw(st.integers(1, max_persons))
    if large:
        n_items = draw(st.sampled_from([3, 8, 20, 40, 130, 260]))
        n = draw(st.sampled_from([130, 257, 300, 513, 1025, 2100]))
    elif draw(st.integers(0, 9)) == 0:
        n_items += draw(st.sampled_from([26, 60]))
    b = rng.uniform(-3, 3, n_items)
    kind = draw(st.sampled_from(['array', 'array', 'array', 'reverse', 'equal', 'coarse'] + (['scalar'] if scalar else [])))
    a = np.exp(rng.uniform(np.log(.3), np.log(3.0), n_items))
    if kind == 'reverse':
        a *= np.where(rng.uniform(size=n_items) < .3, -1, 1)
    if kind == 'scalar':
        a = float(a[0])
    if kind == 'equal':
        a = np.full(n_items, np.round(a[0], 1))
    if kind == 'coarse':
        a = rng.integers(1, 5, n_items) / 2.0
    c = None
    theta = rng.standard_normal(n) * draw(st.sampled_from([1.0, 2.0]))
    aa = np.broadcast_to(a, (n_items,))
    p = ref.logistic(aa[:, None] * (theta[None] - b[:, None]))
    if three:
        c = rng.uniform(0, .35, n_items) * draw(st.sampled_from([0, 1, 1, 1]))
        p = c[:, None] + (1 - c[:, None]) * p
    data = (rng.uniform(size=p.shape) < p).astype('int64')
    # respondents with constant patterns are frequent in practice
    for person in range(n):
        if rng.uniform() < .15:
            data[:, person] = rng.integers(0, 2)
    rate = draw(st.sampled_from([0, 0, .15, .5]))
    data = gen.add_missing(rng, data, rate)
    wiped = draw(st.integers(0, 5)) == 0
    if wiped:
        data[:, rng.integers(0, n)] = MISSING
    case = {'data': data, 'b': b, 'a': a, 'c': c, 'dist': draw(gen.distributions(kinds)),
            'a_kind': kind, 'default': draw(st.integers(0, 4)) == 0}
    if large:
        case['judged'] = np.r_[0, n - 1, rng.integers(0, n, 14)]
    case['quad'] = draw(gen.quadratures()) if need_quad else None
    if case['default']:
        case['dist'], case['quad'] = None, None
    return case


AXES = {'data': ('item', 'person'), 'b': ('item',), 'a': ('item',), 'c': ('item',)}


def loglik_grid(case, theta):
    """[persons, len(theta)] log likelihood of the 2PL / 3PL."""
    data, b = case['data'], case['b']
    a = np.broadcast_to(np.asarray(case['a'], 'float64'), b.shape)
    out = np.zeros((data.shape[1], theta.size))
    for i in range(b.size):
        z = a[i] * (theta - b[i])
        if case.get('c') is None:
            right, wrong = ref.log_logistic(z), ref.log_logistic(-z)
        else:
            p = case['c'][i] + (1 - case['c'][i]) * ref.logistic(z)
            right, wrong = np.log(p), np.log1p(-case['c'][i]) + ref.log_logistic(-z)
        out[data[i] == 1] += right
        out[data[i] == 0] += wrong
    return out


def person(case, j):
    one = dict(case)
    one['data'] = case['data'][:, [j]]
    return one


def judged(case):
    n = case['data'].shape[1]
    return range(n) if 'judged' not in case else sorted({int(j) for j in case['judged'] if j < n})


def features(case, ctx):
    data = case['data']
    if data.shape[1] > 100:
        ctx.feature(f"more than {max(k for k in (100, 500, 1000, 2000) if data.shape[1] > k)} respondents")
    if data.shape[0] > 100:
        ctx.feature('more than 100 items')
    miss = data == MISSING
    if miss.any():
        ctx.feature('missing')
    if miss.all(axis=0).any():
        ctx.feature('wholly missing respondent')
    ctx.feature('a ' + case['a_kind'], 'prior ' + ('default' if case['dist'] is None else case['dist']['kind']))
    if data.shape[1] == 1:
        ctx.feature('single respondent')


def check_maximiser(ctx, name, objective, got, low=-6.0, high=6.0):
    """got must maximise objective (vectorised, -log posterior) on [low, high].

    A one dimensional bounded search promises a local optimum; where the
    objective has a single valley it must be the optimum."""
    ctx.ok(np.isfinite(got) and low - 1e-9 <= got <= high + 1e-9, f'{name}: {got} outside of [{low}, {high}]')
    grid = np.linspace(low, high, 601)
    values = objective(grid)
    lower = (values[1:-1] < values[:-2] - 1e-11) & (values[1:-1] <= values[2:])
    valleys = int(lower.sum()) + int(values[0] < values[1] - 1e-11) + int(values[-1] < values[-2] - 1e-11)
    if valleys <= 1:
        best, value = ref.zoom_minimum(objective, low, high)
        gap = objective(np.array([got]))[0] - value
        if gap > 1e-9:
            ctx.note('distance to the optimum', abs(got - best) / 1e-4)
            ctx.ok(abs(got - best) <= 1e-4, f'{name}: returned {got:.7f}, optimum {best:.7f} (gap {gap:.3g})')
        return 'unimodal'
    here = objective(np.array([got]))[0]
    # walk downhill from the answer: it may not drop by more than the search tolerance
    for step in (1e-3, 5e-3, 2e-2):
        for sign in (-1, 1):
            x = min(max(got + sign * step, low), high)
            drop = here - objective(np.array([x]))[0]
            if abs(x - got) > 1e-4:
                ctx.ok(drop <= 1e-7, f'{name}: {got:.7f} is not a local optimum, {x:.7f} is better by {drop:.3g}')
    return 'multimodal'
