"""C38: look up table of the difficulty."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub, Violation
from girth import create_beta_LUT


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    alpha = draw(st.sampled_from([(.15, 6, 400), (.5, 2, 150), (.2, 3, 60), (1, 4, 90)]))
    beta = draw(st.sampled_from([(-6, 6, 500), (-3, 3, 400), (-4, 2, 300), (-1, 5, 350)]))
    n = draw(st.integers(1, 12))
    place = draw(st.sampled_from(['inside', 'inside', 'node', 'last', 'first']))
    a = {'inside': rng.uniform(alpha[0], alpha[1]), 'node': np.linspace(*alpha)[rng.integers(alpha[2])],
         'last': alpha[1], 'first': alpha[0]}[place]
    b = np.sort(rng.uniform(beta[0] + .3, beta[1] - .3, n))
    if draw(st.integers(0, 3)) == 0:
        b = np.sort(rng.choice(np.linspace(*beta)[20:-20], n))
    return {'alpha': alpha, 'beta': beta, 'a': float(a), 'b': b, 'place': place,
            'quad': draw(st.sampled_from([None, None, {'bounds': (-5.0, 5.0), 'n': 61}, {'bounds': (-6.0, 4.5), 'n': 41}])),
            'dist': draw(st.one_of(st.none(), gen.distributions(('norm', 'shifted', 't', 'mix', 'skew')))),
            'scalar': draw(st.booleans()), 'mirror': draw(st.booleans())}


def table_function(case, mirror=False):
    theta, weight, density = gen.grid_from(case['quad'], case['dist'])
    if mirror:
        density = density[::-1]

    def func(a, b):
        return ref.logistic(a * (theta[None] - np.atleast_1d(b)[:, None])) @ (weight * density)
    return func


def check(case, ctx):
    options = gen.options_from(case['quad'], case['dist'])
    table = ctx.call(create_beta_LUT, case['alpha'], case['beta'], options) if options else ctx.call(
        create_beta_LUT, case['alpha'], case['beta'])
    if not case.get('mirror'):
        return judge(case, ctx, table, table_function(case))
    # a table belongs to the density it was made for: the mirror image has the same nodes and the same total
    low, high = (-4.5, 4.5) if case['quad'] is None else case['quad']['bounds']
    pdf = ref.distribution(case['dist'] or {'kind': 'norm', 'loc': 0.0, 'scale': 1.0})
    options = gen.options_from(case['quad'], distribution=lambda x: pdf(low + high - x))
    other = ctx.call(create_beta_LUT, case['alpha'], case['beta'], options)
    judge(case, ctx, other, table_function(case, True))
    judge(case, ctx, table, table_function(case))
    ctx.feature('two tables')


def judge(case, ctx, table, func):
    a, b = case['a'], case['b']
    p = func(a, b)
    # neighbouring discriminations must hold the proportion too
    step = (case['alpha'][1] - case['alpha'][0]) / (case['alpha'][2] - 1)
    width = (case['beta'][1] - case['beta'][0]) / (case['beta'][2] - 1)
    keep = np.ones(b.size, bool)
    for near in (max(a - step, case['alpha'][0]), min(a + step, case['alpha'][1])):
        ends = func(near, np.array([case['beta'][0] + 2 * width, case['beta'][1] - 2 * width]))
        keep &= (p < ends[0]) & (p > ends[1])
        # a flat table cannot be read back
        keep &= np.abs(func(near, b + width) - func(near, b - width)) > 1e-7
    b, p = b[keep], p[keep]
    if case['scalar']:
        got = np.array([float(ctx.call(table, a, float(q))) for q in p])
    else:
        got = ctx.call(table, a, p)
    ctx.shape('difficulties', got, p.shape)
    if b.size:
        # linear interpolation: bound the error by the curvature of the inverse
        slope = (func(a, b + 1e-4) - func(a, b - 1e-4)) / 2e-4
        bend = (func(a, b + 1e-2) - 2 * p + func(a, b - 1e-2)) / 1e-4
        bound = np.abs(bend / slope) * width**2
        wide = .5 * step**2 * np.abs(second_in_a(func, a, b, p, case['alpha'], step))
        ctx.close('difficulty in units of the interpolation error', (got - b) / (1e-5 + bound + 2 * wide), np.zeros(b.size),
                  atol=1.0)
        ctx.ok(np.all(np.diff(got) >= -1e-9), 'the difficulty does not decrease with the proportion')
    for q in (ends_of(func, case)[0] + .02, ends_of(func, case)[1] - .02):
        beyond(ctx, table, case, q, func)
    for outside in (case['alpha'][0] - .05, case['alpha'][1] + .05):
        ctx.refuses(f'discrimination {outside} outside of the table {case["alpha"]}', table, outside, .5)
    ctx.feature(f"discrimination {case['place']}", 'given density' if case['dist'] else 'default density')
    ctx.nontrivial(b.size > 0)


def inverse(func, a, p, low, high):
    """Difficulties of these proportions by bisection."""
    low, high = np.full(p.size, low), np.full(p.size, high)
    for _ in range(60):
        mid = (low + high) / 2
        value = np.array([func(a, m)[0] for m in mid])
        low, high = np.where(value > p, mid, low), np.where(value > p, high, mid)
    return (low + high) / 2


def second_in_a(func, a, b, p, alpha, step):
    mid = min(max(a, alpha[0] + step), alpha[1] - step)
    lo, hi = float(b.min() - 3), float(b.max() + 3)
    return (inverse(func, mid + step, p, lo, hi) - 2 * inverse(func, mid, p, lo, hi)
            + inverse(func, mid - step, p, lo, hi)) / step**2


def ends_of(func, case):
    grid = np.linspace(case['alpha'][0], case['alpha'][1], 7)
    return (max(func(a, case['beta'][0])[0] for a in grid), min(func(a, case['beta'][1])[0] for a in grid))


def beyond(ctx, table, case, q, func):
    """Outside of the table the nearest end is returned; the recorded finding returns the other one."""
    if not 0 < q < 1:
        return
    got = float(ctx.call(table, case['a'], q))
    ends = (case['beta'][0], case['beta'][1])
    ctx.ok(min(abs(got - e) for e in ends) < 1e-6, f'proportion {q} outside of the table gives {got}, not one of {ends}')
    ctx.feature('outside of the table')


def check_recorded(case, ctx):
    table = ctx.call(create_beta_LUT, (.5, 2, 50), (-3, 3, 100))
    for q in case['p']:
        got = float(ctx.call(table, 1.0, float(q)))
        want = 3.0 if q < .5 else -3.0
        if abs(got + want) < 1e-6:
            raise Violation(f'opposite end of the table: proportion {q} gives {got}, expected {want}')
        ctx.close('difficulty outside of the table', got, want, atol=1e-6)


PROP = Property(
    'C38', 'Tables over several ranges of discrimination and difficulty, quadratures and densities, read at random, node and '
           'end discriminations for proportions of known difficulty. Non-trivial: some proportion lies in the table.',
    [Sub('table', cases(), check, quick=50, thorough=100), Sub('recorded', st.nothing(), check_recorded, shards=0)],
    ['proportions that the table can resolve (slope above 1e-7)'])
