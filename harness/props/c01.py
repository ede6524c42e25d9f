"""C01: simulated dichotomous responses."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub
from girth.synthetic import create_synthetic_irt_dichotomous


@st.composite
def uni(draw):
    rng = gen.draw_rng(draw)
    n_items, n = draw(st.integers(1, 12)), draw(st.integers(1, 40))
    difficulty = rng.uniform(-3, 3, n_items) * draw(st.sampled_from([1, 1, 5]))
    if draw(st.integers(0, 4)) == 0:
        difficulty = np.round(difficulty).astype('int64')
    if draw(st.integers(0, 19)) == 0:
        n = draw(st.sampled_from([300, 5000]))
    thetas = rng.standard_normal(n) * draw(st.sampled_from([1, 1, 2, 20]))
    if draw(st.integers(0, 7)) == 0:
        thetas = np.round(thetas).astype('int64')
    disc = draw(st.sampled_from(['array', 'array', 'float', 'int', 'numpy', 'neg']))
    discrimination = {'array': rng.uniform(.1, 4, n_items), 'float': float(np.round(rng.uniform(.2, 3), 2)),
                      'int': int(rng.integers(1, 4)), 'numpy': np.array([rng.uniform(.2, 3)]),
                      'neg': rng.uniform(-2, 2, n_items)}[disc]
    guess = draw(st.sampled_from(['none', 'zero', 'float', 'array', 'array', 'numpy']))
    guessing = {'none': None, 'zero': 0, 'float': float(np.round(rng.uniform(0, .5), 2)),
                'array': rng.uniform(0, .6, n_items), 'numpy': np.array([rng.uniform(0, .5)])}[guess]
    return {'difficulty': difficulty, 'discrimination': discrimination, 'thetas': thetas,
            'guessing': guessing, 'seed': draw(gen.seeds), 'how': draw(st.sampled_from(['int', 'generator'])),
            'kinds': [disc, guess]}


@st.composite
def multi(draw):
    rng = gen.draw_rng(draw)
    n_items, n, f = draw(st.integers(1, 10)), draw(st.integers(1, 40)), draw(st.integers(1, 4))
    if f == 1:
        n_items = max(n_items, 2)  # one number is a discrimination for all items
    if draw(st.integers(0, 19)) == 0:
        n = draw(st.sampled_from([300, 5000]))
    guess = draw(st.sampled_from(['none', 'float', 'array']))
    whole = draw(st.sampled_from([(), (), (), ('a',), ('b',), ('t',), ('a', 't'), ('a', 'b'), ('a', 'b', 't')]))

    def maybe(key, array):
        return np.round(array).astype('int64') if key in whole else array
    return {'difficulty': maybe('b', rng.uniform(-3, 3, n_items)),
            'discrimination': maybe('a', rng.uniform(-2, 2.5, (n_items, f))),
            'thetas': maybe('t', rng.standard_normal((f, n)) * draw(st.sampled_from([1, 1, 3]))),
            'guessing': {'none': None, 'float': .25, 'array': rng.uniform(0, .5, n_items)}[guess],
            'seed': draw(gen.seeds), 'how': draw(st.sampled_from(['int', 'generator'])),
            'kinds': ['md', guess]}


def check(case, ctx):
    b, a, theta = case['difficulty'], case['discrimination'], case['thetas']
    args = dict(seed=case['seed'] if case['how'] == 'int' else np.random.default_rng(case['seed']))
    if case['guessing'] is not None:
        args['guessing'] = case['guessing']
    copies = [np.copy(x) for x in (b, a, theta)]
    got = ctx.call(create_synthetic_irt_dichotomous, b, a, theta, **args)
    n_items = b.shape[0]
    n = theta.shape[-1]
    ctx.shape('responses', got, (n_items, n))
    for before, now in zip(copies, (b, a, theta)):
        ctx.equal('inputs unchanged', now, before)
    ctx.ok(np.isin(got, [0, 1]).all(), 'responses other than 0 and 1')

    c = np.broadcast_to(np.asarray(0.0 if case['guessing'] is None else case['guessing'], 'float64'), (n_items,))
    if np.ndim(a) == 2:
        kernel = sum(a[:, [k]].astype('float64') * theta[[k]] for k in range(a.shape[1])) + b[:, None]
    else:
        aa = np.broadcast_to(np.asarray(a, 'float64'), (n_items,))
        kernel = aa[:, None] * (theta.astype('float64')[None, :] - b[:, None])
    p = c[:, None] + (1 - c[:, None]) * ref.logistic(kernel)
    u = np.random.default_rng(case['seed']).uniform(size=(n_items, n))
    sure = np.abs(u - p) > 1e-9
    want = (u <= p).astype(int)
    bad = sure & (got != want)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        ctx.ok(False, f'response[{i},{j}] is {got[i, j]}: p={p[i, j]:.6f} uniform={u[i, j]:.6f} '
                      f'({bad.sum()} of {bad.size} responses differ)')
    again = ctx.call(create_synthetic_irt_dichotomous, b, a, theta,
                     **{**args, 'seed': case['seed']})
    ctx.equal('same seed, same data', again, got)
    ctx.feature(*case['kinds'], 'generator' if case['how'] != 'int' else 'seed')
    ctx.nontrivial(got.min() != got.max())


PROP = Property(
    'C01', 'Random item parameters, abilities, guessing and seed (arrays, scalars, integers, 1-4 factors). '
           'Non-trivial: both responses occur in the simulated matrix.',
    [Sub('unidimensional', uni(), check, quick=150, thorough=60,
         axes={'difficulty': ('item',), 'thetas': ('person',)}),
     Sub('multidimensional', multi(), check, quick=80, thorough=60)],
    ['numpy.random.default_rng(seed).uniform is the documented randomness source'])
