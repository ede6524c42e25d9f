"""C02: simulated polytomous responses."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub
from girth.synthetic import create_synthetic_irt_polytomous


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    model = draw(st.sampled_from(['grm', 'pcm', 'gum', 'grm_md']))
    n_items, n = draw(st.integers(1, 8)), draw(st.integers(1, 40))
    f = draw(st.integers(1, 4))
    if model == 'grm_md' and f == 1:
        n_items = max(n_items, 2)  # one number is a discrimination for all items
    if draw(st.integers(0, 24)) == 0:
        n_items, n = min(n_items, 3), draw(st.sampled_from([300, 1500, 6000]))
    k = draw(st.integers(2, 7))
    scale = draw(st.sampled_from([1, 1, 2, 3]))
    if model == 'grm':
        difficulty = np.sort(rng.uniform(-2.5, 2.5, (n_items, k)), axis=1)
        difficulty += np.arange(k) * 1e-3
    elif model == 'pcm':
        difficulty = rng.uniform(-2.5, 2.5, (n_items, k))
    elif model == 'grm_md':
        difficulty = np.sort(rng.uniform(-2.5, 2.5, (n_items, k)), axis=1)[:, ::-1].copy()
    else:
        c = draw(st.integers(1, 4))
        tau = rng.uniform(-2.0, .7, (n_items, c))
        delta = rng.uniform(-2, 2, (n_items, 1))
        difficulty = np.c_[tau, np.zeros((n_items, 1)), -tau[:, ::-1]] + delta
    if model == 'grm_md':
        discrimination = rng.uniform(-1.5, 2.2, (n_items, f))
        thetas = rng.standard_normal((f, n)) * scale
    else:
        kind = draw(st.sampled_from(['array', 'array', 'scalar', 'int']))
        discrimination = {'array': rng.uniform(.2, 3, n_items), 'scalar': float(rng.uniform(.3, 2.5)),
                          'int': int(rng.integers(1, 3))}[kind]
        thetas = rng.standard_normal(n) * scale
    whole = draw(st.sampled_from(['', '', '', '', 't', 'b', 'a']))
    if whole == 't':
        thetas = np.round(thetas).astype('int64')
    if whole == 'b' and model == 'pcm':
        difficulty = np.round(difficulty).astype('int64')
    if whole == 'a' and model == 'grm_md':
        discrimination = np.round(discrimination).astype('int64')
    spelled = draw(st.sampled_from([model, model, model.upper(), model.capitalize()]))
    return {'model': model, 'spelled': spelled, 'difficulty': difficulty, 'discrimination': discrimination,
            'thetas': thetas, 'seed': draw(gen.seeds), 'how': draw(st.sampled_from(['int', 'generator'])),
            'default_model': model == 'grm' and draw(st.booleans()),
            'one_dim': n_items == 1 and draw(st.booleans())}


def check(case, ctx):
    b, a, theta, model = case['difficulty'], case['discrimination'], case['thetas'], case['model']
    n_items, k = b.shape
    n = theta.shape[-1]
    copies = [np.copy(x) for x in (b, a, theta)]
    kwargs = {} if case['default_model'] else {'model': case['spelled']}

    def run(seed):
        return ctx.call(create_synthetic_irt_polytomous, b[0] if case['one_dim'] else b, a, theta,
                        seed=seed, **kwargs)
    got = run(case['seed'] if case['how'] == 'int' else np.random.default_rng(case['seed']))
    ctx.shape('responses', got, (n_items, n))
    for before, now in zip(copies, (b, a, theta)):
        ctx.equal('inputs unchanged', now, before)
    ctx.equal('same seed, same data', run(case['seed']), got)

    u = np.random.default_rng(case['seed']).uniform(size=(n_items, n))
    top = k + 1 if model != 'gum' else (k - 1) // 2 + 1
    ctx.ok(got.min() >= 1 and got.max() <= top, f'category outside of 1..{top}')
    for i in range(n_items):
        ai = a[i] if np.ndim(a) else a
        if model == 'grm':
            prob = ref.grm_probs(theta, ai, b[i])
        elif model == 'grm_md':
            prob = ref.md_grm_probs(theta, ai, b[i])
        elif model == 'pcm':
            prob = ref.gpcm_probs(theta, ai, b[i])
        else:
            c = (k - 1) // 2
            prob = ref.ggum_probs(theta, ai, b[i][c], b[i][:c] - b[i][c])
        cum = np.cumsum(prob, axis=0)[:-1]
        want = 1 + (cum < u[i]).sum(axis=0)
        sure = np.all(np.abs(cum - u[i]) > 1e-9, axis=0)
        bad = sure & (want != got[i])
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            ctx.ok(False, f'{model}: response[{i},{j}] is {got[i, j]}, the model gives {want[j]} for uniform '
                          f'{u[i, j]:.6f}, cumulative {np.round(cum[:, j], 6)} ({bad.sum()} of {n} differ)')
    ctx.feature(model, f'categories {top}', 'generator' if case['how'] != 'int' else 'seed',
                'scalar' if not np.ndim(a) else 'array')
    ctx.nontrivial(len(np.unique(got)) >= 2)


PROP = Property(
    'C02', 'Random model (GRM, PCM, GGUM, multidimensional GRM), thresholds, discrimination, abilities, seed. '
           'Non-trivial: at least two categories occur.',
    [Sub('inverse_cdf', cases(), check, quick=150, thorough=60)],
    ['numpy.random.default_rng(seed).uniform is the documented randomness source'])
