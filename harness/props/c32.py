"""C32: procrustes rotation."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Property, Sub
from girth.common import procrustes_rotation


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    rows, columns = draw(st.integers(1, 15)), draw(st.integers(1, 6))
    if draw(st.integers(0, 5)) == 0:
        rows, columns = rows * 20, columns + 8
    target = rng.normal(size=(rows, columns)) * draw(st.sampled_from([.01, 1.0, 30.0]))
    turn = np.linalg.qr(rng.normal(size=(columns, columns)))[0]
    kind = draw(st.sampled_from(['exact', 'noisy', 'unrelated', 'deficient']))
    collected = target @ turn.T
    if kind == 'noisy':
        collected = collected + rng.normal(size=target.shape) * .3 * np.abs(target).max()
    elif kind == 'unrelated':
        collected = rng.normal(size=target.shape)
    elif kind == 'deficient':
        collected[:, 0] = 0.0
    return {'target': target, 'collected': collected, 'turn': turn, 'kind': kind, 'seed': int(rng.integers(2**31)),
            'scale': draw(st.sampled_from([.1, 25.0]))}


def check(case, ctx):
    target, collected = case['target'], case['collected']
    n = target.shape[1]
    before = (target.copy(), collected.copy())
    rotation = ctx.shape('rotation', ctx.call(procrustes_rotation, target, collected), (n, n))
    ctx.equal('target unchanged', target, before[0])
    ctx.equal('collected unchanged', collected, before[1])
    ctx.close('orthogonality', rotation.T @ rotation, np.eye(n), atol=1e-9)

    def loss(matrix):
        return np.square(target - collected @ matrix).sum()
    size = np.square(target).sum() + np.square(collected).sum()
    # the smallest loss of any orthogonal matrix is known
    best = size - 2 * np.linalg.svd(collected.T @ target, compute_uv=False).sum()
    ctx.close('squared error over its smallest value', loss(rotation) / size, best / size, atol=1e-9)
    rng = np.random.default_rng(case['seed'])
    for _ in range(3):
        other = np.linalg.qr(rng.normal(size=(n, n)))[0]
        ctx.ok(loss(rotation) <= loss(other) + 1e-8 * size, 'another rotation is closer')
    rank = np.linalg.svd(collected.T @ target, compute_uv=False)
    if rank[-1] > 1e-6 * rank[0]:
        ctx.feature('unique')
        ctx.close('unit of the collected matrix', ctx.call(procrustes_rotation, target, collected * case['scale']), rotation,
                  atol=1e-6)
        ctx.close('the way back', ctx.call(procrustes_rotation, collected, target), rotation.T, atol=1e-6)
        if case['kind'] == 'exact':
            ctx.close('rotation recovered', rotation, case['turn'], atol=1e-6)
            ctx.feature('recovered')
    ctx.feature(case['kind'])
    ctx.nontrivial(n > 1)


PROP = Property(
    'C32', 'Random matrix pairs (1-300 rows, 1-14 columns): exact rotations, noisy, unrelated and rank deficient ones. '
           'Non-trivial: more than one column.',
    [Sub('rotation', cases(), check, quick=250, thorough=100)])
