"""C31: hyperspherical coordinates."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Property, Sub
from girth.common import hyperspherical_angles, hyperspherical_vector


@st.composite
def angle_cases(draw):
    rng = gen.draw_rng(draw)
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 40)))
    angles = rng.uniform(0, np.pi, n)
    angles[-1] = rng.uniform(0, 2 * np.pi)
    special = draw(st.integers(0, 3))
    if special == 0:
        where = rng.uniform(size=n) < .3
        angles[where] = rng.choice([0, np.pi / 2, np.pi], where.sum())
    if special == 1:
        angles = rng.uniform(-12, 12, n)
    return {'angles': angles, 'free': special == 1, 'list': draw(st.booleans())}


def check_angles(case, ctx):
    angles = case['angles']
    before = angles.copy()
    vector = ctx.call(hyperspherical_vector, angles.tolist() if case['list'] else angles)
    ctx.equal('input unchanged', angles, before)
    n = angles.size
    want = []
    for k in range(n + 1):
        value = 1.0
        for angle in angles[:k]:
            value *= np.sin(angle)
        want.append(value * (np.cos(angles[k]) if k < n else 1.0))
    ctx.close('vector', vector, want, atol=1e-12)
    ctx.close('length', float(np.linalg.norm(vector)), 1.0, atol=1e-12)
    back = ctx.call(hyperspherical_angles, np.array(vector))
    ctx.shape('angles', back, (n,))
    ctx.ok(np.all(back >= 0) and np.all(back[:-1] <= np.pi) and back[-1] <= 2 * np.pi, f'angles out of range {back}')
    ctx.close('vector of its own angles', ctx.call(hyperspherical_vector, back), vector, atol=1e-6)
    if not case['free'] and np.min(np.abs(np.sin(angles[:-1])), initial=1.0) > .2 and abs(np.sin(angles[-1])) > 1e-3:
        ctx.feature('angles recovered')
        ctx.close('angles of the vector', back, angles, atol=1e-6)
    ctx.feature('any angles' if case['free'] else 'canonical angles', 'two dimensions' if n == 1 else 'more dimensions')
    ctx.nontrivial(n > 1)


@st.composite
def vector_cases(draw):
    rng = gen.draw_rng(draw)
    n = draw(st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(13, 40)))
    vector = rng.normal(size=n) * draw(st.sampled_from([1e-3, 1.0, 50.0]))
    vector[rng.uniform(size=n) < draw(st.sampled_from([0, 0, .3, .7]))] = 0.0
    if not vector.any():
        vector[draw(st.integers(0, n - 1))] = rng.choice([-2.0, .5])
    if draw(st.integers(0, 4)) == 0:
        vector = np.where(vector > 0, 1, np.where(vector < 0, -2, 0))
    return {'vector': vector, 'scale': draw(st.sampled_from([.01, 3.0, 1000.0]))}


def check_vector(case, ctx):
    vector = case['vector']
    before = vector.copy()
    angles = ctx.call(hyperspherical_angles, vector)
    ctx.equal('input unchanged', vector, before)
    ctx.shape('angles', angles, (vector.size - 1,))
    ctx.ok(np.all(angles >= 0) and np.all(angles[:-1] <= np.pi) and angles[-1] <= 2 * np.pi, f'angles out of range {angles}')
    unit = ctx.call(hyperspherical_vector, angles)
    ctx.close('direction', unit, vector / np.linalg.norm(vector), atol=1e-6)
    ctx.close('angles do not depend on the length', ctx.call(hyperspherical_angles, vector * case['scale']), angles, atol=1e-6)
    ctx.feature('zeros' if (vector == 0).any() else 'no zeros', str(vector.dtype),
                'last component negative' if vector[-1] < 0 else 'last component not negative')
    if vector[-2:].tolist() == [0, 0]:
        ctx.feature('trailing zeros')
    ctx.nontrivial(np.count_nonzero(vector) > 1)


PROP = Property(
    'C31', 'Random angles (1-40, canonical and any, with quarter turns) and random vectors (2-40 dimensions, with zeros, '
           'integers and any length). Non-trivial: more than one angle, more than one component.',
    [Sub('from_angles', angle_cases(), check_angles, quick=250, thorough=100),
     Sub('from_vector', vector_cases(), check_vector, quick=250, thorough=100)],
    ['at least two dimensions'])
