"""C15: three parameter model by marginal maximum likelihood."""
import numpy as np
from hypothesis import strategies as st

from harness import est, gen, ref
from harness.core import Property, Skip, Sub
from harness.props.c13 import block_gain
from girth import threepl_mml

MISSING = ref.MISSING


@st.composite
def cases(draw, long=False, large=False):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(3, 7)), draw(st.integers(60, 200))
    if long:
        items, persons = draw(st.integers(50, 110)), draw(st.integers(15, 25))
    if large:
        items, persons = draw(st.integers(2, 4)), draw(st.integers(700, 2600))
    theta = gen.abilities(rng, persons, draw(st.sampled_from(['normal', 'skew', 'bimodal'])))
    b, a = gen.dich_items(rng, items, b_max=1.6)
    c = rng.uniform(0, .3, items)
    p = np.array([ref.threepl(theta, *x) for x in zip(a, b, c)])
    data = (rng.uniform(size=p.shape) < p).astype('int64')
    data = gen.add_missing(rng, data, draw(st.sampled_from([0, 0, .1, .3])))
    data = gen.ensure_categories(rng, data, [2] * items)
    if draw(st.integers(0, 6)) == 0:
        data[:, 0] = MISSING
        data = gen.ensure_categories(rng, data, [2] * items)
    spec = draw(est.long_spec(lut=False) if long else est.fit_spec(lut=False, latent=False))
    return {'data': data, 'spec': spec}


def check(case, ctx):
    data, spec = case['data'], case['spec']
    codes = np.where(data == MISSING, -1, data)
    result = ctx.call(threepl_mml, data.copy(), est.options(spec))
    n = data.shape[0]
    a, b, c = (ctx.shape(name, result[name], (n,)) for name in ('Discrimination', 'Difficulty', 'Guessing'))
    ctx.ok((a >= .25 - 1e-6).all() and (a <= 4 + 1e-6).all(), f'discrimination outside of [0.25, 4]: {a}')
    ctx.ok((c >= -1e-6).all() and (c <= .33 + 1e-6).all(), f'guessing outside of [0, 0.33]: {c}')
    ctx.ok((np.abs(b) <= 6 + 1e-6).all(), f'difficulty outside of [-6, 6]: {b}')
    if any(not (row == v).any() for row in codes for v in (0, 1)):
        raise Skip('an item with one kind of answer')
    theta, weight, density = est.grid(spec)
    dw = weight * density
    p = [x[0] for x in est.tail_proportions(codes)]

    def location(i, x):
        return est.solve_location(x[0], (p[i] - x[1]) / (1 - x[1]), theta, dw)

    def prob(i):
        def inner(x):
            right = ref.threepl(theta, x[0], location(i, x), x[1])
            return np.array([1 - right, right])
        return inner
    probs = []
    for i in range(n):
        if abs(location(i, (a[i], c[i]))) < 5.9:
            share = c[i] + (1 - c[i]) * float(np.sum(ref.logistic(a[i] * (theta - b[i])) * dw))
            ctx.close('expected proportion correct', share, p[i], atol=3e-4)
        else:
            ctx.feature('difficulty beyond the search range')
        right = ref.threepl(theta, a[i], b[i], c[i])
        probs.append(np.array([1 - right, right]))
    fit = est.Fit(codes, probs, dw)
    settled = range(n) if spec.get('max_iteration') is None else [n - 1]
    for i in settled:
        gain = block_gain(fit, i, prob(i), np.array([a[i], c[i]]), [(.25, 4), (0, .33)])
        ctx.atmost('log likelihood gained by changing discrimination and guessing of an item', gain, 0.0, .5)
    est.missing_features(ctx, data)
    est.size_feature(ctx, data)
    est.option_features(ctx, spec)
    est.iteration_feature(ctx, spec)
    ctx.nontrivial(((a > .26) & (a < 3.99)).any())


PROP = Property(
    'C15', 'Simulated data with guessing (3-7 items, 60-200 respondents), missing entries, wholly missing '
           'respondents, priors, quadratures and iteration limits. Non-trivial: some discrimination is off its bounds.',
    [Sub('three_parameter', cases(), check, quick=25, thorough=60, axes={'data': ('item', 'person')},
         minimum={'item': 2}),
     Sub('large', cases(large=True), check, quick=3, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2}),
     Sub('long', cases(True), check, quick=3, thorough=25, axes={'data': ('item', 'person')}, minimum={'item': 2})],
    ['with an iteration limit only the item estimated last is judged for optimality'])
