"""C11: Rasch and one parameter logistic models by marginal maximum likelihood."""
import numpy as np
from hypothesis import strategies as st

from harness import est, gen, ref
from harness.core import Property, Sub
from girth import onepl_mml, rasch_mml

MISSING = ref.MISSING


@st.composite
def cases(draw, one):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(2, 9)), draw(st.integers(20, 120))
    kind = draw(st.sampled_from(['plain', 'plain', 'plain', 'plain', 'repeated', 'long', 'large']))
    if kind == 'long':
        items, persons = draw(st.integers(50, 140)), draw(st.integers(15, 40))
    if kind == 'large':
        items, persons = draw(st.integers(2, 12)), draw(st.integers(700, 3000))
    theta = gen.abilities(rng, persons, draw(st.sampled_from(['normal', 'skew', 'bimodal', 'uniform'])))
    common = draw(st.sampled_from([.1, .4, .7, 1.0, 1.5, 2.5, 4.0, 8.0]))
    b = rng.uniform(-2, 2, items)
    data = (rng.uniform(size=(items, persons)) < ref.logistic(common * (theta[None] - b[:, None]))).astype('int64')
    data = gen.add_missing(rng, data, draw(st.sampled_from([0, 0, .15, .4])))
    for i in range(items):
        if not np.isin(data[i], (0, 1)).any():
            data[i, 0] = 1
    if draw(st.integers(0, 5)) == 0:
        # an item everybody who saw it answered the same way
        data[0] = np.where(data[0] == MISSING, MISSING, draw(st.integers(0, 1)))
    if draw(st.integers(0, 5)) == 0:
        data[:, 0] = MISSING
        data[:, 1] = 0
        data[:, 2] = 1
    if kind == 'repeated':
        data = gen.repeat(rng, data)
    return {'data': data, 'spec': draw(est.mml_options(lut=False)),
            'alpha': None if one else draw(st.sampled_from([.3, .7, 1, 1.0, 1.7, 3.0, 6.0])),
            'default': draw(st.integers(0, 5)) == 0}


def proportions(data):
    right, wrong = (data == 1).sum(axis=1), (data == 0).sum(axis=1)
    return right / (right + wrong)


def difficulties(ctx, got, a, p, theta, dw):
    want = np.array([est.solve_location(a, x, theta, dw) for x in p])
    # where no difficulty in the range can be told from another any is as good
    same = [abs(float(np.sum((ref.logistic(a * (theta - x)) - ref.logistic(a * (theta - y))) * dw))) < 1e-7
            for x, y in zip(got, want)]
    ctx.ok(np.all(np.abs(got) <= 6 + 1e-9), f'difficulties outside of [-6, 6]: {got}')
    ctx.close('difficulty', np.where(same, want, got), want, atol=6e-4)
    return want


def size_features(ctx, data):
    ctx.feature('over 50 items' if data.shape[0] >= 50 else 'over 120 respondents' if data.shape[1] > 120 else 'small')


def check_rasch(case, ctx):
    data, spec, alpha = case['data'], case['spec'], case['alpha']
    size_features(ctx, data)
    if case['default']:
        spec, alpha = {}, 1
        result = ctx.call(rasch_mml, data.copy())
    elif case['alpha'] == 1.7:
        result = ctx.call(onepl_mml, data.copy(), alpha, est.options(spec))
    else:
        result = ctx.call(rasch_mml, data.copy(), alpha, est.options(spec))
    ctx.equal('discrimination as given', np.asarray(result['Discrimination'], float), float(alpha))
    theta, w, density = est.grid(spec)
    ctx.shape('Difficulty', result['Difficulty'], (data.shape[0],))
    difficulties(ctx, result['Difficulty'], alpha, proportions(data), theta, w * density)
    est.missing_features(ctx, data)
    est.option_features(ctx, spec)
    ctx.nontrivial(np.ptp(result['Difficulty']) > 1e-3)


def check_one(case, ctx):
    data, spec = case['data'], case['spec']
    size_features(ctx, data)
    options = None if case['default'] else est.options(spec)
    if case['default']:
        spec = {}
    result = ctx.call(onepl_mml, data.copy(), options=options)
    a = float(result['Discrimination'])
    ctx.ok(.25 - 1e-6 <= a <= 10 + 1e-6, f'discrimination {a} outside of [0.25, 10]')
    theta, w, density = est.grid(spec)
    dw = w * density
    p = proportions(data)
    ctx.shape('Difficulty', result['Difficulty'], (data.shape[0],))
    difficulties(ctx, result['Difficulty'], a, p, theta, dw)
    codes = np.where(data == MISSING, -1, data)

    def loglik(alpha):
        probs = []
        for x in p:
            q = ref.logistic(alpha * (theta - est.solve_location(alpha, x, theta, dw)))
            probs.append(np.array([1 - q, q]))
        return ref.marginal_loglik(ref.pattern_loglik(codes, probs), dw).sum()
    here = loglik(a)
    gain = est.local_gain(here, loglik, a, .25, 10, (.9, .97, 1.03, 1.1))
    ctx.atmost('log likelihood gained by another discrimination nearby', gain, 0.0, 5e-3)
    grid = np.exp(np.linspace(np.log(.25), np.log(10), 17))
    values = np.array([loglik(x) for x in grid])
    peaks = int((np.diff(np.sign(np.diff(values))) < 0).sum()) + int(values[0] > values[1]) + int(values[-1] > values[-2])
    if peaks <= 1:
        ctx.feature('single peak')
        ctx.atmost('log likelihood gained by another discrimination', values.max() - here, 0.0, 5e-3)
    est.missing_features(ctx, data)
    est.option_features(ctx, spec)
    ctx.feature('at a bound' if a < .251 or a > 9.99 else 'interior')
    ctx.nontrivial(.26 < a < 9.9)


AXES = {'data': ('item', 'person')}
PROP = Property(
    'C11', 'Simulated tests (2-9 items, 20-120 respondents; some of 50-140 items, some with answers given hundreds of times over) with missing entries, unanimous items, wholly missing '
           'and perfect respondents, every prior and quadrature. Non-trivial: difficulties differ (Rasch); the common '
           'discrimination is interior (1PL).',
    [Sub('rasch', cases(False), check_rasch, quick=100, thorough=60, axes=AXES),
     Sub('one_parameter', cases(True), check_one, quick=30, thorough=60, axes=AXES, minimum={'item': 2})])
