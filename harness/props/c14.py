"""C14: graded unfolding model by marginal maximum likelihood."""
import numpy as np
from hypothesis import strategies as st

from harness import est, gen, ref
from harness.core import Property, Sub
from harness.props.c13 import block_gain
from girth import gum_mml

SYMMETRIC = ('norm', 't', 'mix')


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(3, 6)), draw(st.integers(70, 180))
    k = draw(st.integers(2, 4))
    theta = gen.abilities(rng, persons, 'normal')
    _, a = gen.dich_items(rng, items, a_low=.7, a_high=2.2)
    if draw(st.integers(0, 3)) == 0:
        a = a * 6  # discriminations on their bounds
    delta = rng.uniform(-1.5, 1.5, items)
    size = draw(st.sampled_from(['usual'] * 5 + ['persons', 'categories']))
    if size == 'persons':
        items, persons = 3, draw(st.integers(700, 1800))
        a, delta, theta = a[:3], delta[:3], gen.abilities(rng, persons, 'normal')
    elif size == 'categories':
        k = draw(st.integers(5, 7))
    counts = [k] * items
    if k > 2 and draw(st.booleans()):
        counts = [int(x) for x in rng.integers(2, k + 1, items)]
        counts[int(rng.integers(0, items))] = k
    probs = [ref.ggum_probs(theta, a[i], delta[i], np.sort(rng.uniform(-1.6, .2, counts[i] - 1))) for i in range(items)]
    data = gen.simulate(rng, probs)
    data = gen.ensure_categories(rng, gen.add_missing(rng, data, draw(st.sampled_from([0, 0, .12]))), counts)
    offset = draw(st.sampled_from([0, 1, 3]))
    data = np.where(data == ref.MISSING, data, data + offset)
    spec = draw(est.fit_spec(SYMMETRIC, lut=False, symmetric=True))
    if spec.get('estimate_distribution'):
        spec['max_iteration'] = draw(st.sampled_from([None, None, 1, 2, 2, 3]))
    return {'data': data, 'spec': spec,
            'sign': (draw(st.integers(0, items - 1)), draw(st.sampled_from([1, -1, 1.0, -2, 3]))),
            'again': draw(st.booleans()), 'other_sign': (draw(st.integers(-1, items - 1)), draw(st.sampled_from([1, -1, .5, -3]))),
            'default_sign': draw(st.integers(0, 4)) == 0}


def judge(case, ctx):
    data, spec, sign = case['data'], case['spec'], case['sign']
    codes, counts = est.recode(data)
    k = max(counts)
    if case['default_sign']:
        sign = (0, 1)
        result = ctx.call(gum_mml, data.copy(), options=est.options(spec))
    else:
        result = ctx.call(gum_mml, data.copy(), sign, options=est.options(spec))
    n = data.shape[0]
    a = ctx.shape('Discrimination', result['Discrimination'], (n,))
    delta = ctx.shape('Delta', result['Delta'], (n,))
    tau = ctx.shape('Tau', result['Tau'], (n, k - 1))
    full = ctx.shape('Difficulties', result['Difficulties'], (n, 2 * k - 1))
    ctx.shape('Ability', result['Ability'], (data.shape[1],))
    ctx.close('Difficulties', full, np.c_[tau, np.zeros(n), -tau[:, ::-1]] + delta[:, None], atol=1e-9)
    ctx.ok((a >= .25 - 1e-6).all() and (a <= 4 + 1e-6).all(), f'discrimination outside of [0.25, 4]: {a}')
    ctx.ok((np.abs(delta) <= 2 + 1e-6).all(), f'delta outside of [-2, 2]: {delta}')
    for i in range(n):
        ctx.ok(np.isfinite(tau[i, :counts[i] - 1]).all() and np.isnan(tau[i, counts[i] - 1:]).all(),
               f'item {i} has {counts[i]} categories but thresholds {tau[i]}')
    ctx.ok((np.abs(tau[np.isfinite(tau)]) <= 6 + 1e-6).all(), f'tau outside of [-6, 6]: {tau}')
    ctx.ok(np.sign(delta[sign[0]]) in (0.0, np.sign(sign[1])), f'delta {delta} with sign {sign}')
    return codes, counts, result, a, delta, tau


def check(case, ctx):
    data, spec = case['data'], case['spec']
    codes, counts, result, a, delta, tau = judge(case, ctx)
    n = data.shape[0]
    if case['again']:
        # asking for another orientation reflects the solution and changes nothing else
        item, up = case['other_sign']
        other = ctx.call(gum_mml, data.copy(), (item, up), options=est.options(spec))
        ctx.ok(np.sign(other['Delta'][item]) in (0.0, np.sign(up)), f"delta {other['Delta']} with sign {(item, up)}")
        flip = -1.0 if np.dot(other['Delta'], delta) < 0 else 1.0
        ctx.close('delta of the reflected solution', other['Delta'], flip * delta, atol=1e-6)
        ctx.close('discrimination of the reflected solution', other['Discrimination'], a, atol=1e-6)
        ctx.close('tau of the reflected solution', other['Tau'], tau, atol=1e-6)
        ctx.close('abilities of the reflected solution', other['Ability'], flip * np.asarray(result['Ability']),
                  atol=1e-6)
        ctx.feature('asked for the other orientation')
    theta, dw = est.final_density(spec, result)

    def prob(x):
        return ref.ggum_probs(theta, x[0], x[1], x[2:])
    points = [np.r_[a[i], delta[i], tau[i, :counts[i] - 1]] for i in range(n)]
    fit = est.Fit(codes, [prob(x) for x in points], dw)
    ctx.close('Ability', result['Ability'],
              ref.eap(ref.pattern_loglik(codes, [prob(x) for x in points]), dw, theta), atol=1e-5)
    start = est.Fit(codes, [prob(np.r_[1.0, 0.0, np.linspace(-1, 1, counts[i] - 1)]) for i in range(n)], dw)
    ctx.ok(fit.loglik >= start.loglik - 1e-3, f'log likelihood {fit.loglik} is below that of the start {start.loglik}')
    settled = range(n) if spec.get('max_iteration') is None else []
    for i in settled:
        gain = block_gain(fit, i, prob, points[i], [(.25, 4), (-2, 2)] + [(-6, 6)] * (counts[i] - 1))
        ctx.atmost("log likelihood gained by changing one item's parameters", gain, 0.0, 1.0)
    est.missing_features(ctx, data)
    est.size_feature(ctx, data)
    est.option_features(ctx, spec)
    est.iteration_feature(ctx, spec)
    ctx.feature(f'{max(counts)} categories', 'sign as asked', 'unequal categories' if len(set(counts)) > 1 else 'equal categories')
    ctx.nontrivial((np.abs(delta) > 1e-2).any())


def check_recorded(case, ctx):
    """A fixed case: delta is reflected, an asymmetric prior is not (recorded finding)."""
    options = {'distribution': ref.distribution(case['dist'])}
    up = gum_mml(case['data'], (0, 1), options)['AIC']['final']
    down = gum_mml(case['data'], (0, -1), options)['AIC']['final']
    theta, w, density = est.grid({'dist': case['dist']})
    ctx.ok(abs(up - down) < 1e-3, f'asymmetric prior: AIC is {max(up, down):.2f} or {min(up, down):.2f} '
                                  'depending on the sign asked for')


PROP = Property(
    'C14', 'Simulated unfolding data (3-6 items, 70-180 respondents, 2-4 categories) with missing entries, symmetric '
           'priors and quadratures, any item and sign for the orientation, estimated latent distribution. '
           'Non-trivial: some delta is away from zero.',
    [Sub('unfolding', cases(), check, quick=18, thorough=60, axes={}),
     Sub('recorded', st.nothing(), check_recorded, quick=1, shards=0)],
    ['symmetric prior densities and quadrature bounds: only then is the model free to be reflected',
     'optimality is judged without an iteration limit, per item within one unit of log likelihood: the likelihood has flat ridges'])
