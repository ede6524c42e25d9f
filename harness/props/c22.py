"""C22: symmetries of the estimators."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from harness import est, gen, ref
from harness.core import Property, Skip, Sub
import girth

MISSING = ref.MISSING
DICH = ('rasch_mml', 'onepl_mml', 'twopl_mml', 'twopl_mml_eap', 'rasch_jml', 'onepl_jml', 'twopl_jml')
POLY = ('grm_mml', 'grm_mml_eap', 'grm_jml')
MARGINAL = ('rasch_mml', 'onepl_mml', 'twopl_mml', 'twopl_mml_eap', 'grm_mml', 'grm_mml_eap')


@st.composite
def cases(draw, relations):
    relation = draw(st.sampled_from(relations))
    pool = {'reversal': DICH + POLY, 'order': DICH + POLY + ('threepl_mml', 'pcm_mml', 'pcm_jml'),
            'replication': MARGINAL[:3] + ('grm_mml', 'rasch_jml', 'onepl_jml', 'twopl_jml'),
            'relabel': POLY + ('pcm_mml', 'pcm_jml', 'gum_mml'), 'bool': DICH + ('grm_mml', 'pcm_mml', 'threepl_mml'),
            'twin': DICH, 'shift': ('rasch_mml', 'onepl_mml', 'twopl_mml', 'grm_mml'), 'same': ('twopl_mml',),
            'items': ('rasch_mml', 'onepl_mml', 'rasch_jml', 'onepl_jml', 'twopl_jml', 'grm_jml')}[relation]
    model = draw(st.sampled_from(pool))
    rng = gen.draw_rng(draw)
    dich = model in DICH or model == 'threepl_mml' or relation == 'bool'
    # two categories do not fix the marginal proportion of an unlimited threshold: enough of each is present
    data, counts = draw(est.poly_data('pcm' if model.startswith('pcm') else 'grm', n_items=(4, 6), n=(90, 160),
                                      k=(2, 2) if dich else (3, 4), start=(0,), min_count=8, spread=(1.0,), mixed=relation != 'reversal',
                                      missing=(0,) if relation == 'bool' else (0, 0, .12)))
    spec = {'quad': draw(st.sampled_from([None, None, {'bounds': (-5.0, 5.0), 'n': 31}, {'bounds': (-4.0, 4.0), 'n': 25}])),
            'dist': None if draw(st.booleans()) else draw(gen.distributions(('norm', 'mix') if relation == 'reversal' else ('norm', 't', 'mix'))),
            'use_LUT': draw(st.sampled_from([None, False, True]))}
    return {'relation': relation, 'model': model, 'data': data, 'spec': spec, 'order': rng.permutation(data.shape[1]),
            'item_order': rng.permutation(data.shape[0]), 'amount': draw(st.sampled_from([-1, 1, 2, 7, 90, 1000])),
            'times': draw(st.sampled_from([2, 3, 100, 300])), 'gaps': np.cumsum(rng.integers(1, draw(st.sampled_from([5, 5, 120, 3000])), 6)), 'prior_shift': draw(st.sampled_from([-.75, -.5, .25, .6])),
            'dtype': draw(st.sampled_from(['int8', 'int16', 'int32', 'float64', 'uint8']))}


@st.composite
def easy_or_hard(draw):
    """A scale reversed, one of whose items lies out of reach of most respondents."""
    case = draw(cases(('reversal',)))
    rng = gen.draw_rng(draw)
    model = draw(st.sampled_from(['twopl_mml', 'twopl_mml', 'grm_mml', 'onepl_mml', 'rasch_mml', 'twopl_mml_eap', 'grm_mml_eap']))
    data, n = case['data'], case['data'].shape[1]
    if model in DICH:
        data = np.where(data == MISSING, MISSING, np.minimum(data, 1))
    top = int(data.max())
    # the rest of the test tells respondents apart; the item depends on it weakly
    rest = stats.zscore(np.where(data[1:] == MISSING, 0, data[1:]).sum(axis=0) + rng.uniform(-.1, .1, n))
    slope = rng.uniform(.3, .9)
    hard = rng.uniform(3.5, 5.5)
    at_top = rng.uniform(size=n) < ref.logistic(slope * (rest - hard))
    lowest = rng.integers(0, top, n) if top > 1 else np.zeros(n, 'int64')
    data[0] = np.where(at_top, top, lowest)
    data[0, rng.choice(n, top + 1, replace=False)] = np.arange(top + 1)
    if draw(st.booleans()):
        data[0] = top - data[0]
    return dict(case, data=data, model=model, reach=5.6)


def estimate(ctx, model, data, options):
    result = ctx.call(getattr(girth, model), data, options=options)
    out = {'Discrimination': np.asarray(result['Discrimination'], float)}
    if model == 'gum_mml':
        out.update(Delta=result['Delta'], Tau=result['Tau'])
    else:
        out['Difficulty'] = np.asarray(result['Difficulty'], float)
    if 'Guessing' in result:
        out['Guessing'] = result['Guessing']
    if 'Ability' in result:
        out['Ability'] = np.asarray(result['Ability'])
    return out


def level(case, result):
    """Log likelihood of the fit, for estimators that are optimised numerically."""
    data, model = case['data'], case['model']
    codes, _ = est.recode(data)
    theta, weight, density = est.grid(case['spec'])
    probs = []
    for i in range(data.shape[0]):
        a = result['Discrimination'][i]
        if model == 'threepl_mml':
            right = ref.threepl(theta, a, result['Difficulty'][i], result['Guessing'][i])
            probs.append(np.array([1 - right, right]))
        else:
            probs.append(ref.gpcm_probs(theta, a, result['Difficulty'][i]))
    return ref.marginal_loglik(ref.pattern_loglik(codes, probs), weight * density).sum()


def judge(ctx, name, model, got, want, tol):
    if model in ('twopl_jml', 'grm_jml'):
        # the joint search of both parameters stops early, and depends on the order of the sums
        tol = max(tol, .12) if tol > 1e-6 else tol
    if tol > 1e-6 and model in ('twopl_mml', 'twopl_mml_eap', 'grm_mml', 'grm_mml_eap') and max(
            np.max(got['Discrimination']), np.max(want['Discrimination'])) > 4.5:
        # few items: one of them takes the latent scale over, and several such solutions are about as likely
        ctx.feature('discrimination without limit')
        return
    for key in want:
        limit = tol * (1 if key != 'Difficulty' else 2)
        ctx.close(f'{name}: {key}', got[key], want[key], atol=limit)


def check(case, ctx):
    relation, model, data, spec = case['relation'], case['model'], case['data'], case['spec']
    _, counts = est.recode(data)
    options = est.options(spec)
    base = estimate(ctx, model, data.copy(), options)
    # an estimate on its bound, or a threshold out of the range, is not free to follow
    reach = np.nanmax(np.abs(base.get('Difficulty', 0)))
    inner = reach < case.get('reach', 4.5)
    name = f'{relation} {model}'
    if relation == 'order':
        other = estimate(ctx, model, data[:, case['order']], options)
        if model in ('threepl_mml', 'pcm_mml'):
            ctx.close(f'{name}: log likelihood', level(case, other), level(case, base), atol=.1)
        else:
            want = dict(base)
            if 'Ability' in want:
                want['Ability'] = want['Ability'][case['order']]
            judge(ctx, name, model, other, want, 5e-2 if model == 'pcm_jml' else 1e-2)
    elif relation == 'bool':
        # the same answers in another type of number
        for dtype in ('bool', case['dtype']):
            judge(ctx, f'{name} as {dtype}', model, estimate(ctx, model, data.astype(dtype), options), base, 1e-9)
    elif relation == 'relabel':
        shifted = np.where(data == MISSING, MISSING, data + case['amount'])
        judge(ctx, f"{name} by {case['amount']}", model, estimate(ctx, model, shifted, options), base, 1e-9)
        if len(set(counts)) == 1 and not model.endswith('jml'):
            spread = np.where(data == MISSING, MISSING, case['gaps'][np.maximum(data, 0)])
            judge(ctx, f'{name} with gaps', model, estimate(ctx, model, spread, options), base, 1e-9)
            ctx.feature('gaps')
    elif relation == 'twin':
        twice = data.copy()
        twice[1] = twice[0]
        both = estimate(ctx, model, twice, options)
        b = both['Difficulty']
        ctx.close(f'{name}: difficulty of identical items', b[0], b[1], atol=1e-2 if model[:5] in ('rasch', 'onepl') else .1)
    elif relation == 'same':
        graded = estimate(ctx, 'grm_mml', data.copy(), options)
        graded['Difficulty'] = graded['Difficulty'][:, 0]
        judge(ctx, 'two parameter as graded', model, graded, base, 1e-9)
        eap = estimate(ctx, 'twopl_mml_eap', data.copy(), options)
        graded = estimate(ctx, 'grm_mml_eap', data.copy(), options)
        graded['Difficulty'] = graded['Difficulty'][:, 0]
        judge(ctx, 'two parameter as graded (eap)', model, graded, eap, 1e-9)
    elif not inner:
        raise Skip
    elif relation == 'reversal':
        _, weight, density = est.grid(spec)
        if abs(np.sum(weight * density) - 1) > 2e-4:
            raise Skip  # the quadrature cuts the prior off: proportions are not complementary
        flipped = np.where(data == MISSING, MISSING, max(counts) - 1 - data)
        other = estimate(ctx, model, flipped, options)
        b = -base['Difficulty']
        want = {'Discrimination': base['Discrimination'], 'Difficulty': b if b.ndim == 1 else b[:, ::-1]}
        if 'Ability' in base:
            want['Ability'] = -base['Ability']
        judge(ctx, name, model, other, want, 3e-2)
        if reach > 4:
            ctx.feature('a difficulty beyond 4')
    elif relation == 'replication':
        times = case['times'] if model in ('rasch_mml', 'onepl_mml', 'rasch_jml', 'onepl_jml') else 2
        other = estimate(ctx, model, np.tile(data, times), options)
        ctx.feature(f'{times} times')
        want = dict(base)
        if 'Ability' in want:
            want['Ability'] = np.tile(want['Ability'], times)
        judge(ctx, name, model, other, want, 1e-2)
    elif relation == 'items':
        other = estimate(ctx, model, data[case['item_order']], options)
        a = base['Discrimination']
        want = {'Discrimination': a if a.ndim == 0 else a[case['item_order']],
                'Difficulty': base['Difficulty'][case['item_order']]}
        judge(ctx, name, model, other, want, 5e-2)
    elif relation == 'shift':
        # the location of the latent scale is a convention
        by = case['prior_shift']
        moved = {'use_LUT': bool(spec['use_LUT']), 'distribution': stats.norm(by, 1).pdf,
                 'quadrature_bounds': (-4.5 + by, 4.5 + by), 'quadrature_n': 41}
        fixed = {'use_LUT': bool(spec['use_LUT'])}
        base = estimate(ctx, model, data.copy(), fixed)
        if np.nanmax(np.abs(base['Difficulty'])) > 4.5:
            raise Skip
        other = estimate(ctx, model, data.copy(), moved)
        want = {'Discrimination': base['Discrimination'], 'Difficulty': base['Difficulty'] + by}
        if 'Ability' in base:
            want['Ability'] = base['Ability'] + by
        judge(ctx, name, model, other, want, 2e-2)
    est.missing_features(ctx, data)
    est.option_features(ctx, spec)
    ctx.feature(relation, model)
    ctx.nontrivial()


EXACT = ('bool', 'relabel', 'same', 'twin')
CLOSE = ('order', 'reversal', 'replication', 'items', 'shift')
AXES = {'data': ('item', 'x')}
PROP = Property(
    'C22', 'Simulated data for fourteen estimators; respondents and items reordered, respondents doubled (or taken hundreds of times), the scale '
           'reversed, shifted and relabelled, another type of number, identical items, another estimator of the same '
           'model. Non-trivial: every case.',
    [Sub('coding', cases(EXACT), check, quick=18, thorough=60),
     Sub('symmetry', cases(CLOSE), check, quick=18, thorough=60),
     Sub('extreme', easy_or_hard(), check, quick=6, thorough=40)],
    ['symmetric priors for the reversal', 'difficulties within 4.5 (5.6 where an item is meant to be extreme; the search range is 6) and discriminations of marginal models within 4.5 (5)'])
