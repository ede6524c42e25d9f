"""C43: recovery of the parameters that generated the data."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Property, Sub
import girth
from girth.synthetic import create_synthetic_irt_dichotomous, create_synthetic_irt_polytomous

DICH = ('rasch_mml', 'onepl_mml', 'twopl_mml', 'twopl_mml_eap', 'rasch_conditional', 'rasch_jml', 'onepl_jml', 'twopl_jml',
        'threepl_mml')
POLY = ('grm_mml', 'grm_mml_eap', 'pcm_mml', 'grm_jml', 'pcm_jml', 'gum_mml')


@st.composite
def cases(draw, models):
    return {'model': draw(st.sampled_from(models)), 'seed': draw(gen.seeds), 'missing': draw(st.sampled_from([0.0, 0.0, .15])),
            'persons': draw(st.sampled_from([1200, 2000]))}


def truth(rng, model):
    """Item parameters a method of this kind should find."""
    items = int(rng.integers(10, 16))
    a = rng.uniform(.8, 1.8, items)
    if model.startswith(('rasch', 'onepl')):
        a = np.full(items, rng.uniform(.8, 1.6))
    if model in DICH:
        return a, rng.permutation(np.linspace(-1.6, 1.6, items)) + rng.uniform(-.2, .2, items)
    if model == 'gum_mml':
        delta = rng.permutation(np.linspace(-1.6, 1.6, items))
        tau = np.sort(rng.uniform(-1.6, -.2, (items, 2)), axis=1)
        return a, (delta, tau)
    if model.startswith('pcm'):
        return a, np.sort(rng.uniform(-1.6, 1.6, (items, 2)), axis=1)
    return a, np.array([gen.thresholds(rng, 2, 1.3, .5) for _ in range(items)])


def simulate(rng, model, a, b, persons):
    theta = rng.standard_normal(persons)
    seed = int(rng.integers(2**31))
    if model in DICH:
        return theta, create_synthetic_irt_dichotomous(b, a, theta, seed=seed)
    if model == 'gum_mml':
        delta, tau = b
        full = np.c_[tau, np.zeros((delta.size, 1)), -tau[:, ::-1]] + delta[:, None]
        return theta, create_synthetic_irt_polytomous(full, a, theta, model='gum', seed=seed)
    return theta, create_synthetic_irt_polytomous(b, a, theta, model='pcm' if model.startswith('pcm') else 'grm', seed=seed)


def rmse(x, y):
    return float(np.sqrt(np.mean(np.square(np.asarray(x, float) - y))))


def measures(case):
    """Distances from the truth, by name, for the run and the one that calls the estimator."""
    rng = np.random.default_rng(case['seed'])
    model = case['model']
    a, b = truth(rng, model)
    persons = case['persons'] if model not in ('grm_jml', 'pcm_jml') else case['persons'] // 2
    theta, data = simulate(rng, model, a, b, persons)
    if case['missing'] and model != 'rasch_conditional':
        data = gen.add_missing(rng, data.astype('int64'), case['missing'], keep_items=2)
    kwargs = {}
    if model.startswith('rasch'):
        kwargs['discrimination'] = float(a[0])
    if model == 'gum_mml':
        k = int(np.argmax(b[0]))
        kwargs['delta_sign'] = (k, 1)
        kwargs['options'] = {'max_iteration': 60}
    return rng, model, a, b, theta, data, kwargs


def check(case, ctx):
    rng, model, a, b, theta, data, kwargs = measures(case)
    result = ctx.call(getattr(girth, model), data, **kwargs)
    out = {}
    joint = model.endswith('jml')
    if model == 'gum_mml':
        out['delta'] = rmse(result['Delta'], b[0])
        out['tau'] = rmse(result['Tau'], b[1])
        out['discrimination'] = rmse(np.log(result['Discrimination']), np.log(a))
    else:
        found = np.asarray(result['Difficulty'], float)
        if model.startswith('rasch_c') or model == 'rasch_jml':
            out['difficulty'] = rmse(found - found.mean(), b - np.mean(b))
        elif joint:
            out['difficulty'] = 1 - np.corrcoef(found.ravel(), b.ravel())[0, 1]
        elif model == 'threepl_mml':
            out['difficulty'] = 1 - np.corrcoef(found, b)[0, 1]
        else:
            out['difficulty'] = rmse(found, b)
        if not model.startswith('rasch'):
            estimate = np.broadcast_to(np.asarray(result['Discrimination'], float), a.shape)
            if joint or model == 'threepl_mml':
                if not model.startswith('onepl'):
                    out['discrimination'] = 1 - np.corrcoef(np.log(estimate), np.log(a))[0, 1]
            else:
                out['discrimination'] = rmse(np.log(estimate), np.log(a))
    if 'Ability' in result:
        score = np.asarray(result['Ability'], float)
        if score.shape == theta.shape:
            good = np.isfinite(score)
            out['ability'] = 1 - np.corrcoef(score[good], theta[good])[0, 1]
    for key, value in out.items():
        limit = LIMITS[model][key]
        ctx.note(f'{model} {key}', value / limit)
        ctx.ok(np.isfinite(value) and value <= limit, f'{model}: distance of the {key} from the truth {value:.3g}, limit {limit}')
    ctx.feature(model, 'missing' if (data == ref.MISSING).any() else 'complete')
    ctx.nontrivial()


# two and a half times the largest distance seen in forty simulations each
LIMITS = {
    'rasch_mml': {'difficulty': .22}, 'onepl_mml': {'difficulty': .28, 'discrimination': .25},
    'twopl_mml': {'difficulty': .5, 'discrimination': .35, 'ability': .35},
    'twopl_mml_eap': {'difficulty': .35, 'discrimination': .33, 'ability': .35},
    'rasch_conditional': {'difficulty': .21}, 'rasch_jml': {'difficulty': .5}, 'onepl_jml': {'difficulty': .03},
    'twopl_jml': {'difficulty': .4, 'discrimination': .95}, 'threepl_mml': {'difficulty': .1, 'discrimination': .8},
    'grm_mml': {'difficulty': .3, 'discrimination': .3, 'ability': .3},
    'grm_mml_eap': {'difficulty': .3, 'discrimination': .28, 'ability': .3},
    'pcm_mml': {'difficulty': .29, 'discrimination': .27, 'ability': .25},
    'grm_jml': {'difficulty': .09, 'discrimination': .6}, 'pcm_jml': {'difficulty': .05, 'discrimination': .6},
    'gum_mml': {'delta': .33, 'tau': .35, 'discrimination': .28, 'ability': .28}}

PROP = Property(
    'C43', 'Responses of 1200-2000 respondents to 10-15 items simulated by GIRTH from known parameters, complete and with 15% '
           'missing, given to each estimator. Non-trivial: every case.',
    [Sub('dichotomous', cases(DICH), check, quick=5, thorough=100),
     Sub('polytomous', cases(POLY), check, quick=3, thorough=100)])
