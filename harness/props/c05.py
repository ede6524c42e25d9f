"""C05: responses that are missing carry no information."""
import numpy as np
from hypothesis import strategies as st

from harness import est, gen, ref
from harness.core import Property, Sub
from harness.props import c17
import girth

MISSING = ref.MISSING
DICH = ('rasch_mml', 'onepl_mml', 'twopl_mml', 'twopl_mml_eap', 'rasch_jml', 'onepl_jml', 'twopl_jml')
POLY = ('grm_mml', 'grm_mml_eap', 'pcm_mml', 'grm_jml', 'pcm_jml')


@st.composite
def cases(draw):
    model = draw(st.sampled_from(DICH + POLY))
    rng = gen.draw_rng(draw)
    if model in DICH:
        data, _ = draw(est.poly_data('grm', n_items=(3, 6), k=(2, 2), start=(0,), n=(60, 140), missing=(0, .1, .25)))
    else:
        data, _ = draw(est.poly_data('pcm' if model.startswith('pcm') else 'grm', n_items=(3, 5), k=(2, 4), n=(60, 120),
                                     missing=(0, .1, .25)))
    spec = draw(est.mml_options(lut=True))
    if draw(st.booleans()):
        spec['max_iteration'] = draw(st.integers(1, 6))
    extra = draw(st.sampled_from([1, 1, 2, 7]))
    return {'data': data, 'model': model, 'spec': spec, 'where': np.sort(rng.integers(0, data.shape[1] + 1, extra)),
            'ability_only': draw(st.booleans())}


def check(case, ctx):
    data, model, spec = case['data'], case['model'], case['spec']
    est.recode(data)
    func = getattr(girth, model)
    where = np.asarray(case['where'])
    wider = np.insert(data, where, MISSING, axis=1)
    blank = np.zeros(wider.shape[1], bool)
    blank[where + np.arange(where.size)] = True
    base = ctx.call(func, data.copy(), options=est.options(spec))
    more = ctx.call(func, wider, options=est.options(spec))
    if model == 'pcm_mml':
        # numerical optimiser: the likelihoods are compared
        codes, _ = est.recode(data)
        theta, weight, density = est.grid(spec)
        levels = [ref.marginal_loglik(ref.pattern_loglik(codes, c17.category_probs('pcm', r, theta, len(data))),
                                      weight * density).sum() for r in (base, more)]
        ctx.close('log likelihood', levels[1], levels[0], atol=.05)
        tol = .2
    else:
        tol = 1e-7 if model.endswith('jml') else 4e-3
        ctx.close(f'{model}: discrimination', more['Discrimination'], base['Discrimination'], atol=tol)
        ctx.close(f'{model}: difficulty', more['Difficulty'], base['Difficulty'], atol=tol * 2)
    if 'Ability' in base:
        theta, weight, density = est.grid(spec)
        dw = weight * density
        ctx.close('ability without any response', more['Ability'][blank], np.full(blank.sum(), dw @ theta / dw.sum()),
                  atol=1e-7)
        ctx.close('abilities of the others', more['Ability'][~blank], base['Ability'], atol=tol)
    est.missing_features(ctx, data)
    ctx.feature(model, f'{where.size} without responses')
    ctx.nontrivial()


PROP = Property(
    'C05', 'Simulated data sets for twelve estimators to which 1-7 respondents without any response are added anywhere. '
           'Non-trivial: every case.',
    [Sub('blank_respondents', cases(), check, quick=40, thorough=60)],
    ['fixed prior density (an estimated one is searched for numerically)'])
