"""C08: maximum likelihood abilities and respondents without an estimate."""
import numpy as np
from hypothesis import strategies as st

from harness import ref, scoring
from harness.core import Property, Sub
from girth import ability_3pl_mle, ability_mle


@st.composite
def cases(draw, three, large=False):
    case = draw(scoring.dich_case(('norm',), three=three, scalar=not three, need_quad=False, max_persons=8, large=large))
    case['no_estimate'] = draw(st.sampled_from([None, float('nan'), 6.0, 10.0, 0.5, 3, -4.5, -7, 0, 0.0, float('inf'), 1e-3]))
    return case


def check(three):
    def inner(case, ctx):
        data = case['data']
        kwargs = {} if case['no_estimate'] is None else {'no_estimate': case['no_estimate']}
        if three:
            got = ctx.call(ability_3pl_mle, data.copy(), case['b'], case['a'], case['c'], **kwargs)
        else:
            got = ctx.call(ability_mle, data.copy(), case['b'], case['a'], **kwargs)
        ctx.shape('abilities', got, (data.shape[1],))
        value = float('nan') if case['no_estimate'] is None else abs(float(case['no_estimate']))
        for j in scoring.judged(case):
            column = data[:, j]
            column = column[column != ref.MISSING]
            if column.size == 0:
                ctx.feature('no response')
                ctx.ok(np.isnan(got[j]) if np.isnan(value) else abs(got[j]) == value,
                       f'respondent {j} has no responses but got {got[j]}')
            elif column.min() == column.max():
                ctx.feature('all correct' if column[0] else 'all incorrect')
                want = value if column[0] == 1 else -value
                ctx.ok(np.isnan(got[j]) if np.isnan(want) else got[j] == want,
                       f'respondent {j} answered only {column[0]}: got {got[j]}, expected {want}')
            else:
                ctx.nontrivial()
                one = scoring.person(case, j)

                def objective(x):
                    return -scoring.loglik_grid(one, x)[0]
                ctx.feature(scoring.check_maximiser(ctx, f'MLE of respondent {j}', objective, float(got[j])))
        scoring.features(case, ctx)
    return inner


PROP = Property(
    'C08', 'Random item parameters and response patterns including constant and wholly missing ones. '
           'Non-trivial: at least one respondent has an estimable ability.',
    [Sub('two_parameter', cases(False), check(False), quick=45, thorough=60, axes=scoring.AXES),
     Sub('three_parameter', cases(True), check(True), quick=45, thorough=60, axes=scoring.AXES),
     Sub('large_two', cases(False, True), check(False), quick=2, thorough=20, axes=scoring.AXES),
     Sub('large_three', cases(True, True), check(True), quick=2, thorough=20, axes=scoring.AXES)],
    ['of hundreds of respondents sixteen are judged'])
