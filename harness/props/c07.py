"""C07: maximum a posteriori abilities."""
import numpy as np

from harness import gen, ref, scoring
from harness.core import Property, Sub
from girth import ability_3pl_map, ability_map

KINDS = ('norm', 'shifted', 't', 'mix', 'uniform')


def check(three):
    def inner(case, ctx):
        data = case['data']
        args = [] if case['default'] else [gen.options_from(None, case['dist'])]
        if three:
            got = ctx.call(ability_3pl_map, data.copy(), case['b'], case['a'], case['c'], *args)
        else:
            got = ctx.call(ability_map, data.copy(), case['b'], case['a'], *args)
        ctx.shape('abilities', got, (data.shape[1],))
        pdf = ref.distribution(case['dist'] or {'kind': 'norm', 'loc': 0.0, 'scale': 1.0})
        for j in scoring.judged(case):
            one = scoring.person(case, j)

            def objective(x):
                return -(scoring.loglik_grid(one, x)[0] + np.log(pdf(x)))
            ctx.feature(scoring.check_maximiser(ctx, f'MAP of respondent {j}', objective, float(got[j])))
        scoring.features(case, ctx)
        ctx.nontrivial(np.any(data != ref.MISSING))
    return inner


PROP = Property(
    'C07', 'Random item parameters, response patterns with missing entries and priors. Non-trivial: at least one '
           'response is present. Posteriors with one mode are compared with the global optimum, others locally.',
    [Sub('two_parameter', scoring.dich_case(KINDS, need_quad=False, max_persons=6), check(False), quick=45,
         thorough=60, axes=scoring.AXES),
     Sub('three_parameter', scoring.dich_case(KINDS, three=True, scalar=False, need_quad=False, max_persons=6),
         check(True), quick=45, thorough=60, axes=scoring.AXES),
     Sub('large_two', scoring.dich_case(KINDS, need_quad=False, large=True), check(False), quick=2, thorough=20, axes=scoring.AXES),
     Sub('large_three', scoring.dich_case(KINDS, three=True, scalar=False, need_quad=False, large=True), check(True), quick=2,
         thorough=20, axes=scoring.AXES)],
    ['of hundreds of respondents sixteen are judged'])
