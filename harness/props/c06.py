"""C06: expected a posteriori abilities."""
import numpy as np

from harness import gen, ref, scoring
from harness.core import Property, Sub
from girth import ability_3pl_eap, ability_eap

KINDS = ('norm', 'shifted', 't', 'mix', 'skew', 'uniform')


def check(three):
    def inner(case, ctx):
        options = gen.options_from(case['quad'], case['dist'])
        data = case['data']
        args = [] if case['default'] else [options]
        if three:
            got = ctx.call(ability_3pl_eap, data.copy(), case['b'], case['a'], case['c'], *args)
        else:
            got = ctx.call(ability_eap, data.copy(), case['b'], case['a'], *args)
        ctx.shape('abilities', got, (data.shape[1],))
        theta, weight, density = gen.grid_from(case['quad'], case['dist'])
        want = ref.eap(scoring.loglik_grid(case, theta), weight * density, theta)
        ctx.close('posterior mean', got, want, atol=1e-7)
        scoring.features(case, ctx)
        if case['quad']:
            ctx.feature('custom quadrature')
        ctx.nontrivial(np.ptp(want) > 1e-3 or data.shape[1] == 1)
    return inner


def check_reduces(case, ctx):
    """No guessing (also by default) is the two parameter model; True/False data are 1/0."""
    data, n_items = case['data'], case['data'].shape[0]
    options = gen.options_from(case['quad'], case['dist'])
    two = ctx.call(ability_eap, data, case['b'], case['a'], options)
    ctx.close('guessing = 0', ctx.call(ability_3pl_eap, data, case['b'], case['a'], np.zeros(n_items), options),
              two, atol=1e-7)
    ctx.close('guessing omitted', ctx.call(ability_3pl_eap, data, case['b'], case['a'], options=options),
              two, atol=1e-7)
    if not (data == ref.MISSING).any():
        ctx.feature('boolean')
        ctx.close('boolean data', ctx.call(ability_eap, data.astype(bool), case['b'], case['a'], options),
                  two, atol=1e-7)
    ctx.nontrivial()


PROP = Property(
    'C06', 'Random item parameters (also negative and scalar discriminations), response patterns with missing '
           'entries, priors and quadratures; also up to 260 items and 2100 respondents. Non-trivial: the posterior means are not all equal.',
    [Sub('two_parameter', scoring.dich_case(KINDS), check(False), quick=120, thorough=60,
         axes=scoring.AXES),
     Sub('three_parameter', scoring.dich_case(KINDS, three=True, scalar=False), check(True), quick=120, thorough=60,
         axes=scoring.AXES),
     Sub('large_two', scoring.dich_case(KINDS, large=True), check(False), quick=3, thorough=20, axes=scoring.AXES),
     Sub('large_three', scoring.dich_case(KINDS, three=True, scalar=False, large=True), check(True), quick=3, thorough=20,
         axes=scoring.AXES),
     Sub('three_reduces_to_two', scoring.dich_case(KINDS, scalar=False), check_reduces, quick=40, thorough=60,
         axes=scoring.AXES)])
