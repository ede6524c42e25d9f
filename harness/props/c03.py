"""C03: contradictory requests are refused."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Property, Sub
import girth
from girth.common import reverse_score
from girth.synthetic import create_synthetic_irt_dichotomous, create_synthetic_irt_polytomous
from girth.utilities.latent_ability_distribution import resample


@st.composite
def synth(draw):
    rng = gen.draw_rng(draw)
    what = draw(st.sampled_from(['one_threshold', 'grm_order', 'grm_tie', 'gum_even', 'gum_asym', 'gum_sumzero',
                                 'unknown', 'disc3d']))
    n_items, n = draw(st.integers(1, 6)), draw(st.integers(1, 12))
    bad_item = draw(st.integers(0, n_items - 1))
    k = draw(st.integers(2, 6))
    model = 'grm'
    b = np.sort(rng.uniform(-2.5, 2.5, (n_items, k)), axis=1) + np.arange(k) * .05
    good = b.copy()
    disc = np.ones(n_items)
    if what == 'one_threshold':
        b = b[:, :1]
        model = draw(st.sampled_from(['grm', 'pcm', 'gum', 'grm_md']))
        good = None
    elif what == 'grm_order':
        j = draw(st.integers(0, k - 2))
        b[bad_item, [j, j + 1]] = b[bad_item, [j + 1, j]]
        model = draw(st.sampled_from(['grm', 'GRM', 'Grm']))
    elif what == 'grm_tie':
        j = draw(st.integers(0, k - 2))
        b[bad_item, j + 1] = b[bad_item, j]
    elif what.startswith('gum'):
        model = draw(st.sampled_from(['gum', 'GUM']))
        c = draw(st.integers(2, 4))
        tau = rng.uniform(-2, .5, (n_items, c))
        b = np.c_[tau, np.zeros((n_items, 1)), -tau[:, ::-1]] + rng.uniform(-1, 1, (n_items, 1))
        good = b.copy()
        if what == 'gum_even':
            drop = draw(st.integers(0, 2 * c))
            b = np.delete(b, drop, axis=1)
        elif what == 'gum_asym':
            j = draw(st.integers(0, 2 * c).filter(lambda x: x != c))
            b[bad_item, j] += draw(st.sampled_from([.3, -.01, 1e-4]))
        else:
            # still sums to zero around the center, not skew symmetric
            i, j = draw(st.sampled_from([(0, 1), (2 * c, 0), (c + 1, c - 1)]))
            shift = draw(st.sampled_from([.5, -.25, .001]))
            if i + j == 2 * c:
                # moving both ends together changes the sum: compensate inside
                b[bad_item, i] += shift
                other = 1 if 1 not in (i, j) else 0
                b[bad_item, other] -= shift
            else:
                b[bad_item, i] += shift
                b[bad_item, j] -= shift
    elif what == 'unknown':
        model = draw(st.sampled_from(['rasch', 'ggum', '', 'grm ', 'nominal']))
    elif what == 'disc3d':
        disc = rng.uniform(.5, 1, (n_items, 2, 2))
        good = None
    return {'what': what, 'model': model, 'b': b, 'good': good, 'disc': disc, 'theta': rng.standard_normal(n)}


def check_synth(case, ctx):
    if case['what'] == 'disc3d':
        ctx.refuses('a three dimensional discrimination', create_synthetic_irt_dichotomous,
                    case['b'][:, 0], case['disc'], case['theta'])
    else:
        ctx.refuses(f"{case['what']} with model {case['model']!r}: {case['b'].tolist()}",
                    create_synthetic_irt_polytomous, case['b'], case['disc'],
                    case['theta'], model=case['model'])
        if case['good'] is not None and case['what'] != 'unknown':
            ctx.call(create_synthetic_irt_polytomous, case['good'], case['disc'], case['theta'],
                     model=case['model'])
    ctx.feature(case['what'])
    ctx.nontrivial()


@st.composite
def other(draw):
    rng = gen.draw_rng(draw)
    what = draw(st.sampled_from(['reverse', 'mml2pl', 'mmlgrm', 'abil_map', 'abil_eap', 'coef', 'resample']))
    n_items, n = draw(st.integers(3, 6)), draw(st.integers(8, 16))
    return {'what': what, 'data': rng.integers(0, 2, (n_items, n)), 'delta': draw(st.sampled_from([-2, -1, 1, 3])),
            'n_factors': draw(st.sampled_from([1, 0, -1])), 'n': draw(st.integers(5, 15)),
            'high': draw(st.sampled_from([4.0, 4.5, 6.0]))}


def check_other(case, ctx):
    what, data = case['what'], case['data']
    n_items = data.shape[0]
    ctx.feature(what)
    ctx.nontrivial()
    if what == 'reverse':
        size = max(n_items + case['delta'], 0)
        ctx.refuses(f'a mask of {size} for {n_items} items', reverse_score, data, np.zeros(size, bool), 5)
        # a mask of the number of observations is not a mask of items either
        if data.shape[1] != n_items:
            ctx.refuses('a mask over observations', reverse_score, data, np.zeros(data.shape[1], bool), 5)
    elif what in ('mml2pl', 'mmlgrm'):
        func = girth.multidimensional_twopl_mml if what == 'mml2pl' else girth.multidimensional_grm_mml
        ctx.refuses(f"{case['n_factors']} factors", func, data, case['n_factors'])
    elif what in ('abil_map', 'abil_eap'):
        func = girth.multidimensional_ability_map if what == 'abil_map' else girth.multidimensional_ability_eap
        ctx.refuses('a single factor', func, data, np.zeros(n_items), np.ones((n_items, 1)))
    elif what == 'coef':
        spline = girth.CubicSplinePDF({'number_of_samples': case['n'],
                                       'quadrature_bounds': (-case['high'], case['high'])})
        ctx.refuses('a wrong number of coefficients', spline.update_coefficients,
                    np.ones(max(case['n'] + case['delta'], 0)))
        ctx.call(spline.update_coefficients, np.ones(case['n']))
    else:
        spline = girth.CubicSplinePDF({'number_of_samples': case['n'],
                                       'quadrature_bounds': (-case['high'], case['high'])})
        spline.update_coefficients(np.exp(-np.linspace(-2, 2, case['n'])**2))
        ctx.refuses('resampling to the same size', resample, spline, case['n'])


PROP = Property(
    'C03', 'Requests that are broken in one drawn place, next to the same request unbroken. '
           'Every case is non-trivial: it contains exactly one contradiction.',
    [Sub('synthetic_parameters', synth(), check_synth, quick=120, thorough=40),
     Sub('other_requests', other(), check_other, quick=60, thorough=40)])
