"""GIRTH's functions on small simulated inputs, for C39 and C40.

inputs(name, seed) -> (function, positional arguments, keyword arguments).
Functions that take options find them under 'options'.
"""
import numpy as np

from harness import fa, gen, ref
import girth
from girth import common, factoranalysis, synthetic
from girth.utilities import CubicSplinePDF, LatentPDF

DICH = ('rasch_jml', 'onepl_jml', 'twopl_jml', 'rasch_conditional', 'rasch_mml', 'onepl_mml', 'twopl_mml', 'twopl_mml_eap',
        'threepl_mml')
POLY = ('grm_jml', 'grm_mml', 'grm_mml_eap', 'pcm_jml', 'pcm_mml', 'gum_mml')
MULTI = ('multidimensional_twopl_mml', 'multidimensional_grm_mml', 'initial_guess_md')
SCORE = ('ability_map', 'ability_eap', 'ability_3pl_map', 'ability_3pl_eap', 'multidimensional_ability_map',
         'multidimensional_ability_eap')
WITH_OPTIONS = DICH + POLY + MULTI + SCORE + ('create_beta_LUT', 'LatentPDF')
OTHER = ('ability_mle', 'ability_3pl_mle', 'tag_missing_data', 'get_true_false_counts', 'mml_approx',
         'convert_responses_to_kernel_sign', 'trim_response_set_and_counts', 'condition_polytomous_response',
         'classical_test_statistics', 'standard_errors_bootstrap', 'cronbach_alpha', 'reverse_score', 'polyserial_correlation',
         'polychoric_correlation_serial', 'polychoric_correlation', 'contingency_table', 'validate_contingency_table', 'spline_density',
         'entropy', 'procrustes_rotation', 'hyperspherical_vector',
         'hyperspherical_angles', 'principal_components_analysis', 'principal_axis_factor',
         'maximum_likelihood_factor_analysis', 'minimum_rank_factor_analysis', 'sparsify_loadings',
         'create_synthetic_irt_dichotomous', 'create_synthetic_irt_polytomous', 'create_synthetic_mirt_dichotomous',
         'create_synthetic_mirt_polytomous', 'create_synthetic_ggum')
FAST = tuple(n for n in WITH_OPTIONS + OTHER if n not in ('threepl_mml', 'grm_mml_eap', 'gum_mml', 'twopl_mml_eap', 'multidimensional_grm_mml',
                                                        'multidimensional_twopl_mml', 'pcm_mml', 'sparsify_loadings'))
MISSING = ref.MISSING


def dichotomous(rng, items=5, persons=60, missing=0.0, a_high=2.2):
    b, a = gen.dich_items(rng, items, b_max=1.2, a_high=a_high)
    theta = rng.standard_normal(persons)
    data = (rng.uniform(size=(items, persons)) < ref.logistic(a[:, None] * (theta - b[:, None]))).astype('int64')
    return gen.ensure_categories(rng, gen.add_missing(rng, data, missing), [2] * items), a, b


def polytomous(rng, items=4, persons=80, k=3, missing=0.0, a_high=2.2):
    _, a = gen.dich_items(rng, items, a_high=a_high)
    theta = rng.standard_normal(persons)
    b = np.array([gen.thresholds(rng, k - 1, 1.0) for _ in range(items)])
    data = gen.simulate(rng, [ref.grm_probs(theta, x, y) for x, y in zip(a, b)])
    data = gen.ensure_categories(rng, gen.add_missing(rng, data, missing), [k] * items)
    return np.where(data == MISSING, MISSING, data + 1), a, b


def summary(dataset, options=None):
    """A cheap estimator for the bootstrap."""
    return {'Discrimination': dataset.mean(axis=1), 'Difficulty': dataset.std(axis=1)}


def small(name):
    """Options that keep the slow functions short."""
    if name in ('multidimensional_twopl_mml', 'multidimensional_grm_mml'):
        return {'max_iteration': 1, 'quadrature_n': 9}
    if name == 'multidimensional_ability_eap':
        return {'quadrature_n': 9}
    if name in ('gum_mml', 'threepl_mml', 'grm_mml_eap', 'twopl_mml_eap'):
        return {'max_iteration': 2, 'quadrature_n': 15, 'hyper_quadrature_n': 11}
    if name in POLY + DICH:
        return {'max_iteration': 4}
    return {}


def inputs(name, seed):
    rng = np.random.default_rng(seed)
    missing = .15 if rng.uniform() < .4 else 0.0
    if name == 'LatentPDF':
        table = rng.uniform(.05, 1, (12, 41))

        def latent(values, options=None):
            pdf = LatentPDF(options)
            values = values[:, :pdf.weights.size]
            values = np.tile(values, (1, 1 + pdf.weights.size // 41))[:, :pdf.weights.size]
            return pdf(values, 0), pdf.quadrature_locations, pdf.null_distribution
        return latent, [table], {}
    if name == 'create_beta_LUT':
        def table_values(p, options=None):
            table = girth.create_beta_LUT((.4, 3, 40), (-4, 4, 100), options)
            return table(1.3, p)
        return table_values, [rng.uniform(.2, .8, 6)], {}
    if name in DICH:
        data, a, _ = dichotomous(rng, missing=0.0 if name == 'rasch_conditional' else missing)
        kwargs = {'discrimination': 1.3} if name.startswith('rasch') else {}
        return getattr(girth, name), [data], kwargs
    if name in POLY:
        data, _, _ = polytomous(rng, missing=missing)
        return getattr(girth, name), [data], {}
    if name in MULTI:
        data, _, _ = (polytomous if name.endswith('grm_mml') else dichotomous)(rng, items=6, persons=300, a_high=1.2)
        return getattr(girth, name), [data, 2], {}
    data, a, b = dichotomous(rng, missing=missing)
    c = rng.uniform(0, .3, b.size)
    if name in ('ability_mle', 'ability_map', 'ability_eap'):
        return getattr(girth, name), [data, b, a], {}
    if name.startswith('ability_3pl'):
        return getattr(girth, name), [data, b, a, c], {}
    if name.startswith('multidimensional_ability'):
        return getattr(girth, name), [data[:, :8], b, np.abs(rng.normal(size=(b.size, 2))) + .2], {}
    poly, pa, pb = polytomous(rng, missing=missing)
    if name == 'tag_missing_data':
        return girth.tag_missing_data, [poly, [1, 2]], {}
    if name in ('get_true_false_counts', 'convert_responses_to_kernel_sign', 'mml_approx'):
        return getattr(girth, name), [data], {}
    if name == 'trim_response_set_and_counts':
        return girth.trim_response_set_and_counts, [data, rng.integers(1, 5, data.shape[1])], {}
    if name == 'condition_polytomous_response':
        return girth.condition_polytomous_response, [poly], {}
    if name == 'classical_test_statistics':
        return girth.classical_test_statistics, [poly, 1, 3], {}
    if name == 'standard_errors_bootstrap':
        return girth.standard_errors_bootstrap, [data, summary], {'bootstrap_iterations': 5, 'n_processors': 1, 'seed': int(seed % 4)}
    if name == 'cronbach_alpha':
        return common.cronbach_alpha, [poly], {}
    if name == 'reverse_score':
        return common.reverse_score, [poly, rng.uniform(size=poly.shape[0]) < .5, 3], {}
    if name == 'polyserial_correlation':
        return common.polyserial_correlation, [rng.normal(size=50), rng.integers(0, 3, 50)], {}
    if name == 'polychoric_correlation_serial':
        return common.polychoric_correlation_serial, [poly[:3], 1, 3], {}
    if name == 'contingency_table':
        return common.contingency_table, [poly[0], poly[1], 1, 3], {}
    if name == 'polychoric_correlation':
        return common.polychoric_correlation, [poly[:3], 1, 3], {'num_processors': 1}
    if name == 'validate_contingency_table':
        table = rng.integers(0, 9, (3, 4))
        table[rng.integers(0, 3)] *= int(rng.integers(0, 2))
        return common.validate_contingency_table, [table + int(rng.integers(0, 2))], {}
    if name == 'spline_density':
        def density(coefficients, where):
            pdf = CubicSplinePDF({'number_of_samples': coefficients.size, 'quadrature_bounds': (-4.5, 4.5)})
            pdf.update_coefficients(coefficients)
            return pdf(where), pdf.filter_matrix(where), pdf.cubic_spline(where), pdf.continuous_pdf((-4, 4), 31)
        return density, [rng.uniform(size=7), rng.uniform(-5, 5, 12)], {}
    if name == 'entropy':
        return common.entropy, [rng.normal(size=(5, 3))], {}
    if name == 'procrustes_rotation':
        return common.procrustes_rotation, [rng.normal(size=(6, 3)), rng.normal(size=(6, 3))], {}
    if name == 'hyperspherical_vector':
        return common.hyperspherical_vector, [rng.uniform(0, 3, 4)], {}
    if name == 'hyperspherical_angles':
        return common.hyperspherical_angles, [rng.normal(size=4)], {}
    if name == 'sparsify_loadings':
        return factoranalysis.sparsify_loadings, [rng.normal(size=(6, 2)), rng.uniform(0, 3, 2)], {'seed': int(seed % 4)}
    loadings = fa.structure(rng, 7, 2)
    matrix = loadings @ loadings.T
    np.fill_diagonal(matrix, 1.0)
    if name == 'principal_components_analysis':
        return factoranalysis.principal_components_analysis, [matrix, 2], {}
    if name == 'principal_axis_factor':
        return factoranalysis.principal_axis_factor, [matrix, 2], {'initial_guess': rng.uniform(.3, .7, 7)}
    if name == 'maximum_likelihood_factor_analysis':
        return factoranalysis.maximum_likelihood_factor_analysis, [matrix, 2], {'initial_guess': rng.uniform(.3, .7, 7)}
    if name == 'minimum_rank_factor_analysis':
        return factoranalysis.minimum_rank_factor_analysis, [matrix, 2], {'initial_guess': rng.uniform(.3, .7, 7)}
    theta = rng.standard_normal(9)
    if name == 'create_synthetic_irt_dichotomous':
        return synthetic.create_synthetic_irt_dichotomous, [b, a, theta, c], {'seed': int(seed % 4)}
    if name == 'create_synthetic_irt_polytomous':
        return synthetic.create_synthetic_irt_polytomous, [pb, pa, theta, 'grm'], {'seed': int(seed % 4)}
    if name == 'create_synthetic_ggum':
        tau = np.sort(rng.uniform(-1.5, .2, (4, 2)))
        zero = np.zeros((4, 1))
        full = np.c_[tau, zero, -tau[:, ::-1]] + rng.uniform(-1, 1, (4, 1))
        return synthetic.create_synthetic_irt_polytomous, [full, pa, theta, 'gum'], {'seed': int(seed % 4)}
    if name == 'create_synthetic_mirt_dichotomous':
        return synthetic.create_synthetic_irt_dichotomous, [b, rng.uniform(.4, 1.5, (b.size, 2)), rng.normal(size=(2, 9))], {
            'seed': int(seed % 4)}
    if name == 'create_synthetic_mirt_polytomous':
        return synthetic.create_synthetic_irt_polytomous, [-pb, rng.uniform(.4, 1.5, (4, 2)), rng.normal(size=(2, 9)), 'grm_md'], {
            'seed': int(seed % 4)}
    raise KeyError(name)


def flatten(value):
    """Everything numeric in a result, in order."""
    if isinstance(value, dict):
        return [x for key in sorted(value) for x in [np.array(key)] + flatten(value[key])]
    if isinstance(value, (tuple, list)):
        return [x for v in value for x in flatten(v)]
    if value is None or isinstance(value, (int, float, bool, np.ndarray, np.generic)):
        return [np.asarray(value, dtype=object) if value is None else np.asarray(value)]
    # objects (latent densities)
    if hasattr(value, 'null_distribution'):
        return [np.asarray(value.null_distribution), np.asarray(value.cubic_splines[-1].coefficients)]
    return []


def arrays(value):
    """The arrays in a result themselves."""
    if isinstance(value, dict):
        return [x for v in value.values() for x in arrays(v)]
    if isinstance(value, (tuple, list)):
        return [x for v in value for x in arrays(v)]
    return [value] if isinstance(value, np.ndarray) else []
