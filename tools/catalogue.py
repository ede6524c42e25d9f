"""Writes properties.jsonl and MANIFEST.json from one list: python3 tools/catalogue.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = 'estimation/'
UNI, DI, PO = E + 'unidimensional/', E + 'unidimensional/dichotomous/', E + 'unidimensional/polytomous/'
MD, UT, SY, CO, FA = E + 'multidimensional/', E + 'utilities/', 'synthetic/', 'common/', 'factoranalysis/'

P = []


def prop(title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note))


# 1
prop('Simulated right/wrong responses follow the logistic model they were asked for',
     'For any item difficulties, discriminations (scalar, per item, or one column per factor), abilities, guessing '
     'probabilities and seed, simulated responses are a 0/1 matrix [items x persons] in which each entry is 1 exactly when '
     'the uniform number drawn for it does not exceed guessing + (1-guessing) * logistic(discrimination*(ability-difficulty)), '
     'in several dimensions logistic(discrimination . ability + difficulty). The same seed (a number or a generator in the same '
     'state) gives the same data, whole-number parameters mean the same as the equal fractional ones, and the arguments are not changed.',
     ['inputs', 'configurations'], 'every parameter array, scalar or integer form, guessing, number of factors and seed',
     'The tests simulate a handful of fixed parameter sets and look at shapes, seeds and a few mean values.',
     [SY + 'dichotomous.py'], [('inverse transform of the response probability', SY + 'dichotomous.py')],
     'property-based testing against a reference inverse-CDF model with the same uniform stream',
     'Entries whose uniform number is within 1e-9 of the probability are not judged.')
# 2
prop('Simulated graded responses follow the category probabilities of the chosen model',
     'For the graded, partial credit, graded unfolding and multidimensional graded models, each simulated response is the '
     'category 1..K that the inverse of the model\'s cumulative category probabilities assigns to the uniform number drawn for it. '
     'The model name is not case sensitive, the graded model is the default, the same seed gives the same data and the arguments are not changed.',
     ['inputs', 'configurations'], 'every model, threshold matrix, discrimination (scalar or array), ability vector and seed',
     'The tests compare a few probabilities of tiny fixed examples; they do not tie whole data sets to the model.',
     [SY + 'polytomous.py'], [('category probabilities per model', SY)],
     'property-based testing against reference category probabilities with the same uniform stream',
     'Entries whose uniform number is within 1e-9 of a boundary are not judged.')
# 3
prop('Contradictory requests are refused',
     'A request that contradicts itself is refused with an exception instead of being answered: a polytomous item with a single threshold, '
     'graded thresholds that do not strictly ascend, unfolding thresholds that are even in number or not skew symmetric around their centre, '
     'an unknown model, a three dimensional discrimination, a reversal mask whose length is not the number of items, fewer than two factors in a '
     'multidimensional model, a wrong number of spline coefficients, resampling to the present size. The same request without the contradiction is answered.',
     ['inputs'], 'every place the contradiction can sit in: any item, threshold, size',
     'The tests try one or two fixed contradictions each, at one position.',
     [SY + 'dichotomous.py', SY + 'polytomous.py', CO + 'reverse.py', MD + 'multidimensional_mml_methods.py', UT + 'latent_ability_distribution.py'], [('input validation', SY + 'polytomous.py')],
     'property-based testing: mutation of valid requests', 'Contradictions of the listed kinds only.')
# 4
prop('Tagging missing data keeps valid responses and marks all others',
     'Given responses of any shape and numeric type and the valid values, every valid response is returned with its value and every other one as '
     'the missing marker (-99999), in an array of the same shape that can hold both. Tagging again changes nothing and the input is not changed.',
     ['inputs'], 'every array shape, number type (True/False, narrow and unsigned integers, floats) and set of valid values',
     'The tests tag one array of one type.', [UT + 'utils.py'], [('membership mask', UT + 'utils.py')],
     'property-based testing against an element-wise reference', 'NaN is treated as an invalid response.')
# 5
prop('Respondents without any response carry no information',
     'Adding respondents all of whose responses are missing, anywhere in the data, leaves the item parameters of every marginal and joint estimator '
     'as they were. Where abilities come with the estimate the added respondents get the mean of the prior and the others keep theirs.',
     ['inputs', 'configurations'], 'every data set, place and number of empty respondents, prior, quadrature and estimator',
     'The tests hold no respondent who answered nothing.', [DI, PO, UT + 'utils.py', UT + 'polytomous_utils.py'],
     [('missing responses contribute a factor of one', UT)], 'metamorphic property-based testing',
     'Fixed prior; the partial credit model is compared by likelihood as its numerical search stops loosely.')
# 6
prop('Expected a posteriori ability is the posterior mean',
     'With two- or three-parameter items the expected a posteriori ability of a respondent is the mean of the posterior computed from the answered '
     'items, the given prior density and the given quadrature; missing responses do not enter. With no guessing (zero or left out) the three '
     'parameter scores are the two parameter ones, and a group of one is scored like any other.',
     ['inputs', 'configurations'], 'every item parameter, response pattern with missing entries, prior density and quadrature',
     'The tests score a few data sets with the standard normal prior and compare loosely.',
     [DI + 'ability_estimation.py', DI + 'ability_threepl.py'], [('quadrature of likelihood times prior', UNI)],
     'property-based testing against an independent quadrature', 'Agreement to 1e-7.')
# 7
prop('Maximum a posteriori ability maximises the posterior',
     'The maximum a posteriori ability of a respondent lies where log likelihood of the answered items plus log prior density is largest: '
     'the global maximum on [-6, 6] when the posterior has one peak, a point no nearby ability beats otherwise. Missing responses do not enter.',
     ['inputs', 'configurations'], 'every item parameter, guessing, response pattern and prior density',
     'The tests compare correlation with true abilities on single data sets.', [DI + 'ability_estimation.py', DI + 'ability_threepl.py'],
     [('bounded one dimensional search', UNI)], 'property-based testing against a search of the reference posterior',
     'Within the tolerance of the search; local optimality where the posterior has several peaks.')
# 8
prop('Maximum likelihood ability maximises the likelihood, or says there is none',
     'A respondent with both right and wrong answers gets the ability that maximises the likelihood of the answered items. A respondent with only right '
     '(wrong) answers among those given gets plus (minus) the magnitude of the caller\'s no-estimate value, NaN by default, whatever is missing; one with no answers gets that magnitude, of either sign.',
     ['inputs', 'configurations'], 'every item parameter, response pattern including constant and empty ones, and no-estimate value',
     'The tests have complete data and one fixed set of constant patterns.', [DI + 'ability_estimation.py', DI + 'ability_threepl.py'],
     [('bounded search and no-estimate mask', UNI)], 'property-based testing against a search of the reference likelihood',
     'Local optimality where the likelihood has several peaks.')
# 9
prop('Multidimensional abilities are posterior means or posterior modes',
     'In two or more dimensions, with dichotomous or graded items (descending intercepts, unequal numbers of categories), expected a posteriori abilities '
     'are the means over the product quadrature of likelihood times independent priors; maximum a posteriori abilities lie in [-4, 4] and no better point '
     'is found by an independent search. Missing responses do not enter and categories count from the lowest code of the item.',
     ['inputs', 'configurations'], 'every item parameter matrix, response matrix, number of factors, prior and quadrature',
     'The tests score single two-factor data sets.', [MD + 'multidimensional_ability_methods.py'], [('product quadrature; bounded search', MD)],
     'property-based testing against an independent quadrature and an independent search',
     'The scored data show every category of every item (recorded finding otherwise).')
# 10
prop("A respondent's score depends on that respondent's answers only",
     'For every scoring function, permuting, repeating, leaving out or adding respondents permutes, repeats, leaves out or adds their scores and changes no others; '
     'reordering the items with their parameters changes nothing; an unanswered item is the same as an item that is not there.',
     ['inputs', 'histories'], 'every group of respondents scored together and every order of items',
     'The tests score one group in one order.', [DI + 'ability_estimation.py', DI + 'ability_threepl.py', MD + 'multidimensional_ability_methods.py'], [('scores are computed per respondent', DI + 'ability_estimation.py')],
     'metamorphic property-based testing', 'Multidimensional scoring where every category occurs (recorded finding otherwise).')
# 11
prop('Rasch and one parameter estimates solve the marginal likelihood equations',
     'The difficulties of the Rasch and one parameter models by marginal maximum likelihood make the expected proportion of right answers of each item, under the given '
     'prior and quadrature, equal to that observed among its valid responses, clipped to [-6, 6]. The Rasch discrimination is the one given; the one parameter discrimination lies in '
     '[0.25, 10] and no other value, with difficulties adapted, has a larger marginal likelihood.',
     ['inputs', 'configurations'], 'every response matrix, missing pattern, prior density, quadrature and fixed discrimination',
     'The tests fit single simulated data sets and compare with the generating values at one decimal.',
     [DI + 'rasch_mml.py', DI + 'partial_integrals.py', UT + 'utils.py'], [('inversion of the expected proportion', DI + 'rasch_mml.py')],
     'property-based testing against an independent marginal likelihood', 'Likelihood within 5e-3 of the best over a grid.')
# 12
prop('Graded and two parameter estimates are where the marginal likelihood peaks',
     'Thresholds of the graded and two parameter models by marginal maximum likelihood ascend within an item and reproduce, under the final ability density, the observed proportions above each '
     'category; discriminations lie in [0.2, 5] and no nearby discrimination of an item, with its thresholds adapted, raises the marginal likelihood. Items may have different numbers of categories, '
     'start at any code and have missing responses; thresholds an item lacks are NaN.',
     ['inputs', 'configurations'], 'every response matrix, prior, quadrature, look-up table setting, iteration limit, estimated density',
     'The tests fit single data sets with defaults and compare with generating values at one decimal.',
     [PO + 'grm_mml.py', DI + 'twopl_mml.py', UT + 'look_up_table.py'], [('per-item search with thresholds solved', PO + 'grm_mml.py')],
     'property-based testing against an independent marginal likelihood', 'Local optimality within 1e-2 log likelihood; with an iteration limit only the item estimated last.')
# 13
prop('Partial credit estimates are where the marginal likelihood peaks',
     'Partial credit estimates by marginal maximum likelihood stay in their bounds (discrimination [0.25, 4], steps [-6, 6]), and re-optimising the parameters of any one item does not raise the '
     'marginal likelihood. Items may have different numbers of categories, start at any code and have missing responses; steps an item lacks are NaN.',
     ['inputs', 'configurations'], 'every response matrix, prior, quadrature, iteration limit, estimated density',
     'The tests fit single data sets with defaults and compare with generating values at one decimal.', [PO + 'pcm_mml.py'],
     [('per-item bounded search', PO + 'pcm_mml.py')], 'property-based testing: independent likelihood and re-optimisation', 'Within 5e-2 log likelihood.')
# 14
prop('Unfolding estimates peak the marginal likelihood and obey the asked orientation',
     'Graded unfolding estimates stay in their bounds (discrimination [0.25, 4], location [-2, 2]), re-optimising one item does not materially raise the marginal likelihood, and the full thresholds are '
     'location plus the skew symmetric extension of tau. The location of the chosen item has the chosen sign, and asking for another orientation reflects locations, abilities and estimated '
     'density and changes nothing else.',
     ['inputs', 'configurations'], 'every response matrix, orientation (item and sign), symmetric prior, quadrature, iteration limit, estimated density',
     'The tests fit single data sets and compare with generating values at one decimal; they do not ask for both orientations.', [PO + 'gum_mml.py'],
     [('per-item bounded search', PO + 'gum_mml.py'), ('sign convention', PO + 'gum_mml.py')],
     'property-based testing: independent likelihood, re-optimisation, metamorphic reflection', 'Symmetric priors (recorded finding otherwise); within one unit of log likelihood: the likelihood has flat ridges.')
# 15
prop('Three parameter estimates fit the observed proportions near a likelihood peak',
     'Three parameter estimates by marginal maximum likelihood stay in their bounds (discrimination [0.25, 4], guessing [0, 0.33]), the difficulty makes the expected proportion of right answers equal to the '
     'observed one, and re-optimising discrimination and guessing of an item does not materially raise the marginal likelihood.',
     ['inputs', 'configurations'], 'every response matrix, missing pattern, prior, quadrature and iteration limit',
     'The tests fit single data sets and compare loosely.', [DI + 'threepl_mml.py'], [('per-item bounded search', DI + 'threepl_mml.py')],
     'property-based testing: independent likelihood and re-optimisation', 'Within half a unit of log likelihood; with an iteration limit only the item estimated last.')
# 16
prop('Bayesian discriminations are posterior means under the Rayleigh prior',
     'In the mixed Bayesian / marginal estimators each discrimination is its posterior mean on [0.25, 5] given the other items under a Rayleigh prior whose scale is in turn the posterior mean under its log normal '
     'hyper prior; the reported scale is that value. Thresholds reproduce the observed proportions under the final ability density.',
     ['inputs', 'configurations'], 'every response matrix, prior, quadrature, hyper quadrature, iteration limit, estimated density',
     'The tests fit single data sets and compare with generating values at one decimal.', [PO + 'grm_mml_eap.py', DI + 'twopl_mml_eap.py'],
     [('posterior mean by quadrature', PO + 'grm_mml_eap.py')], 'property-based testing against independent posterior means',
     'The scale counts an item once, or once per category as the code does (recorded finding).')
# 17
prop('Information criteria and abilities agree with the estimates they come with',
     'AIC and BIC reported with a unidimensional marginal estimate are those of its marginal likelihood, for the given (null) and the final ability density, with the parameters of an estimated density charged; '
     'delta is null minus final. The reported abilities are the posterior means under the reported parameters and the final density.',
     ['inputs', 'configurations'], 'six estimators, every response matrix, prior, quadrature, iteration limit, estimated density',
     'The tests look at the sign of a difference.', [UT + 'latent_ability_distribution.py', PO, DI], [('metrics from the final likelihood', UT + 'latent_ability_distribution.py')],
     'property-based testing against an independent likelihood', 'The number of parameters charged is that of the density alone, as the code counts.')
# 18
prop('An estimated ability density is admissible and the most likely one',
     'When the ability density is estimated it is non-negative, integrates to one and has mean zero and variance one, and no admissible density of the same family has a materially larger likelihood for the '
     'given likelihood table. The weights handed to the estimators are the given density in the first round and the estimated one afterwards.',
     ['inputs', 'configurations'], 'every population shape, likelihood table, number of spline points and symmetric quadrature',
     'The tests look at one spline and one data set.', [UT + 'latent_ability_distribution.py'], [('constrained maximum likelihood of spline coefficients', UT + 'latent_ability_distribution.py')],
     'property-based testing with a convexity certificate (linear program)', 'Certificate within 0.1 log likelihood.')
# 19
prop('The spline density is the cubic B-spline its coefficients define',
     'A spline density evaluates, anywhere and also when sampled finely, to the cubic B-spline of its coefficients on its symmetric interval and to zero outside; its moments are those of the coefficients. '
     'Resampling to another number of points gives an admissible density as close to the old one as any, and without estimation the latent density times weights is the given one, with AIC/BIC of the likelihood.',
     ['inputs', 'configurations', 'histories'], 'every coefficient vector, interval, number of points and sequence of updates',
     'The tests evaluate one spline.', [UT + 'latent_ability_distribution.py'], [('B-spline basis', UT + 'latent_ability_distribution.py')],
     'property-based testing against a reference B-spline and a convexity certificate', 'Resampling within 5e-3 squared error.')
# 20
prop('Joint maximum likelihood alternates between abilities and items as it claims',
     'One more round of a joint estimator maximises the likelihood of each item given abilities that are the standardised maximum likelihood abilities of the previous round; perfect, empty and wholly missing '
     'respondents do not enter. Parameters stay in their bounds, the Rasch discrimination is the one given, and graded thresholds ascend.',
     ['inputs', 'configurations'], 'every response matrix with missing entries, iteration limit and fixed discrimination',
     'The tests fit single complete data sets and compare loosely.', [DI + 'jml_methods.py', PO + 'grm_jml.py', PO + 'pcm_jml.py'],
     [('alternating searches', UNI)], 'property-based testing: each round against an independent optimisation',
     'Abilities are standardised over distinct patterns (dichotomous) as the code does.')
# 21
prop('Conditional Rasch difficulties maximise the conditional likelihood',
     'Conditional maximum likelihood difficulties of complete data average zero, depend on the data only through counts of scores and item totals, and no other difficulties '
     'in the search range have a larger conditional likelihood, computed by summing over all response patterns. The discrimination is the one given.',
     ['inputs'], 'every complete response matrix and fixed discrimination',
     'The tests fit one data set and compare at one decimal.', [DI + 'rasch_conditional.py'], [('elementary symmetric functions by convolution', DI + 'rasch_conditional.py')],
     'property-based testing against brute-force enumeration of patterns', 'Complete data (recorded finding otherwise).')
# 22
prop('Estimates respect the symmetries of the data',
     'Reordering respondents or items, writing the same answers in another number type, shifting or respacing the category codes, and duplicating the whole sample leave the estimates alike; reversing the scale mirrors '
     'difficulties and abilities; moving the prior moves them; identical items get identical difficulties; a two parameter model equals the graded model of two categories.',
     ['inputs', 'configurations'], 'fourteen estimators, every data set and transformation of the listed kinds',
     'The tests fit each data set in one coding and order.', [DI, PO, UT], [('recoding to linear indices', UT + 'polytomous_utils.py')],
     'metamorphic property-based testing', 'Tolerances up to 5e-2 for estimators that search numerically; estimates inside the search range.')
# 23
prop('Multidimensional estimates are identified, consistent and near a likelihood peak',
     'Multidimensional two parameter and graded estimates have descending intercepts that reproduce the observed proportions, the last items load on the first factors only, loadings stay in their bounds, and '
     'changing the loadings of an item nearby does not raise the marginal likelihood. Reported likelihood, AIC, BIC and abilities are those of the reported parameters.',
     ['inputs', 'configurations'], 'every response matrix, number of factors (2, 3), quadrature, look-up table, starting values, iteration limit',
     'The tests fit one or two data sets and compare loosely.', [MD], [('rotation constraint on the last items', MD)],
     'property-based testing against an independent marginal likelihood', 'Normal priors centred at zero; only items estimated last are judged for optimality.')
# 24
prop('Multidimensional starting values come from the factor analysis of the data',
     'Starting loadings are 1.7 times the maximum likelihood factor loadings of the polychoric correlations over the root of the unique variances, rotated so that the last item loads on the first factor only, the one before on the first two, '
     'and so on with positive leading loadings. They do not depend on the first category code, the number type or the number of processes.',
     ['inputs', 'configurations'], 'every ordinal data set, number of factors and processes',
     'The tests look at one data set.', [MD + 'multidimensional_initial_guess.py'], [('rotation to the identified form', MD)],
     'property-based testing: rotation-invariant comparison with the composed parts', 'Correlations and factor analysis are those of C26 and C36.')
# 25
prop('Bootstrap summaries describe the resamples, and the seed decides the resamples',
     'The bootstrap draws the asked number of samples of respondents with replacement, fits the given model with the given options to each, and reports their standard deviation, central 95% limits and mean minus the solution, '
     'where the solution is the one given or the fit of the data. The same seed gives the same results, another seed others, and processes draw different samples.',
     ['inputs', 'configurations', 'schedules'], 'every data set, estimator output shape, number of resamples, seed and number of processes',
     'The tests run one bootstrap of one model.', [UT + 'bootstrap_errors.py'], [('seeded resampling and summaries', UT + 'bootstrap_errors.py')],
     'property-based testing with a recording estimator', 'Two and three processes.')
# 26
prop('Polychoric correlations maximise the bivariate normal likelihood',
     'Each polychoric correlation is the one that maximises the bivariate normal likelihood of the table of jointly valid responses, given thresholds of its margins; the matrix is symmetric with unit diagonal. Reversing an item '
     'reverses its correlations, reordering items reorders them, each pair depends on its own valid pairs only, and the parallel version returns the same with any number of processes.',
     ['inputs', 'configurations', 'schedules'], 'every ordinal matrix, category range, missing pattern, number of processes',
     'The tests compare a few tables with known values.', [CO + 'polychoric.py'], [('bounded search of the correlation', CO)],
     'property-based testing against an independently integrated likelihood', 'Beyond 0.98 only the direction is judged.')
# 27
prop('Contingency tables count the pairs of valid codes',
     'Entry (i, j) of a contingency table is the number of observations with the i-th code in the first and the j-th in the second vector over the given range of codes; all other pairs are ignored. Validation removes exactly the empty rows and columns.',
     ['inputs'], 'every pair of vectors, range of codes (negative too) and number type',
     'The tests count one or two tables.', [CO + 'polychoric.py'], [('histogram of code pairs', CO)],
     'property-based testing against direct counting', 'Exact.')
# 28
prop('Polyserial correlations maximise their likelihood and ignore units',
     'The polyserial correlation maximises the likelihood of the ordinal variable given the standardised continuous one. It does not depend on unit, origin, labels or order of the observations, and changes sign when either variable is reversed.',
     ['inputs'], 'every pair of a continuous and an ordinal vector',
     'The tests compare a few fixed values.', [CO + 'polyserial.py'], [('bounded search', CO)],
     'property-based testing against an independent likelihood; metamorphic', 'Compared where the optimum lies within 0.95.')
# 29
prop('Classical item statistics and alpha are those of the valid responses',
     "Cronbach's alpha, counts, means, standard deviations, alpha without the item and item-rest correlations are computed from valid responses only, persons without responses do not count, and complete data give the textbook alpha. "
     'Alpha does not depend on order, on shifting items or on reversing all of them; the polyserial item-rest correlation is the most likely one.',
     ['inputs'], 'every ordinal matrix, missing pattern, number type',
     'The tests compare one or two fixed data sets.', [CO + 'cronbach_alpha.py', UT + 'ctt_statistics.py'], [('masked sums', CO)],
     'property-based testing against direct formulas; metamorphic', 'Every item and rest score varies.')
# 30
prop('Reverse scoring mirrors the masked items and is its own inverse',
     'Reversing maps a response v of a masked item on the scale 1..max to max+1-v, keeps missing responses and unmasked items, returns a new array and leaves its inputs alone. Reversing twice gives the data back.',
     ['inputs'], 'every ordinal matrix, mask, scale and number type', 'The tests reverse one data set.', [CO + 'reverse.py'],
     [('masked reflection', CO)], 'property-based testing against an element-wise reference; round trip', 'Exact.')
# 31
prop('Hyperspherical coordinates convert back and forth',
     'The vector of any angles is the unit vector the angles define; the angles of any non-zero vector are in their canonical range, do not depend on its length and give back its direction, also when components are zero.',
     ['inputs'], 'every angle vector and every non-zero vector of two or more dimensions', 'The tests convert a few fixed vectors.', [CO + 'hypersphere.py'],
     [('products of sines and cosines', CO)], 'property-based testing: reference formula and round trip', 'To 1e-6 near the poles.')
# 32
prop('The procrustes rotation is the closest orthogonal one',
     'The rotation returned for a target and a collected matrix is orthogonal and no orthogonal matrix brings the collected matrix closer to the target. It recovers an exact rotation, does not depend on the unit and its transpose is the rotation back.',
     ['inputs'], 'every pair of matrices of equal shape', 'The tests rotate one or two matrices.', [CO + 'procrustes.py'], [('singular value decomposition', CO)],
     'property-based testing against the known optimum', 'Uniqueness claims where the cross product has full rank.')
# 33
prop('Sparse rotation reproduces the loadings and settles where its objective is low',
     'Entropy is the sum over rows of the Shannon entropy of squared entries (none for a row of zeros). The sparse rotation returns unit-length bases whose product with the rotated loadings is the original, near orthogonal if asked; its objective (entropy plus a condition penalty) is not above that of the '
     'starting point nor of what a search nearby finds; the seed decides the result, and simple structures are found again.',
     ['inputs', 'configurations'], 'every loading matrix of two or three factors, start, seed, penalty', 'The tests rotate one or two matrices.', [CO + 'entropy.py', FA + 'rotation.py'],
     [('bounded minimisation of entropy', FA)], 'property-based testing: invariants, local search, planted structure', 'At least two of six planted structures; objective within 0.1 (0.3 orthogonal).')
# 34
prop('Principal components are the leading eigenpairs',
     'Loadings are eigenvectors scaled by the root of their eigenvalues, for the asked number of largest eigenvalues in descending order; unique variances are zero, all components reproduce the matrix, and a singular matrix gives finite loadings.',
     ['inputs'], 'every covariance matrix, also singular, diagonal, duplicated', 'The tests decompose one matrix.', [FA + 'pca.py'], [('symmetric eigen decomposition', FA)],
     'property-based testing against eigen equations', 'Positive semi-definite matrices.')
# 35
prop('Principal axis factoring reaches its fixed point',
     'The unique variances returned are positive and at the fixed point: they are the diagonal left by the leading components of the reduced matrix, to the tolerance asked. Loadings and eigenvalues are those of that reduced matrix, '
     'exact structures of correlations and covariances are recovered, the order of the items does not matter, and any start in range reaches a fixed point.',
     ['inputs', 'configurations'], 'every well marked factor structure, exact or sampled, start and tolerance', 'The tests factor one matrix.', [FA + 'paf.py'], [('fixed point iteration', FA + 'paf.py')],
     'property-based testing against the plain iteration; metamorphic', 'Where the plain iteration settles at positive unique variances.')
# 36
prop('Maximum likelihood factors minimise the discrepancy',
     'Unique variances of the maximum likelihood factor analysis minimise the normal discrepancy between the implied and the given matrix, with loadings and eigenvalues that belong to them. Exact structures are recovered; order, unit and start do not matter wherever the search ends in a proper solution (no unique variance at its floor).',
     ['inputs', 'configurations'], 'every well marked factor structure, exact or sampled, and start', 'The tests factor one matrix.', [FA + 'maximum_likelihood.py'], [('bounded minimisation', FA)],
     'property-based testing against an independent discrepancy; metamorphic', 'Proper solutions.')
# 37
prop('Minimum rank factors leave a covariance and the least unexplained variance',
     'Unique variances of the minimum rank factor analysis are positive and at most one and make the smallest eigenvalue of the reduced matrix zero; loadings and eigenvalues are those of that matrix. Nothing nearby leaves less common variance '
     'unexplained for well marked structures, exact ones are recovered, and improper starting values do not spoil the result.',
     ['inputs', 'configurations'], 'every correlation matrix of well marked factors, exact, sampled or from small samples, and start', 'The tests factor one matrix.', [FA + 'minimum_rank.py'], [('feasibility by singular values', FA + 'minimum_rank.py')],
     'property-based testing: feasibility, nearby search, planted structure', 'Correlation matrices.')
# 38
prop('The difficulty look-up table inverts the expected proportion',
     'For any discrimination of its range, ends included, and any proportion it covers, the table returns the difficulty whose expected proportion under the given density and quadrature is that proportion, to the resolution of the table. Difficulty never decreases with the proportion asked for, and discriminations outside of the range are refused.',
     ['inputs', 'configurations'], 'every table range and size, density, quadrature, discrimination and proportion', 'The tests compare one table at a few places.', [UT + 'look_up_table.py'], [('inverse interpolation', UT)],
     'property-based testing: round trip through independent quadrature', 'Proportions beyond the table are a recorded finding.')
# 39
prop('Options are validated, completed and mean what they say',
     'An options dictionary is completed with the documented defaults, is not changed, and any unknown name, value of the wrong kind or range, or container other than a dictionary is refused wherever it stands. '
     'Every function that takes options gives the same result with defaults left out, spelled out in full or in part, and refuses bad ones.',
     ['inputs', 'configurations'], 'every dictionary of valid options with one bad entry anywhere, and every public function with options', 'The tests try single entries.', [UT + 'girth_options.py'], [('validation per option', UT)],
     'property-based testing: mutation of valid dictionaries, metamorphic', 'Bad values of the listed kinds.')
# 40
prop('Calls leave arguments alone and do not depend on what was called before',
     'No public function changes its array arguments, options or the process-wide state (random generators, error handling), and asked again it gives the same answer whatever was called, refused or overwritten in between. '
     'Results belong to the caller; read-only, strided and Fortran ordered arrays, and arrays of another number type holding the same values (truth values, narrow integers, floating point), give the same answers.',
     ['histories', 'inputs'], 'every sequence of public calls and refusals, every memory layout and number type', 'The tests call each function once per process state.', ['estimation/', 'synthetic/', 'common/', 'factoranalysis/'],
     [('functions without shared state', 'estimation/')], 'history-based property testing (differential replay within the history)', 'Small inputs; searches compared to 5e-3 across layouts.')
# 41
prop('Ordinal responses are conditioned to linear indices',
     'Conditioning maps the distinct valid codes of each item, in order, to consecutive indices that run on from item to item, reports how many each item has (two at least) and the mask of valid responses, and, unless told not to, drops exactly the respondents with no valid '
     'response or with all of them at the lowest or all at the highest code. The input is not changed, whatever its number type.',
     ['inputs'], 'every ordinal matrix, coding, number type, missing pattern', 'The tests condition one or two matrices.', [UT + 'polytomous_utils.py'], [('unique codes per item', UT + 'polytomous_utils.py')],
     'property-based testing against a reference', 'Exact.')
# 42
prop('Counts of right and wrong answers ignore everything else',
     'For dichotomous responses the counts of true and false, the kernel sign (-1 true, +1 false, 0 otherwise), the trimming of constant response patterns together with their counts, and the closed form approximate difficulty '
     'are those of the 0/1 entries, whatever missing or foreign codes and number type.',
     ['inputs'], 'every response matrix and number type', 'The tests count one matrix.', [UT + 'utils.py'], [('masks', UT)],
     'property-based testing against direct counting', 'Exact; approximation to 1e-10.')
# 43
prop('Estimators recover the parameters that generated the data',
     'Given responses of one to two thousand persons simulated by the package from known parameters, complete or with responses missing at random, every estimator returns parameters, and abilities where they come with it, '
     'close to the generating ones.',
     ['inputs', 'configurations'], 'every parameter set of ordinary size, seed, missing pattern and estimator', 'The tests recover one parameter set each, complete data.', [SY, E], [('simulation and estimation agree on the model', SY)],
     'property-based testing: simulate and recover', 'Limits of 2.5 times the largest distance seen over forty simulations each.')

TITLES = []


def main():
    import glob
    checks = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as handle:
        for number, p in enumerate(P, 1):
            pid = f'C{number:02d}'
            assert len(p['title']) <= 80, (pid, len(p['title']))
            for f in p['files']:
                assert os.path.exists(os.path.join('/repo', f)), (pid, f)
            handle.write(json.dumps({
                'id': pid, 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'hook_needed': None}}) + '\n')
            checks.append({'property': pid, 'quick_cmd': f'./check {pid} --tier quick', 'thorough_cmd': f'./check {pid} --tier thorough',
                           'technique': p['technique'], 'level': 'exploration',
                           'level_note': p['note'] + ' Generated inputs only: absence of violations is not proof. Trusts numpy, scipy and the reference models in harness/ref.py.'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as handle:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
                   'notes': 'No hooks: the checks import the package from /repo and use its public functions.'}, handle, indent=1)
        handle.write('\n')


if __name__ == '__main__':
    main()
