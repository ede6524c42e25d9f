"""C25: bootstrap standard errors."""
import hashlib

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Property, Sub
from girth import standard_errors_bootstrap


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    items, persons = draw(st.integers(1, 5)), draw(st.integers(2, 15))
    many = draw(st.integers(0, 7)) == 0
    if many:
        persons = draw(st.sampled_from([40, 130, 300]))
    return {'items': items, 'persons': persons, 'k': draw(st.sampled_from([0, 1, 2, 3])),
            'values': rng.normal(size=(items, persons)), 'iterations': draw(st.integers(26, 150) if many else st.integers(2, 25)),
            'seed': int(rng.integers(0, 2**31)), 'solution': draw(st.booleans()), 'scalar': draw(st.integers(0, 3)) == 0,
            'options': draw(st.sampled_from([None, {'max_iteration': 7}, {'quadrature_n': 12, 'use_LUT': False}])),
            'nan': draw(st.booleans())}


class Model:
    """An estimator that keeps what it was given. The first row of the data is the respondent's number."""

    def __init__(self, case):
        self.case, self.seen, self.options = case, [], []

    def __call__(self, dataset, options=None):
        self.seen.append(np.array(dataset))
        self.options.append(options)
        return estimate(self.case, np.asarray(dataset)[0].astype(int))


def estimate(case, ids):
    sample = case['values'][:, ids]
    a = sample.mean(axis=1) + 2.0
    if case['scalar']:
        a = float(a[0])
    if case['k'] == 0:
        b = sample.max(axis=1)
    else:
        b = np.array([np.quantile(sample, (j + 1) / (case['k'] + 1), axis=1) for j in range(case['k'])]).T.copy()
        if case['nan'] and case['k'] > 1:
            b[0, -1] = np.nan
    return {'Discrimination': a, 'Difficulty': b}


def check(case, ctx):
    persons = case['persons']
    data = np.array([np.arange(persons), np.arange(persons) * 7 + 3, (np.arange(persons) * 5) % 11])
    before = data.copy()
    solution = None
    if case['solution']:
        solution = estimate(case, np.arange(persons))
        solution['Discrimination'] = solution['Discrimination'] + .25
    options = case['options'] and dict(case['options'])

    def run(seed):
        model = Model(case)
        out = ctx.call(standard_errors_bootstrap, data, model, bootstrap_iterations=case['iterations'], n_processors=1,
                       solution=given, options=options, seed=seed)
        return model, out
    given = solution
    model, out = run(case['seed'])
    ctx.equal('input unchanged', data, before)
    seen = list(model.seen)
    if solution is None:
        ctx.ok(len(seen) > 0, 'the model was not called')
        ctx.equal('the solution comes from the data set', seen.pop(0), data)
        solution = estimate(case, np.arange(persons))
    ctx.ok(len(seen) == case['iterations'], f"{len(seen)} resamples for {case['iterations']} iterations")
    lookup = {tuple(c) for c in data.T.tolist()}
    for sample in seen:
        ctx.shape('resample', sample, data.shape)
        ctx.ok({tuple(c) for c in sample.T.tolist()} <= lookup, 'a resample holds respondents not in the data')
    if persons > 4 and case['iterations'] > 3:
        ctx.ok(len({tuple(s[0]) for s in seen}) > 1, 'all of the resamples are the same')
        ctx.ok(any(len(set(s[0])) < persons for s in seen), 'resamples are drawn without replacement')
    for passed in model.options:
        for key, value in (case['options'] or {}).items():
            ctx.ok(passed.get(key) == value, f'option {key} did not reach the model')
    # the summaries
    draws = [estimate(case, s[0].astype(int)) for s in seen]
    for key in ('Discrimination', 'Difficulty'):
        values = np.array([d[key] for d in draws])
        want = np.asarray(solution[key])
        got = out['Standard Errors'][key]
        ctx.close(f'standard error of {key}', np.squeeze(got), np.squeeze(values.std(axis=0, ddof=1)), atol=1e-9)
        low, high = out['95th CI'][key]
        ctx.close(f'lower limit of {key}', np.squeeze(low), np.squeeze(np.percentile(values, 2.5, axis=0)), atol=1e-9)
        ctx.close(f'upper limit of {key}', np.squeeze(high), np.squeeze(np.percentile(values, 97.5, axis=0)), atol=1e-9)
        ctx.close(f'bias of {key}', np.squeeze(out['Bias'][key]), np.squeeze(values.mean(axis=0) - want), atol=1e-9)
        ctx.close(f'solution, {key}', out['Solution'][key], want, atol=1e-12)
        if key == 'Difficulty':
            for name, part in (('standard error', got), ('limit', low), ('bias', out['Bias'][key])):
                ctx.shape(f'{name} of {key}', part, want.shape)
    # the seed decides
    again, _ = run(case['seed'])
    ctx.equal('resamples of the same seed', np.array(again.seen), np.array(model.seen))
    if persons > 6 and case['iterations'] > 3:
        other, _ = run(case['seed'] + 1)
        ctx.ok(not np.array_equal(np.array(other.seen), np.array(model.seen)), 'another seed gives the same resamples')
    ctx.feature('solution given' if case['solution'] else 'solution estimated', 'common discrimination' if case['scalar']
                else 'discriminations', f"difficulty of {case['k']} columns")
    ctx.nontrivial(case['iterations'] > 3)


# ---------------------------------------------------------- several processes
def sorted_ids(dataset, options=None):
    """What a resample holds, from a process of its own."""
    ids = np.sort(np.asarray(dataset)[0]).astype(float)
    order = float(int(hashlib.sha1(np.ascontiguousarray(np.asarray(dataset)[0], dtype='int64').tobytes()).hexdigest()[:8], 16))
    return {'Discrimination': np.array([ids.min(), ids.max(), len(ids), order, np.asarray(dataset).sum()]),
            'Difficulty': ids}


def check_parallel(case, ctx):
    persons, workers = case['persons'], case['workers']
    data = np.array([np.arange(persons), np.arange(persons)])

    def run(iterations, seed=case['seed']):
        out = ctx.call(standard_errors_bootstrap, data, sorted_ids, bootstrap_iterations=iterations, n_processors=workers,
                       seed=seed)
        return out
    # two resamples by two processes: the ends of the interval reveal both
    out = run(workers)
    low, high = out['95th CI']['Discrimination']
    ctx.ok(low[3] < high[3], 'the processes draw the same resamples')
    ctx.ok(low[0] >= 0 and high[1] <= persons - 1 and low[2] == high[2] == persons, 'not resamples of the data')
    again = run(workers)
    for key in ('Standard Errors', 'Bias'):
        ctx.equal(f'{key} of the same seed', again[key]['Difficulty'], out[key]['Difficulty'])
        ctx.equal(f'{key} of the same seed (order)', again[key]['Discrimination'], out[key]['Discrimination'])
    ctx.equal('solution', out['Solution']['Difficulty'], np.arange(persons, dtype=float))
    if workers == 2:
        step = .95 * (high[3] - low[3]) / .95
        first = low[3] - .025 * step / .95
        second = high[3] + .025 * step / .95
        mean = (first + second) / 2
        ctx.close('bias from the mean of the resamples', out['Bias']['Discrimination'][3] + out['Solution'][
            'Discrimination'][3], mean, atol=1.0)
    # a number of resamples the processes cannot share evenly: three from two, whatever they are
    if workers == 2:
        out = run(3)
        low, high = (v[3] for v in out['95th CI']['Discrimination'])
        mean = out['Bias']['Discrimination'][3] + out['Solution']['Discrimination'][3]
        # the limits lie a twentieth of the way from the ends to the middle
        ends = np.linalg.solve([[.95, .05, 0], [0, .05, .95], [1 / 3, 1 / 3, 1 / 3]], [low, high, mean])
        ctx.close('spread of three resamples', out['Standard Errors']['Discrimination'][3], np.std(ends, ddof=1), rtol=1e-9, atol=1.0)
        ctx.feature('three resamples by two processes')
    ctx.feature(f'{workers} processes')
    ctx.nontrivial()


PROP = Property(
    'C25', 'A recording estimator of known value under random data (2-300 respondents, 2-150 resamples), difficulty shapes, '
           'options, seeds and given solutions; and resamples drawn in 2-3 processes. Non-trivial: more than three '
           'resamples.',
    [Sub('summaries', cases(), check, quick=150, thorough=60),
     Sub('processes', st.fixed_dictionaries({'persons': st.integers(30, 60), 'workers': st.sampled_from([2, 3]),
                                             'seed': st.integers(0, 2**31)}), check_parallel, quick=1, thorough=3, shards=4)])
