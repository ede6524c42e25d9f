"""C39: estimation options."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from harness import api, gen, ref
from harness.core import Property, Sub
import girth

NAMES = ('max_iteration', 'distribution', 'quadrature_bounds', 'quadrature_n', 'hyper_quadrature_n', 'use_LUT',
         'estimate_distribution', 'number_of_samples', 'initial_guess', 'num_processors')
VALID = {'max_iteration': st.integers(1, 10**6), 'quadrature_n': st.integers(8, 10**4),
         'hyper_quadrature_n': st.integers(8, 10**4), 'use_LUT': st.booleans(), 'estimate_distribution': st.booleans(),
         'number_of_samples': st.integers(5, 10**4), 'initial_guess': st.booleans(), 'num_processors': st.integers(1, 64),
         'distribution': st.sampled_from(['norm', 'mix', 'uniform']),
         'quadrature_bounds': st.tuples(st.floats(-9, -.01), st.floats(.01, 9), st.booleans())}
INVALID = [('max_iteration', 0), ('max_iteration', -3), ('max_iteration', 2.5), ('max_iteration', '10'), ('max_iteration', None),
           ('distribution', 3), ('distribution', None), ('distribution', 'norm'), ('quadrature_bounds', 5),
           ('quadrature_bounds', [5, -5]), ('quadrature_bounds', (2.0, 2.0)), ('quadrature_bounds', 'ab'),
           ('quadrature_n', 7), ('quadrature_n', -41), ('quadrature_n', 21.0), ('quadrature_n', '41'),
           ('hyper_quadrature_n', 7), ('hyper_quadrature_n', 0), ('hyper_quadrature_n', 30.5), ('use_LUT', 1), ('use_LUT', 'no'),
           ('use_LUT', None), ('estimate_distribution', 0), ('estimate_distribution', 'True'), ('number_of_samples', 4),
           ('number_of_samples', -9), ('number_of_samples', 9.0), ('initial_guess', 1), ('initial_guess', None),
           ('initial_guess', 'yes'), ('num_processors', 2.0), ('num_processors', 'two'), ('num_processors', None),
           ('quadrature', 41), ('max_iterations', 10), ('Distribution', None), ('', 1), ('use_lut', True), ('n_processors', 2)]
DENSITIES = {'norm': stats.norm(0.5, 2).pdf, 'mix': ref.distribution({'kind': 'mix', 'loc': 1.0, 'scale': .8}),
             'uniform': stats.uniform(-7, 14).pdf}


def build(items):
    out = {}
    for key, value in items:
        if key == 'distribution':
            value = DENSITIES[value]
        elif key == 'quadrature_bounds':
            value = list(value[:2]) if value[2] else tuple(value[:2])
        out[key] = value
    return out


@st.composite
def dictionaries(draw):
    keys = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=10))
    return {'items': [(k, draw(VALID[k])) for k in keys], 'bad': draw(st.integers(0, len(INVALID) - 1)),
            'place': draw(st.integers(0, 10)), 'container': draw(st.sampled_from([0, 1, 2, 3, 4]))}


def same_density(a, b):
    x = np.linspace(-4, 4, 33)
    return np.allclose(a(x), b(x), atol=1e-12)


def check_dictionary(case, ctx):
    given = build(case['items'])
    before = dict(given)
    defaults = ctx.call(girth.default_options)
    ctx.ok(set(defaults) == set(NAMES), f'default options {sorted(defaults)}')
    full = ctx.call(girth.validate_estimation_options, given)
    ctx.ok(given == before, 'the dictionary given was changed')
    ctx.ok(set(full) == set(NAMES), f'options {sorted(full)}')
    for key in NAMES:
        want = before.get(key, defaults[key])
        if key == 'distribution':
            ctx.ok(same_density(full[key], want), 'another distribution')
        elif key == 'quadrature_bounds':
            ctx.ok(tuple(full[key]) == tuple(want), f'quadrature bounds {full[key]} for {want}')
        else:
            ctx.ok(full[key] == want and type(full[key]) is type(want), f'{key} is {full[key]!r}, expected {want!r}')
    ctx.ok(same_density(defaults['distribution'], stats.norm(0, 1).pdf), 'the default distribution is not the standard normal')
    # what comes back belongs to the caller
    for key in list(full):
        full[key] = None
    full['more'] = 1
    later = ctx.call(girth.validate_estimation_options)
    for key in NAMES:
        if key == 'distribution':
            ctx.ok(same_density(later[key], defaults[key]), 'the default distribution changed')
        else:
            ctx.ok(later[key] == defaults[key], f'the default of {key} changed to {later[key]!r}')
    ctx.ok(set(later) == set(NAMES), f'default options became {sorted(later)}')
    mine = ctx.call(girth.default_options)
    for key in list(mine):
        mine[key] = None
    mine['more'] = 1
    again = ctx.call(girth.default_options)
    ctx.ok(set(again) == set(NAMES) and all(again[k] == later[k] for k in NAMES if k != 'distribution')
           and same_density(again['distribution'], later['distribution']),
           'the defaults follow what a caller did to the dictionary returned by default_options')
    ctx.ok(all(v == later[k] for k, v in ctx.call(girth.validate_estimation_options).items() if k != 'distribution'),
           'the options of later calls follow what a caller did to the dictionary returned by default_options')
    for nothing in (None, {}):
        ctx.ok({k: v for k, v in ctx.call(girth.validate_estimation_options, nothing).items() if k != 'distribution'}
               == {k: v for k, v in defaults.items() if k != 'distribution'}, 'not the defaults')
    # one bad entry anywhere spoils it
    key, value = INVALID[case['bad']]
    items = [(k, v) for k, v in before.items() if k != key]
    items.insert(min(case['place'], len(items)), (key, value))
    ctx.refuses(f'{key}: {value!r} among {[k for k, _ in items]}', girth.validate_estimation_options, dict(items))
    other = [[('max_iteration', 5)], 'max_iteration', 7, ('use_LUT', True), {'use_LUT'}][case['container']]
    ctx.refuses(f'{other!r} for a dictionary', girth.validate_estimation_options, other)
    ctx.feature(f'bad {key}' if key in NAMES else 'unknown name', f'{len(given)} options')
    ctx.nontrivial(len(given) > 0)


# ------------------------------------------------------------------ functions
@st.composite
def functions(draw):
    return {'name': draw(st.sampled_from([n for n in api.WITH_OPTIONS if n != 'multidimensional_grm_mml'])),
            'seed': draw(st.integers(0, 2**31)), 'bad': draw(st.integers(0, len(INVALID) - 1)),
            'keep': draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=6))}


def compare(ctx, name, got, want, atol=1e-9):
    got, want = api.flatten(got), api.flatten(want)
    ctx.ok(len(got) == len(want), f'{name}: {len(got)} results, expected {len(want)}')
    for a, b in zip(got, want):
        if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
            ctx.close(name, a, b, atol=atol, rtol=atol)
        else:
            ctx.equal(name, a.astype(str), b.astype(str))


def check_functions(case, ctx):
    func, args, kwargs = api.inputs(case['name'], case['seed'])
    defaults = girth.default_options()
    base = api.small(case['name'])

    def run(options):
        extra = dict(kwargs)
        if options is not Ellipsis:
            extra['options'] = options
        return ctx.call(func, *[np.copy(a) if isinstance(a, np.ndarray) else a for a in args], **extra)
    first = run(dict(base) if base else Ellipsis)
    if not base:
        compare(ctx, 'options=None', run(None), first)
        compare(ctx, 'an empty dictionary', run({}), first)
    spelled = dict(defaults, **base)
    kept = dict(spelled)
    compare(ctx, 'the defaults spelled out', run(spelled), first)
    ctx.ok(spelled == kept, 'the dictionary given was changed')
    some = {k: defaults[k] for k in case['keep']}
    some.update(base)
    some['quadrature_bounds'] = list(defaults['quadrature_bounds'])
    compare(ctx, 'some of the defaults, bounds as a list', run(some), first)
    key, value = INVALID[case['bad']]
    ctx.refuses(f'{key}: {value!r}', func, *args, options=dict(base, **{key: value}), **kwargs)
    ctx.refuses('a list of options', func, *args, options=[('max_iteration', 3)], **kwargs)
    ctx.feature(case['name'])
    ctx.nontrivial()


PROP = Property(
    'C39', 'Random dictionaries of valid options with one bad entry at a random place, and every public function that takes '
           'options on simulated data with the defaults left out, spelled out and partly spelled out. Non-trivial: some '
           'option is given; every function.',
    [Sub('dictionary', dictionaries(), check_dictionary, quick=150, thorough=100),
     Sub('functions', functions(), check_functions, quick=28, thorough=60)])
