"""C40: calls leave their arguments alone and do not depend on what was called before."""
import copy
import random
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import api, gen
from harness.core import Property, Skip, Sub
from harness.props.c39 import INVALID, compare

NAMES = api.WITH_OPTIONS + api.OTHER


def arguments(name, seed):
    func, args, kwargs = api.inputs(name, seed)
    if name in api.WITH_OPTIONS:
        kwargs = dict(kwargs, options=api.small(name))
    return func, args, kwargs


def global_state():
    state = np.random.get_state()
    return (state[1].tobytes(), state[2:], random.getstate(), np.geterr(), np.get_printoptions(), sys.getrecursionlimit())


# ------------------------------------------------------------------- histories
@st.composite
def histories(draw):
    pool = draw(st.sampled_from([api.FAST, api.FAST, NAMES]))
    seeds = [draw(st.integers(0, 2**31)) for _ in range(2)]
    steps = []
    for _ in range(draw(st.integers(3, 9))):
        kind = draw(st.sampled_from(['call', 'call', 'call', 'call', 'fail', 'noise', 'damage']))
        steps.append([kind, draw(st.sampled_from(pool)), seeds[draw(st.integers(0, 1))], draw(st.integers(0, len(INVALID) - 1))])
    # ask again for something asked before
    for _ in range(draw(st.integers(1, 4))):
        steps.append(['call'] + steps[draw(st.integers(0, len(steps) - 1))][1:])
    return {'steps': steps}


def check_history(case, ctx):
    seen, repeated = {}, 0
    for kind, name, seed, bad in case['steps']:
        func, args, kwargs = arguments(name, seed)
        if kind == 'noise':
            np.random.seed(bad)
            np.random.standard_normal(bad + 1)
            ctx.feature('global generator moved')
            continue
        if kind == 'fail':
            if name in api.WITH_OPTIONS:
                key, value = INVALID[bad]
                ctx.refuses(f'{key}: {value!r}', func, *args, **dict(kwargs, options={key: value}))
                ctx.feature('refused call')
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = ctx.call(func, *args, **kwargs)
        flat = [x.copy() for x in api.flatten(got)]
        if (name, seed) in seen:
            repeated += 1
            old = seen[name, seed]
            ctx.ok(len(old) == len(flat), f'{name} returned another number of results the second time')
            for a, b in zip(flat, old):
                compare(ctx, f'{name}, asked again', a, b, atol=1e-6)
        else:
            seen[name, seed] = flat
        if kind == 'damage':
            # results belong to the caller
            for value in api.flatten(got):
                if isinstance(value, np.ndarray) and value.ndim and value.flags.writeable and value.dtype.kind == 'f':
                    value[...] = -77.0
            ctx.feature('results overwritten')
        ctx.feature(name)
    ctx.nontrivial(repeated > 0 and len(seen) > 1)


# ------------------------------------------------------------------- arguments
@st.composite
def single(draw):
    return {'name': draw(st.sampled_from(NAMES)), 'seed': draw(st.integers(0, 2**31)),
            'layout': draw(st.sampled_from(['F', 'strided', 'readonly']))}


def relayout(value, layout):
    if not isinstance(value, np.ndarray):
        return value
    if layout == 'F':
        return np.asfortranarray(value.copy())
    if layout == 'strided':
        big = np.zeros(tuple(2 * n for n in value.shape), value.dtype)
        view = big[tuple(slice(None, None, 2) for _ in value.shape)]
        view[...] = value
        return view
    value = value.copy()
    value.flags.writeable = False
    return value


def check_single(case, ctx):
    func, args, kwargs = arguments(case['name'], case['seed'])
    kept_args = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    kept_kwargs = {k: (v.copy() if isinstance(v, np.ndarray) else copy.copy(v)) for k, v in kwargs.items()}
    def watched():
        # under the error handling numpy starts with, which the calls of the harness silence
        with np.errstate(divide='warn', over='warn', under='ignore', invalid='warn'):
            before = global_state()
            return func(*args, **kwargs), global_state() == before
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        filters = list(warnings.filters)
        result, same = ctx.call(watched)
        first = [x.copy() for x in api.flatten(result)]
        for value in api.arrays(result):
            for old in list(args) + list(kwargs.values()):
                ctx.ok(not isinstance(old, np.ndarray) or not np.shares_memory(value, old),
                       f"a result of {case['name']} is an argument, or part of it")
        ctx.ok(same and warnings.filters == filters, f"{case['name']} changed the state of the process")
        for k, (old, new) in enumerate(zip(kept_args, args)):
            if isinstance(old, np.ndarray):
                ctx.ok(old.dtype == new.dtype, f'argument {k} changed type')
                ctx.equal(f"argument {k} of {case['name']} unchanged", new, old)
            else:
                ctx.ok(old is new or old == new, f'argument {k} changed')
        for key, old in kept_kwargs.items():
            if isinstance(old, np.ndarray):
                ctx.equal(f"argument {key} of {case['name']} unchanged", kwargs[key], old)
            else:
                ctx.ok(kwargs[key] == old, f'argument {key} changed')
        again = ctx.call(func, *args, **kwargs)
        compare(ctx, f"{case['name']}, second call", api.flatten(again), first, atol=1e-6)
        compare(ctx, f"{case['name']}, first result after the second call", api.flatten(result), first, atol=0.0 + 1e-300)
        # the layout of the arrays in memory does not matter
        other = ctx.call(func, *[relayout(a, case['layout']) for a in args],
                         **{k: relayout(v, case['layout']) for k, v in kwargs.items()})
    # summation order may differ with the layout, and searches stop at their tolerance
    ctx.ok(len(api.flatten(other)) == len(first), 'another number of results')
    exact = case['name'] not in api.DICH + api.POLY + api.MULTI + (
        'sparsify_loadings', 'minimum_rank_factor_analysis', 'hyperspherical_angles') + api.SCORE
    compare(ctx, f"{case['name']}, {case['layout']} arrays", api.flatten(other), first, atol=1e-6 if exact else 5e-3)
    ctx.feature(case['name'], case['layout'])
    ctx.nontrivial()


# ------------------------------------------------------------------- number types
RESPONSES = tuple(n for n in NAMES if n not in (
    'spline_density', 'create_beta_LUT', 'LatentPDF', 'standard_errors_bootstrap', 'entropy', 'procrustes_rotation', 'hyperspherical_vector',
    'hyperspherical_angles', 'principal_components_analysis', 'principal_axis_factor', 'maximum_likelihood_factor_analysis',
    'minimum_rank_factor_analysis', 'sparsify_loadings') and not n.startswith('create_'))
WHOLE = api.SCORE + ('ability_mle', 'ability_3pl_mle', 'polyserial_correlation', 'entropy', 'procrustes_rotation', 'hyperspherical_vector',
                     'hyperspherical_angles', 'create_synthetic_irt_dichotomous', 'create_synthetic_mirt_dichotomous',
                     'create_synthetic_irt_polytomous', 'create_synthetic_mirt_polytomous')
SHIFTED = api.POLY + ('cronbach_alpha', 'condition_polytomous_response', 'classical_test_statistics')


@st.composite
def types(draw):
    kind = draw(st.sampled_from(['responses', 'responses', 'responses', 'parameters']))
    return {'kind': kind, 'name': draw(st.sampled_from(RESPONSES if kind == 'responses' else WHOLE)),
            'seed': draw(st.integers(0, 2**31)), 'shift': draw(st.sampled_from([0, 0, 9, 60, 119])),
            'type': draw(st.sampled_from(['bool', 'int8', 'int8', 'int16', 'int32', 'uint8', 'float32', 'float64', 'float64']))}


def recast(value, name):
    """The same values in the wanted type, or the narrowest like it that holds them."""
    if name == 'bool' and not np.isin(value, (0, 1)).all():
        name = 'int8'
    if name == 'uint8' and value.min() < 0:
        name = 'int8'
    for attempt in (name, 'int16', 'int32'):
        with np.errstate(all='ignore'):
            other = value.astype(attempt)
        if np.array_equal(other.astype('float64'), value.astype('float64')):
            return other
    return value


def check_types(case, ctx):
    name = case['name']
    func, args, kwargs = arguments(name, case['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['kind'] == 'responses':
            if name in SHIFTED:
                args[0] = np.where(args[0] == api.MISSING, api.MISSING, args[0] + case['shift'])
            changed = [recast(a, case['type']) if isinstance(a, np.ndarray) and a.dtype.kind == 'i' else a for a in args]
        else:
            def whole(value):
                value = np.round(np.asarray(value) * 2) + 0.0
                return np.cumsum(np.abs(value) + 1, axis=-1) - 4 if name == 'create_synthetic_irt_polytomous' and value.ndim == 2 else value
            args = [whole(a) if isinstance(a, np.ndarray) and a.dtype.kind == 'f' else a for a in args]
            if name.startswith('ability_3pl') or name == 'create_synthetic_irt_dichotomous':
                args[3] = np.zeros_like(args[3])
            if name == 'create_synthetic_mirt_polytomous':
                args[0] = 4 - np.cumsum(np.abs(args[0]) + 1, axis=-1)
            if name in ('entropy', 'hyperspherical_angles'):
                args[0] = np.where(args[0] == 0, 1.0, args[0])
            changed = [a.astype('int64') if isinstance(a, np.ndarray) and a.dtype.kind == 'f' else a for a in args]
            if name == 'polyserial_correlation' and np.ptp(args[0]) == 0:
                raise Skip
        first = [np.copy(x) for x in api.flatten(ctx.call(func, *[np.copy(a) if isinstance(a, np.ndarray) else a for a in args], **kwargs))]
        other = api.flatten(ctx.call(func, *changed, **kwargs))
    kinds = sorted({str(a.dtype) for a in changed if isinstance(a, np.ndarray)} - {'float64'}) or ['float64']
    ctx.ok(len(other) == len(first), f'{name} with {kinds}: another number of results')
    single = 'float32' in kinds
    for a, b in zip(other, first):
        if b.dtype.kind in 'OUS':
            continue
        compare(ctx, f'{name} with {kinds}', np.asarray(a, 'float64'), np.asarray(b, 'float64'), atol=2e-3 if single else 1e-6)
    ctx.feature(case['kind'], name, *kinds)
    ctx.nontrivial()


PROP = Property(
    'C40', 'Histories of 4-13 calls of the public functions, mixed with refused calls, use of the global random generator and '
           'overwritten results, in which earlier calls are asked again; and single calls on contiguous, Fortran ordered, '
           'strided and read-only arrays, and on the same values in other number types. Non-trivial: a call is repeated after another '
           'one; every single call.',
    [Sub('history', histories(), check_history, quick=25, thorough=60),
     Sub('single', single(), check_single, quick=40, thorough=60),
     Sub('types', types(), check_types, quick=40, thorough=60)])
