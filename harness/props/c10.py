"""C10: a respondent's score depends on that respondent's answers only."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref, scoring
from harness.core import Property, Skip, Sub
from harness.props import c09
import girth

KINDS = ('norm', 'shifted', 't', 'mix')


@st.composite
def cases(draw, large=False):
    case = draw(scoring.dich_case(KINDS, three=True, scalar=False, max_persons=9, large=large))
    rng = gen.draw_rng(draw)
    n = case['data'].shape[1]
    case['order'] = rng.permutation(n)
    case['some'] = np.sort(rng.choice(n, draw(st.integers(1, n)), replace=False))
    case['func'] = draw(st.sampled_from(['eap', 'map', 'mle', 'eap3', 'map3', 'mle3']))
    # strangers may have any pattern
    case['strangers'] = rng.integers(0, 2, (case['data'].shape[0], draw(st.integers(100, 700) if large else st.integers(0, 5))))
    case['item_order'] = rng.permutation(case['data'].shape[0])
    return case


@st.composite
def similar(draw):
    """Long tests whose respondents differ in few of their answers."""
    case = draw(cases())
    rng = gen.draw_rng(draw)
    items, n = draw(st.integers(30, 90)), draw(st.integers(3, 9))
    case['b'] = rng.uniform(-2, 2, items)
    case['a'] = rng.uniform(.5, 2.0, items)
    case['c'] = rng.uniform(0, .2, items)
    case['a_kind'] = 'array'
    one = (rng.uniform(size=items) < .5).astype('int64')
    data = np.tile(one[:, None], (1, n))
    for person in range(1, n):
        where = rng.choice([0, 1, items // 2, items - 1, int(rng.integers(items))])
        data[where, person] = ref.MISSING if rng.uniform() < .2 else 1 - data[where, person]
    case['data'] = data
    case['order'] = rng.permutation(n)
    case['some'] = np.sort(rng.choice(n, draw(st.integers(1, 2)), replace=False))
    case['strangers'] = rng.integers(0, 2, (items, 3))
    case['item_order'] = rng.permutation(items)
    return case


def check_similar(case, ctx):
    check(case, ctx)
    check_items(case, ctx)


def scorer(case):
    options = gen.options_from(case['quad'], case['dist'])
    kind = case['func']

    def score(data, ndx=slice(None)):
        b, a, c = case['b'][ndx], case['a'][ndx], case['c'][ndx]
        if kind == 'eap':
            return girth.ability_eap(data, b, a, options)
        if kind == 'map':
            return girth.ability_map(data, b, a, options)
        if kind == 'mle':
            return girth.ability_mle(data, b, a, no_estimate=8.0)
        if kind == 'eap3':
            return girth.ability_3pl_eap(data, b, a, c, options)
        if kind == 'map3':
            return girth.ability_3pl_map(data, b, a, c, options)
        return girth.ability_3pl_mle(data, b, a, c, no_estimate=8.0)
    return score


def check(case, ctx):
    data, order, some = case['data'], case['order'], case['some']
    score = scorer(case)
    base = ctx.call(score, data.copy())
    ctx.shape('abilities', base, (data.shape[1],))
    tol = 1e-8 if case['func'].startswith('eap') else 2e-4
    ctx.close('permuted respondents', ctx.call(score, data[:, order]), base[order], atol=tol)
    ctx.close('a subset of the respondents', ctx.call(score, data[:, some]), base[some], atol=tol)
    ctx.close('with strangers appended', ctx.call(score, np.c_[data, case['strangers']])[:data.shape[1]], base, atol=tol)
    ctx.close('with strangers first', ctx.call(score, np.c_[case['strangers'], data])[case['strangers'].shape[1]:],
              base, atol=tol)
    ctx.close('the last respondent alone', ctx.call(score, data[:, -1:]), base[-1:], atol=tol)
    ctx.close('respondent repeated', ctx.call(score, np.c_[data, data])[data.shape[1]:], base, atol=tol)
    ctx.feature(case['func'])
    scoring.features(case, ctx)
    ctx.nontrivial(data.shape[1] > 1)


def check_items(case, ctx):
    """The order of the items, and items nobody was shown, do not matter."""
    data, order = case['data'], case['item_order']
    score = scorer(case)
    base = ctx.call(score, data.copy())
    tol = 1e-8 if case['func'].startswith('eap') else 2e-4
    ctx.close('permuted items', ctx.call(score, data[order], order), base, atol=tol)
    # a missing response is the same as a shorter test
    j = int(case['some'][0])
    seen = np.flatnonzero(data[:, j] != ref.MISSING)
    if seen.size:
        alone = ctx.call(score, data[seen][:, [j]], seen)
        ctx.close('only the answered items', alone, base[[j]], atol=tol)
        ctx.feature('skipped items' if seen.size < data.shape[0] else 'complete')
    ctx.feature(case['func'])
    ctx.nontrivial(data.shape[0] > 1)


@st.composite
def md(draw):
    case = draw(c09.cases(map_=True))
    rng = gen.draw_rng(draw)
    n = case['data'].shape[1]
    case['order'] = rng.permutation(n)
    case['some'] = np.sort(rng.choice(n, n - 1, replace=False))
    case['func'] = draw(st.sampled_from(['eap', 'eap', 'map']))
    return case


def check_md(case, ctx):
    codes, _, f = c09.prepare(case, ctx)
    options = gen.options_from(case['quad'], case['dist'])
    data, order, some = case['data'], case['order'], case['some']

    def score(data):
        func = girth.multidimensional_ability_eap if case['func'] == 'eap' else girth.multidimensional_ability_map
        return func(data, case['b'], case['a'], options)
    base = ctx.call(score, data.copy())
    tol = 1e-8 if case['func'] == 'eap' else 5e-3
    ctx.close(f"permuted respondents ({case['func']})", ctx.call(score, data[:, order]), base[:, order], atol=tol)
    ctx.close(f"doubled respondents ({case['func']})", ctx.call(score, np.c_[data, data]), np.c_[base, base], atol=tol)
    if gen.full_categories(data[:, some], case['counts']):
        ctx.feature('subset')
        ctx.close(f"a subset of the respondents ({case['func']})", ctx.call(score, data[:, some]), base[:, some], atol=tol)
    ctx.feature(case['func'])
    ctx.nontrivial()


def check_recorded(case, ctx):
    """A fixed case: scoring a subset without some category (recorded finding)."""
    func = girth.multidimensional_ability_eap if case['func'] == 'eap' else girth.multidimensional_ability_map
    full = func(case['data'], case['b'], case['a'])
    part = func(case['data'][:, case['some']], case['b'], case['a'])
    ctx.ok(np.allclose(part, full[:, case['some']], atol=1e-3),
           f"scored alone: {np.round(part[:, 0], 3).tolist()}, "
           f"scored with the others: {np.round(full[:, case['some']][:, 0], 3).tolist()}")


PROP = Property(
    'C10', 'Random tests and respondents for all eight scoring functions; respondents and items permuted, subset, '
           'repeated and joined by strangers; long tests whose respondents differ in one answer. Non-trivial: more than one respondent (item).',
    [Sub('respondents', cases(), check, quick=60, thorough=60, axes={
        'data': ('item', 'x'), 'b': ('item',), 'a': ('item',), 'c': ('item',), 'strangers': ('item', 'y')}),
     Sub('items', cases(), check_items, quick=60, thorough=60),
     Sub('similar', similar(), check_similar, quick=20, thorough=60),
     Sub('large', cases(True), check, quick=1, thorough=20),
     Sub('multidimensional', md(), check_md, quick=20, thorough=60),
     Sub('recorded', st.nothing(), check_recorded, quick=1, shards=0)],
    ['multidimensional scoring: every category of every item occurs in the scored data'])
