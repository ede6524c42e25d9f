"""C28: polyserial correlations."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr, ndtri

from harness import gen, ref
from harness.core import Property, Skip, Sub
from girth.common import polyserial_correlation


@st.composite
def cases(draw):
    rng = gen.draw_rng(draw)
    n, k = draw(st.integers(15, 250)), draw(st.integers(2, 6))
    rho = draw(st.sampled_from([-.95, -.6, -.2, 0.0, .3, .7, .9, .97, -.97, .985, -.985, 1.0, -1.0]))
    if draw(st.integers(0, 9)) == 0:
        n *= 12
    x = rng.standard_normal(n)
    z = rho * x + np.sqrt(1 - rho**2) * rng.standard_normal(n)
    ordinal = np.digitize(z, gen.thresholds(rng, k - 1, 1.2, .3))
    if len(np.unique(ordinal)) < 2:
        ordinal[0], ordinal[1] = 0, 1
    return {'x': x * draw(st.sampled_from([1.0, .01, 40.0])) + draw(st.sampled_from([0.0, 100.0, -3.0, 1e6])), 'ordinal': ordinal,
            'labels': np.cumsum(rng.integers(1, 6, k)) - 7, 'slope': draw(st.sampled_from([.1, 1.0, 12.0])),
            'shift': draw(st.sampled_from([-5.0, 0.0, 3.0])), 'order': rng.permutation(n)}


def objective(x, ordinal):
    values, counts = np.unique(ordinal, return_counts=True)
    cuts = np.r_[-np.inf, ndtri(counts.cumsum()[:-1] / counts.sum()), np.inf]
    position = np.searchsorted(values, ordinal)
    z = (x - x.mean()) / x.std(ddof=1)

    def func(rho):
        rho = np.atleast_1d(rho)[:, None]
        scale = np.sqrt(1 - rho**2)
        prob = ndtr((cuts[position + 1] - rho * z) / scale) - ndtr((cuts[position] - rho * z) / scale)
        # an accurate tail on either side
        other = ndtr(-(cuts[position] - rho * z) / scale) - ndtr(-(cuts[position + 1] - rho * z) / scale)
        return -np.log(np.maximum(np.maximum(prob, other), 1e-300)).sum(axis=1)
    return func


def check(case, ctx):
    x, ordinal = case['x'], case['ordinal']
    if np.ptp(x) == 0 or len(np.unique(ordinal)) < 2 or x.size < 4:
        raise Skip
    got = float(ctx.call(polyserial_correlation, x, ordinal))
    ctx.ok(-1 <= got <= 1, f'correlation {got}')
    func = objective(x, ordinal)
    best, value = ref.zoom_minimum(func, -.99, .99)
    grid = func(np.linspace(-.99, .99, 401))
    peaks = int((np.diff(np.sign(np.diff(grid))) > 0).sum()) + int(grid[0] < grid[1]) + int(grid[-1] < grid[-2])
    if peaks == 1 and abs(best) < .985:
        ctx.feature('interior' if abs(best) < .95 else 'strong')
        ctx.close('correlation', got, best, atol=1e-4)
    elif peaks == 1:
        # nearer to one than it is usual to look
        ctx.feature('near one')
        ctx.ok(got * np.sign(best) > abs(best) - 2e-3, f'correlation {got}, optimum {best}')
    # conventions of measurement
    if peaks == 1 and abs(best) < .95:
        def again(a, b):
            return float(ctx.call(polyserial_correlation, a, b))
        ctx.close('unit and origin of the continuous variable', again(x * case['slope'] + case['shift'], ordinal), got, atol=2e-4)
        ctx.close('reversed continuous variable', again(-x, ordinal), -got, atol=2e-4)
        ctx.close('reversed ordinal variable', again(x, ordinal.max() - ordinal), -got, atol=2e-4)
        ctx.close('labels of the categories', again(x, case['labels'][ordinal]), got, atol=2e-4)
        ctx.close('fractional labels', again(x, case['labels'][ordinal] * .05 - 1), got, atol=2e-4)
        ctx.close('order of the observations', again(x[case['order']], ordinal[case['order']]), got, atol=2e-4)
        ctx.close('floating point labels', again(x, ordinal.astype(float)), got, atol=2e-4)
    ctx.feature(f'{len(np.unique(ordinal))} categories')
    ctx.nontrivial(abs(got) > .05)


PROP = Property(
    'C28', 'Simulated pairs of a continuous and an ordinal variable (15-3000 observations, 2-6 categories), correlations of '
           'either sign up to one. Non-trivial: a correlation beyond 0.05.',
    [Sub('polyserial', cases(), check, quick=100, thorough=100)],
    ['compared with the exact optimum where that lies within 0.985'])
