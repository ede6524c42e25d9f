"""Core of the property checks: cases, contexts, comparison, subs, encoding."""
import hashlib
import json
import math
import traceback

import numpy as np


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside of the domain the property speaks about."""


# --------------------------------------------------------------------------
# Cases are JSON-able dictionaries; arrays are wrapped so that dtype survives
# --------------------------------------------------------------------------
def encode(value):
    if isinstance(value, np.ndarray):
        return {"__nd__": str(value.dtype), "shape": list(value.shape),
                "v": [encode(x) for x in value.ravel().tolist()]}
    if isinstance(value, (np.floating,)):
        return encode(float(value))
    if isinstance(value, (np.integer,)):
        return int(value)
    if isinstance(value, (np.bool_,)):
        return bool(value)
    if isinstance(value, float) and not math.isfinite(value):
        return {"__f__": repr(value)}
    if isinstance(value, tuple):
        return {"__t__": [encode(x) for x in value]}
    if isinstance(value, dict):
        return {str(k): encode(v) for k, v in value.items()}
    if isinstance(value, list):
        return [encode(x) for x in value]
    return value


def decode(value):
    if isinstance(value, dict):
        if "__nd__" in value:
            arr = np.array([decode(x) for x in value["v"]],
                           dtype=value["__nd__"])
            return arr.reshape(value["shape"])
        if "__f__" in value:
            return float(value["__f__"])
        if "__t__" in value:
            return tuple(decode(x) for x in value["__t__"])
        return {k: decode(v) for k, v in value.items()}
    if isinstance(value, list):
        return [decode(x) for x in value]
    return value


def case_hash(encoded):
    return hashlib.sha1(json.dumps(encoded, sort_keys=True).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
class Ctx:
    """Collects what one evaluation covered, and raises on a violation."""

    def __init__(self):
        self.features = set()
        self.slack = {}
        self.is_nontrivial = False

    # coverage ------------------------------------------------------------
    def feature(self, *names):
        self.features.update(str(n) for n in names)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    # calls ---------------------------------------------------------------
    def call(self, func, *args, **kwargs):
        """Calls GIRTH where the contract says that the call succeeds."""
        try:
            with np.errstate(all='ignore'):
                return func(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as exc:  # pylint: disable=broad-except
            where = traceback.extract_tb(exc.__traceback__)[-1]
            raise Violation(f"{_name(func)} raised {type(exc).__name__}: {exc} "
                            f"(at {where.filename}:{where.lineno})") from exc

    def refuses(self, what, func, *args, **kwargs):
        """Calls GIRTH where the contract says that the call is refused."""
        try:
            with np.errstate(all='ignore'):
                func(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception:  # pylint: disable=broad-except
            return
        raise Violation(f"{_name(func)} accepted {what}")

    # comparisons ---------------------------------------------------------
    def ok(self, condition, message):
        if not bool(condition):
            raise Violation(message)

    def shape(self, name, array, shape):
        got = np.shape(array)
        if tuple(got) != tuple(shape):
            raise Violation(f"{name}: shape {tuple(got)}, expected {tuple(shape)}")
        return np.asarray(array)

    def note(self, name, ratio):
        """Records how much of a tolerance was used."""
        ratio = float(ratio)
        if ratio > self.slack.get(name, 0.0):
            self.slack[name] = ratio

    def close(self, name, got, want, atol, rtol=0.0):
        got = np.asarray(got, dtype='float64')
        want = np.asarray(want, dtype='float64')
        if got.shape != want.shape:
            raise Violation(f"{name}: shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        nan_got, nan_want = np.isnan(got), np.isnan(want)
        if not np.array_equal(nan_got, nan_want):
            raise Violation(f"{name}: NaN pattern differs\n got {_fmt(got)}\nwant {_fmt(want)}")
        inf = np.isinf(want) | np.isinf(got)
        if np.any(inf) and not np.array_equal(got[inf], want[inf]):
            raise Violation(f"{name}: infinite values differ\n got {_fmt(got)}\nwant {_fmt(want)}")
        good = ~nan_want & ~inf
        if not good.any():
            return
        err = np.abs(got[good] - want[good])
        tol = atol + rtol * np.abs(want[good])
        ratio = float(np.max(err / tol)) if np.all(tol > 0) else (
            0.0 if np.all(err == 0) else np.inf)
        self.note(name, ratio)
        if ratio > 1.0:
            raise Violation(f"{name}: max error {err.max():.6g} exceeds tolerance "
                            f"(x{ratio:.3g})\n got {_fmt(got)}\nwant {_fmt(want)}")

    def equal(self, name, got, want):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{name}: shape {got.shape}, expected {want.shape}")
        try:
            same = np.array_equal(got, want, equal_nan=True)
        except TypeError:
            same = np.array_equal(got, want)
        if not same:
            raise Violation(f"{name}: differs\n got {_fmt(got)}\nwant {_fmt(want)}")

    def atmost(self, name, value, limit, tol):
        """value <= limit + tol, tol being the measured allowance."""
        value, limit = np.asarray(value, 'float64'), np.asarray(limit, 'float64')
        excess = np.max(value - limit) if value.size else 0.0
        if not np.isfinite(excess) and not excess == -np.inf:
            raise Violation(f"{name}: not finite\n got {_fmt(value)} limit {_fmt(limit)}")
        self.note(name, max(excess, 0.0) / tol)
        if excess > tol:
            raise Violation(f"{name}: exceeds limit by {excess:.6g} (tolerance {tol:.3g})"
                            f"\n got {_fmt(value)}\nlimit {_fmt(limit)}")


def _name(func):
    inner = getattr(func, 'func', func)
    return getattr(inner, '__name__', str(inner))


def _fmt(array):
    return np.array2string(np.asarray(array), precision=6, threshold=40, max_line_width=120)


# --------------------------------------------------------------------------
class Sub:
    """One executable clause of a property.

    strategy: hypothesis strategy producing a case (dict)
    check:    check(case, ctx), raises Violation
    quick:    number of cases per shard in the quick tier
    thorough: multiplies quick in the thorough tier
    axes:     {'key': ('item', 'person')} for the reducer
    minimum:  {'item': 2, ...} smallest size the reducer may reach
    shards:   run only in this many shards (None: all)
    """

    def __init__(self, name, strategy, check, quick=40, thorough=30,
                 axes=None, minimum=None, shards=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.axes, self.minimum = axes or {}, minimum or {}
        self.shards = shards


class Property:
    def __init__(self, pid, rule, subs, assumptions=(), shards=8):
        self.id, self.rule, self.subs = pid, rule, subs
        self.assumptions = list(assumptions)
        self.shards = shards

    def sub(self, name):
        for sub in self.subs:
            if sub.name == name:
                return sub
        raise KeyError(name)


MALFORMED = 'result could not be processed'


def evaluate(sub, encoded):
    """Runs one case. Returns ctx; raises Violation / Skip."""
    ctx = Ctx()
    case = decode(encoded)
    try:
        with np.errstate(all='ignore'):
            sub.check(case, ctx)
    except (Violation, Skip, MemoryError, KeyboardInterrupt):
        raise
    except OSError:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        # On the validated tree the oracle never fails; an oracle that cannot
        # digest what GIRTH returned is a malformed result.
        where = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation(f"{MALFORMED}: "
                        f"{type(exc).__name__}: {exc} at {where.filename}:{where.lineno}") from exc
    return ctx


# --------------------------------------------------------------------------
# Reducer: delete rows / columns along the named axes while it still fails
# --------------------------------------------------------------------------
def _delete(case, axes, axis_name, keep):
    out = dict(case)
    for key, names in axes.items():
        if key not in out or out[key] is None or axis_name not in names:
            continue
        arr = out[key]
        if not isinstance(arr, np.ndarray):
            continue
        for position, name in enumerate(names):
            if name == axis_name:
                arr = np.take(arr, keep, axis=position)
        out[key] = arr
    return out


def reduce_case(sub, encoded, still_fails, deadline, now):
    """ddmin along each axis; encoded in, encoded out."""
    case = decode(encoded)
    changed = True
    while changed and now() < deadline:
        changed = False
        for axis_name in sorted({n for names in sub.axes.values() for n in names}):
            size = None
            for key, names in sub.axes.items():
                if axis_name in names and isinstance(case.get(key), np.ndarray):
                    size = case[key].shape[names.index(axis_name)]
                    break
            if size is None:
                continue
            floor = sub.minimum.get(axis_name, 1)
            chunk = max(size // 2, 1)
            while chunk >= 1 and now() < deadline:
                start = 0
                while start < size and now() < deadline:
                    keep = np.r_[0:start, min(start + chunk, size):size].astype(int)
                    if keep.size >= floor and keep.size < size:
                        trial = _delete(case, sub.axes, axis_name, keep)
                        if still_fails(encode(trial)):
                            case, size, changed = trial, keep.size, True
                            continue
                    start += chunk
                chunk //= 2
    return encode(case)
