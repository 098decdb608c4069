"""What all harness modules share: exact number formatting, error recording, a scripted solver."""

import math
import os
import random
import signal
import traceback
from contextlib import contextmanager

os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")


def num(x) -> str:
    """The number x as a decimal string that determines the floating point number; 'nan' if x is
    not a finite real number."""
    try:
        if isinstance(x, bool):
            return "nan"
        if isinstance(x, int):
            return str(x)
        if not isinstance(x, float):
            if hasattr(x, "is_expression_type") or hasattr(x, "is_numeric_type"):
                import pyomo.environ as pyo

                x = pyo.value(x)
        x = float(x)
        if not math.isfinite(x):
            return "nan"
        return repr(x + 0.0)
    except Exception:  # pylint: disable=broad-except
        return "nan"


def nums(xs):
    return [num(x) for x in xs]


def nested(x):
    """Nested lists/arrays/tensors as nested lists of number strings."""
    if hasattr(x, "tolist"):
        x = x.tolist()
    elif hasattr(x, "data") and not isinstance(x, (float, int)):
        x = x.data
    if isinstance(x, (list, tuple)):
        return [nested(y) for y in x]
    return num(x)


def dress(r, x):
    """An array with the entries of x, stored in memory in one of many ways."""
    import numpy as np

    how = r.choice(["plain", "plain", "fortran", "strided", "reversed", "columns"])
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full(tuple(2 * n for n in x.shape), -11.0).astype(x.dtype)
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if how == "reversed":
        return np.ascontiguousarray(x[::-1])[::-1]
    if how == "columns":
        return np.array(np.moveaxis(x, 0, -1)).copy().transpose(x.ndim - 1, *range(x.ndim - 1))
    return np.array(x)


class Timeout(Exception):
    """Raised in a scenario that takes too long."""


@contextmanager
def time_limit(seconds: float):
    def on_alarm(*_):
        raise Timeout(f"no result after {seconds} s")

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(f, *args, **kwargs):
    """(True, result) or (False, name of the exception)."""
    try:
        return True, f(*args, **kwargs)
    except Timeout:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return False, type(e).__name__


def describe(e: BaseException) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
    return f"{type(e).__name__}: {e} [{where}]"


def rng(*key) -> random.Random:
    return random.Random("/".join(str(k) for k in key))


def grid_value(r: random.Random, lo: float, hi: float, bits: int = 6) -> float:
    """A random dyadic number in [lo, hi]: keeps exact arithmetic cheap."""
    k = 1 << bits
    return r.randint(math.ceil(lo * k), math.floor(hi * k)) / k
