"""Projection of implementation values into the specification's value domain (shared by all drivers)."""
import math


def q(x):
    """An exact rational string for a number (floats exactly as they are)."""
    if type(x) is float or type(x) is int:
        return _q(x)
    try:
        import numpy as np
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, (bool, np.bool_)):
            return str(int(x))
        if isinstance(x, (int, np.integer)):
            return str(int(x))
        x = float(x)
    except Exception:
        return 'nan'
    return _q(x)


def _q(x):
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else '%d/%d' % (n, d)


def unq(s):
    """Float of a rational string (the grids in use are dyadic, so this is exact for inputs)."""
    if isinstance(s, (int, float)):
        return float(s)
    if s in ('inf', '-inf', 'nan'):
        return float(s)
    if '/' in s:
        n, d = s.split('/')
        return int(n) / int(d)
    return float(int(s))


def attempt(f, *args, **kw):
    """(value, "") or (None, exception class name): the error path is an outcome like any other."""
    try:
        return f(*args, **kw), ''
    except Exception as e:
        return None, type(e).__name__
