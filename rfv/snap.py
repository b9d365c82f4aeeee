"""Plain-data copies of what a user hands in or gets back, to see whether a later call changes it."""
import numpy as np


def snap(x, depth=0):
    if depth > 8:
        return "..."
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes() if x.dtype != object else tuple(snap(v, depth + 1) for v in x.ravel()))
    if isinstance(x, (str, bytes, int, float, complex, bool, np.generic)) or x is None:
        return (type(x).__name__, repr(x))
    if hasattr(x, "todense"):
        return ("sparse", snap(np.asarray(x.todense()), depth + 1))
    if hasattr(x, "data_vars"):
        return ("dataset",) + tuple((k, snap(x[k], depth + 1)) for k in sorted(map(str, x.variables)))
    if hasattr(x, "coords") and hasattr(x, "values"):
        return ("dataarray", tuple(x.dims), snap(np.asarray(x.values), depth + 1))
    if isinstance(x, dict):
        return ("dict",) + tuple((str(k), snap(x[k], depth + 1)) for k in sorted(x, key=str))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v, depth + 1) for v in x) + ((snap(vars(x), depth + 1),) if hasattr(x, "__dict__") else ())
    if callable(x):
        return ("callable", id(x))
    if hasattr(x, "__dict__"):
        return (type(x).__name__,) + tuple((k, snap(v, depth + 1)) for k, v in sorted(vars(x).items()))
    return (type(x).__name__, repr(x))


def difference(a, b, path=""):
    """Where two snapshots differ first."""
    if type(a) is not type(b) or not isinstance(a, tuple):
        return None if a == b else "%s: %s -> %s" % (path, str(a)[:80], str(b)[:80])
    if len(a) != len(b):
        ka, kb = {str(v[0]) for v in a if isinstance(v, tuple) and v}, {str(v[0]) for v in b if isinstance(v, tuple) and v}
        return "%s: %d -> %d entries (%s)" % (path, len(a), len(b), sorted(ka ^ kb)[:4])
    for i, (p, q) in enumerate(zip(a, b)):
        if p != q:
            label = str(p[0]) if isinstance(p, tuple) and p and isinstance(p[0], str) else str(i)
            return difference(p, q, path + "/" + label)
    return None
