"""All numbers in a result, in a fixed order, and where each comes from."""
import numpy as np


def walk(x, path=""):
    if x is None or isinstance(x, (str, bytes)):
        yield path, np.array([float(len(str(x)))])
    elif hasattr(x, "data_vars"):
        for k in sorted(map(str, x.variables)):
            yield from walk(np.asarray(x[k].values), path + "/" + k)
    elif hasattr(x, "coords") and hasattr(x, "values"):
        for k in sorted(map(str, x.coords)):
            yield from walk(np.asarray(x.coords[k].values), path + "/@" + k)
        yield from walk(np.asarray(x.values), path)
    elif hasattr(x, "todense"):
        yield from walk(np.asarray(x.todense()), path)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from walk(x[k], path + "/" + str(k))
    elif isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.dtype == object):
        x = list(x)
        if x and all(isinstance(v, (int, float, complex, np.number)) for v in x):
            yield from walk(np.asarray(x), path)
        else:
            yield path, np.array([float(len(x))])
            for i, v in enumerate(x):
                yield from walk(v, path + "[%d]" % i)
    elif callable(x) and not isinstance(x, np.ndarray):
        yield path, np.array([1.0])
    else:
        a = np.asarray(x)
        if a.dtype.kind in "USO":
            yield path, np.array([float(a.size)])
        elif a.dtype.kind == "c":
            yield path + ".re", a.real.astype(float)
            yield path + ".im", a.imag.astype(float)
        else:
            yield path, a.astype(float)


def compare(ob, oracle, got, want, msg, atol=1e-12, rtol=1e-9, skip=(), key=None):
    """Every number of two results is the same (NaN being a number like any other)."""
    g = [(p, v) for p, v in walk(got) if not any(s in p for s in skip)]
    w = [(p, v) for p, v in walk(want) if not any(s in p for s in skip)]
    if not ob.check(oracle, [(p, v.shape) for p, v in g] == [(p, v.shape) for p, v in w],
                    "%s: different items or shapes: %s" % (msg, [(a, b) for a, b in zip([(p, v.shape) for p, v in g], [(p, v.shape) for p, v in w]) if a != b][:2] or (len(g), len(w))), key=key):
        return False
    ok = True
    for (p, a), (_, b) in zip(g, w):
        a, b = (np.where(np.isnan(x), -54321.0, np.where(np.isinf(x), -54322.0, x)) for x in (a, b))
        ok &= bool(ob.close(oracle, a, b, atol, rtol, msg="%s: %s" % (msg, p), key=key))
    return ok


def size(x):
    return sum(v.size for _, v in walk(x))
