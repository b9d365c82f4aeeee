"""P25 calculations are pure and repeatable and never expose uninitialised data."""
import os
import pickle
import random
import subprocess
import sys
import warnings
import numpy as np
from rfv import flat
from rfv.calls import Call, MORE, WEIGHTS, containers
from rfv.core import poison, seed_all
from rfv.snap import snap, difference

ID = "P25"
TECHNIQUE = ("sanitizer and differential monitor: a NumPy allocator that fills fresh memory with a chosen pattern (uninitialised-read detection by comparing patterns), histories and fresh processes compared, "
             "inputs and process state watched, results overwritten")
RULE = ("random calls of every entry point repeated under other fill patterns of fresh memory, after other (also failing) calls, in fresh processes, with read-only inputs, with results overwritten in between; "
        "non-trivial: a call with numbers that was compared")
REQUIRED = ["fill patterns", "repeatable on new objects", "repeatable on the same objects", "after other calls", "as in a fresh process", "inputs unchanged", "read-only inputs", "overwritten results", "process state", "random numbers advance", "seed decides"]
CASE_LIMIT = 250
PATTERNS = [0x00, 0x40, 0xFF, 0x7F, 0xBF, 0x01]


def before():
    from rfv import fake_s4
    fake_s4.install()


def cases(rng, tier):
    n = 320 if tier == "quick" else 8000
    kinds = ["memory", "inputs", "memory", "history", "memory", "scribble", "inputs", "seeds", "memory", "history"]
    c = [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=2 if kinds[i % len(kinds)] in ("history", "memory") else 1) for i in range(n)]
    for kind in ("memory", "inputs"):   # every kind of call in turn
        for j, x in enumerate(x for x in c if x["kind"] == kind):
            x["name"] = (MORE + WEIGHTS)[j % len(MORE + WEIGHTS)]
    return c + [dict(kind="fresh", seed=int(rng.integers(1 << 31)), cost=9) for _ in range(8 if tier == "quick" else 300)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    s0 = state()
    globals()["k_" + case["kind"]](case, ob, rng)
    s1 = state()
    for k in s0:
        ob.check("process state", s0[k] == s1[k], "%s changed from %s to %s" % (k, str(s0[k])[:200], str(s1[k])[:200]), key="process state:" + k)


def state():
    """What belongs to the process, not to a calculation."""
    import logging
    return dict(cwd=os.getcwd(), environment=dict(os.environ), np_errors=np.geterr(), print_options=repr(np.get_printoptions()), logging=logging.root.manager.disable, recursion=sys.getrecursionlimit(),
                files=sorted(x for x in os.listdir(".") if not x.startswith("c%d_" % os.getpid()) and not x.startswith("fresh")), filters=len([f for f in warnings.filters if f[0] == "error"]))


def watch(ob, d, m, o):
    """Snapshots of everything handed over: attributes that exist before must not change."""
    def desc(x, depth=0):
        if isinstance(x, (list, tuple)) and depth < 4:
            own = [(i, desc(v, depth + 1)) for i, v in enumerate(x)]
            return (type(x).__name__, own, {k: desc(v, depth + 1) for k, v in vars(x).items()} if hasattr(x, "__dict__") else {})
        if hasattr(x, "__dict__") and not callable(x) and depth < 4:
            return (type(x).__name__, [], {k: desc(v, depth + 1) for k, v in vars(x).items()})
        return snap(x)
    return {k: desc(v) for k, v in m.items()}, snap(dict(o))


def changed(a, b, path=""):
    """First existing item that differs (new attributes are allowed)."""
    if isinstance(a, tuple) and len(a) == 3 and isinstance(a[2], dict) and isinstance(b, tuple) and len(b) == 3 and isinstance(b[2], dict):
        if a[0] != b[0] or len(a[1]) != len(b[1]):
            return "%s: %s of %d -> %s of %d" % (path, a[0], len(a[1]), b[0], len(b[1]))
        for (i, p), (_, q) in zip(a[1], b[1]):
            r = changed(p, q, "%s[%s]" % (path, i))
            if r:
                return r
        for k, p in a[2].items():
            if k not in b[2]:
                return "%s.%s removed" % (path, k)
            r = changed(p, b[2][k], "%s.%s" % (path, k))
            if r:
                return r
        return None
    if a != b:
        return "%s: %s" % (path, difference(a, b) or "changed")
    return None


def k_memory(case, ob, rng):
    c = Call(ob, rng, name=case.get("name"), names=MORE)
    P = poison(PATTERNS[0])
    ob.require(P is not None)
    ref = None
    for p in [0x00] + list(rng.choice(PATTERNS[1:], 3, replace=False)):
        P.set_pattern(int(p))
        n0 = P.stats()[0]
        r = c(dict(c.o))
        ob.event("fresh blocks filled", P.stats()[0] - n0)
        if ref is None:
            ref = r
            continue
        flat.compare(ob, "fill patterns", r, ref, "%s with fresh memory filled with 0x%02x, compared with zeroes" % (c.name, p), 1e-13, 1e-12, key="fill patterns:" + c.name)
    P.set_pattern(0x7F)
    ob.event("memory: " + c.name)
    ob.fp(c.name, c.seed)


def freeze(x, depth=0, seen=None):
    """Every array a user handed over becomes read-only."""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 6:
        return 0
    seen.add(id(x))
    n = 0
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            x.flags.writeable = False
        return 1
    if isinstance(x, dict):
        return sum(freeze(v, depth + 1, seen) for v in x.values())
    if isinstance(x, (list, tuple)):
        n += sum(freeze(v, depth + 1, seen) for v in x)
    if hasattr(x, "__dict__"):
        n += sum(freeze(v, depth + 1, seen) for v in vars(x).values())
    return n


def k_inputs(case, ob, rng):
    c = Call(ob, rng, name=case.get("name"), names=MORE)
    cs = containers(c.o, rng)
    name = str(rng.choice(sorted(cs)))
    o = cs[name]()
    try:
        before = watch(ob, c, {}, o)
        m, S = c.build(o)
    except ValueError as err:
        if "Incompatible" in str(err):
            return
        raise
    t = snap(dict(o))
    ob.check("inputs unchanged", t == before[1], "making the structure (%s) changed the options: %s" % (c.name, difference(before[1], t)), key="inputs unchanged:options " + c.name)
    a = watch(ob, c, m, o)
    r = c.refused(lambda: c.go(m, S, o))
    b = watch(ob, c, {k: m[k] for k in a[0]}, o)
    ob.check("inputs unchanged", b[1] == a[1], "%s (options as %s) changed the options: %s" % (c.name, name, difference(a[1], b[1])), key="inputs unchanged:options " + c.name)
    for k in a[0]:
        d = changed(a[0][k], b[0][k], k)
        ob.check("inputs unchanged", d is None, "%s changed what it was given: %s" % (c.name, d), key="inputs unchanged:%s %s" % (c.name, k))
    # again, on the same objects: the same
    r1 = flat_copy(r)
    r2 = c.refused(lambda: c.go(m, S, o))
    flat.compare(ob, "repeatable on the same objects", r2, r1, "%s repeated on the same objects" % c.name, 1e-13, 1e-12, key="repeatable on the same objects:" + c.name)
    # read-only arrays are good enough
    o = cs[name]()
    o["wavelength"] = np.array(o["wavelength"])
    freeze(o)
    if c.name in ("rays", "film rays"):     # the arrays of a texture belong to it
        S = None
    m, S = c.build(o)
    n = freeze({k: v for k, v in m.items() if k not in ("textures", "structure")})
    ob.event("read-only arrays", n + 1)
    r3 = c.refused(lambda: c.go(m, S, o))
    flat.compare(ob, "read-only inputs", r3, r1, "%s with read-only inputs" % c.name, 1e-13, 1e-12, key="read-only inputs:" + c.name)
    ob.fp(c.name, c.seed, name)


class flat_copy(list):
    """The numbers of a result, copied."""

    def __init__(self, r):
        super().__init__(r if isinstance(r, str) else [])
        self.items = [(p, np.array(v)) for p, v in flat.walk(r)]


_walk = flat.walk


def _walk2(x, path=""):
    if isinstance(x, flat_copy):
        yield from iter(x.items)
    else:
        yield from _walk(x, path)


flat.walk = _walk2


def scribble(x, rng, depth=0):
    """Overwrites everything numerical in a result, in place."""
    n = 0
    if depth > 6:
        return 0
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return sum(scribble(v, rng, depth + 1) for v in x.ravel())
        try:
            if x.dtype.kind in "fciu" and x.size and x.flags.writeable:
                x[...] = 7
                return 1
        except (ValueError, TypeError):
            pass
        return 0
    if hasattr(x, "data_vars"):
        return sum(scribble(x[k].values, rng, depth + 1) for k in x.data_vars)
    if hasattr(x, "coords") and hasattr(x, "values"):
        return scribble(x.values, rng, depth + 1)
    if hasattr(x, "todense") and hasattr(x, "data"):
        return scribble(x.data, rng, depth + 1)
    if isinstance(x, dict):
        return sum(scribble(v, rng, depth + 1) for v in x.values())
    if isinstance(x, list):
        n = sum(scribble(v, rng, depth + 1) for v in x)
        return n
    if isinstance(x, tuple):
        return sum(scribble(v, rng, depth + 1) for v in x)
    return n


def k_scribble(case, ob, rng):
    c = Call(ob, rng, names=MORE)
    o = containers(c.o, rng)[str(rng.choice(["dictionary", "attributes of default_options"]))]()
    try:
        m, S = c.build(o)
    except ValueError as err:
        if "Incompatible" in str(err):
            return
        raise
    so = snap(dict(o))
    r = c.refused(lambda: c.go(m, S, o))
    r1 = flat_copy(r)
    ob.event("arrays overwritten", scribble(r, rng))
    t = snap(dict(o))
    ob.check("overwritten results", t == so, "writing into the result of %s changed the options: %s" % (c.name, difference(so, t)), key="overwritten results:options " + c.name)
    r2 = c.refused(lambda: c.go(m, S, o))
    flat.compare(ob, "overwritten results", r2, r1, "%s, calculated again after its first result was written into" % c.name, 1e-13, 1e-12, key="overwritten results:" + c.name)
    m, S = c.build(o)
    flat.compare(ob, "overwritten results", c.refused(lambda: c.go(m, S, o)), r1, "%s, from new objects after its first result was written into" % c.name, 1e-13, 1e-12, key="overwritten results:" + c.name)
    ob.fp(c.name, c.seed)


def fail_somewhere(ob, rng):
    """A call that stops with an error half-way."""
    c = Call(ob, rng, names=MORE)
    o = dict(c.o)
    k = str(rng.choice(["wavelength", "pol", "material", "spacing"]))
    if k == "wavelength":
        o["wavelength"] = np.array([np.nan] * len(o["wavelength"])) if rng.random() < 0.5 else None
    elif k == "pol":
        o["pol"] = "x"
    elif k == "spacing":
        for q in ("nx", "n_theta_bins", "depth_spacing", "orders"):
            o.pop(q, None)
    try:
        if k == "material":
            m, S = c.build(o)
            bad = {"n": 0}

            def boom(*a, **kw):
                bad["n"] += 1
                raise RuntimeError("a material that fails")
            for v in list(m.values()) + (list(m["layers"]) if "layers" in m else []):
                x = getattr(v, "material", v)
                if hasattr(x, "nk"):
                    x.n = boom
            c.go(m, S, o)
        else:
            c(o)
    except Exception as err:  # noqa
        ob.event("failed on purpose")
        return c.name + " failing with " + type(err).__name__
    return c.name


def k_history(case, ob, rng):
    c = Call(ob, rng, names=MORE)
    r0 = flat_copy(c(dict(c.o)))
    hist = []
    for _ in range(int(rng.integers(2, 6))):
        if rng.random() < 0.35:
            hist.append(fail_somewhere(ob, rng))
        else:
            d = Call(ob, rng, names=MORE)
            if rng.random() < 0.4:          # the same kind of thing, other numbers
                d = Call(ob, rng, name=c.name)
            d(containers(d.o, rng)[str(rng.choice(["dictionary", "attributes of default_options"]))]())
            hist.append(d.name)
    flat.compare(ob, "after other calls", c(dict(c.o)), r0, "%s, again after %s" % (c.name, ", ".join(hist)), 1e-13, 1e-12, key="after other calls:" + c.name)
    flat.compare(ob, "repeatable on new objects", c(dict(c.o)), r0, "%s, again" % c.name, 1e-13, 1e-12, key="repeatable on new objects:" + c.name)
    ob.fp(c.name, c.seed, hist)


RANDOM = {"rays", "film rays"}


def k_seeds(case, ob, rng):
    """Calls draw from the random numbers of the process, and do not restart them."""
    c = Call(ob, rng, name=str(rng.choice(["rays", "rays", "film rays", "ray matrix", "planar", "grating", "table", "texture"])))
    c.o.update(random_ray_position=True, n_rays=60)
    try:
        m, S = c.build(c.o)
    except ValueError as err:
        if "Incompatible" in str(err):
            return
        raise
    n0, c.seed = c.seed, c.seed
    states, res = [], []
    for s in (n0, n0 + 12, n0):
        c.seed = s
        res.append(flat_copy(c.refused(lambda: c.go(m, S, dict(c.o)))))
        states.append((np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()))
    seed_all(n0)
    fresh = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
    ob.check("seed decides", states[0] == states[2], "%s: the same seed leaves the random numbers in another state" % c.name)
    ob.check("random numbers advance", states[0] != states[1], "%s leaves the random numbers in the same state whatever the seed: it restarts them" % c.name, key="random numbers advance:" + c.name)
    flat.compare(ob, "seed decides", res[2], res[0], "%s with the same seed again" % c.name, 1e-13, 1e-12)
    if c.name in ("planar", "grating", "table"):
        ob.check("random numbers advance", states[0] == fresh, "%s uses random numbers" % c.name)
        flat.compare(ob, "seed decides", res[1], res[0], "%s with another seed" % c.name, 1e-13, 1e-12)
    elif c.name in ("rays", "film rays", "ray matrix"):
        ob.check("random numbers advance", states[0] != fresh, "%s at random positions uses no random numbers" % c.name)
        d = [np.nanmax(np.abs(a - b)) if a.shape == b.shape and a.size else 1.0 for (_, a), (_, b) in zip(res[0].items, res[1].items)]
        ob.check("seed decides", max(d) > 0, "%s at random positions: the seed makes no difference" % c.name)
    ob.fp(c.name, c.seed)


def k_fresh(case, ob, rng):
    """The same calls, each in a process of its own in which nothing happened before."""
    seeds = [int(s) for s in rng.integers(0, 1 << 30, 14)]
    d = os.path.join(ob.dir, "fresh")
    os.makedirs(d)
    env = dict(os.environ)
    p = subprocess.run([sys.executable, "-m", "rfv.fresh", os.path.join(d, "out"), d] + [str(s) for s in seeds], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    order = list(seeds)
    rng.shuffle(order)
    n = 0
    for s in order:
        c = Call(ob, np.random.default_rng(s), names=MORE)
        r = c(dict(c.o))
        f = os.path.join(d, "out.%d" % s)
        if not ob.check("as in a fresh process", os.path.exists(f), "%s failed in a fresh process: %s" % (c.name, p.stderr.decode()[-300:])):
            continue
        with open(f, "rb") as fh:
            w = flat_copy("")
            w.items = pickle.load(fh)
        flat.compare(ob, "as in a fresh process", r, w, "%s after %d other calls, compared with a process without a history" % (c.name, n), 1e-13, 1e-12, key="as in a fresh process:" + c.name)
        n += 1
        ob.fp(c.name, s)
