"""P21 editing or reusing a structure gives the same result as building it anew."""
import copy
import os
import numpy as np
from rfv import grating as gr, stacks, tex, rtrun as rt
from rfv.core import seed_all
from rfv.mats import mk, Mat, rand_mat
from rfv.snap import snap, difference

ID = "P21"
TECHNIQUE = "runtime monitor: random histories of edits and calculations on one structure object, every result compared with a newly built structure (differential, with a model of the description), every input and earlier result watched for changes"
RULE = ("histories of 4-9 steps (edit widths, cell, shapes; calculate, profile, fields, permittivity, with other wavelengths, angles, polarisations, coherency, layers, spacings, solvers, containers) on planar, "
        "grating, ray-traced and matrix-method structures; non-trivial: a step whose result differs from that of the step before")
REQUIRED = ["planar history", "planar profile history", "grating history", "grating profile history", "field history", "permittivity history", "ray tracing history", "matrix history", "inputs unchanged", "earlier results unchanged",
            "width", "S4 history"]
CASE_LIMIT = 200


def before():
    from rfv import fake_s4
    fake_s4.install()


def cases(rng, tier):
    n = 260 if tier == "quick" else 8000
    kinds = ["planar", "grating", "planar", "grating", "rays", "matrix", "planar", "grating"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=3 if kinds[i % len(kinds)] in ("rays", "matrix") else 1) for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


class Watch:
    """Things that may not change any more."""

    def __init__(self, ob):
        self.ob, self.items = ob, []

    def add(self, oracle, name, x):
        self.items.append((oracle, name, x, snap(x)))
        return x

    def look(self, msg):
        for k, (oracle, name, x, s) in enumerate(self.items):
            t = snap(x)
            if t != s:
                self.ob.check(oracle, False, "%s changed %s, after %s" % (name, difference(s, t), msg), key=oracle + ":" + name)
                self.items[k] = (oracle, name, x, t)
            else:
                self.ob.check(oracle, True)


def attempt(f):
    try:
        return f()
    except ValueError as err:
        if "Incompatible absorption analytical functions" not in str(err):
            raise
        return str(err)


def flat(x):
    """All numbers in (nested, ragged) lists and arrays, NaN as a number of its own."""
    if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.dtype == object):
        x = list(x)
        return np.concatenate([np.array([-12345.0 - len(x)])] + [flat(q) for q in x])
    x = np.asarray(x)
    v = np.real(x).astype(float).ravel()
    return np.where(np.isnan(v), -54321.0, v)


def equal(ob, oracle, got, want, msg, tol=1e-9, keys=None):
    for k in (keys or want):
        a, b = np.asarray(got[k]), np.asarray(want[k])
        if b.dtype == object or k in ("all_p", "all_s"):
            continue
        if not ob.check(oracle, k in got and a.shape == b.shape, "%s has shape %s, newly built %s: %s" % (k, a.shape, b.shape, msg)):
            continue
        # an opaque stack made coherent overflows in the dependency: the same in both
        a, b = (np.where(np.isnan(x), -54321.0, x) for x in (a, b))
        ob.close(oracle, a, b, tol, 1e-7, msg="%s: %s" % (k, msg))


# ---------------------------------------------------------------------------------------------- planar
def k_planar(case, ob, rng):
    s = stacks.rand_stack(rng)
    if rng.random() < 0.5:
        s["coh"], s["cl"] = True, ["c"] * len(s["cl"])
    nbr = False
    w = Watch(ob)
    layers = stacks.solcore_layers(s)
    w.add("inputs unchanged", "layers", layers)
    from rayflare.transfer_matrix_method import tmm_structure
    given = layers
    T = tmm_structure(given, incidence=mk(s["inc"]), transmission=mk(s["tr"]), no_back_reflection=nbr)
    last, hist = None, []
    o = None
    for step in range(int(rng.integers(4, 10))):
        a = str(rng.choice(["widths", "calc", "calc", "profile", "profile"]))
        if a == "widths":
            s = dict(s, ds=[float(np.round(d * rng.uniform(0.3, 1.9), 3)) for d in s["ds"]])
            given = np.array(s["ds"]) if rng.random() < 0.4 else list(s["ds"])
            w.add("inputs unchanged", "widths", given)
            T.set_widths(given)
            hist.append("set_widths")
            ob.close("width", T.width, sum(s["ds"]) * 1e-9, 1e-15, 1e-9, msg="total width after %s" % hist)
            w.look(hist[-1])
            continue
        if rng.random() < 0.6:
            s = dict(s, wl=np.sort(rng.uniform(320, 1700, int(rng.integers(1, 5)))).tolist())
        if rng.random() < 0.6:
            s = dict(s, th=float(rng.choice([0, rng.uniform(0, 1.4)])), pol=str(rng.choice(["s", "p", "u"])))
        if rng.random() < 0.3 and any(m[1] <= 1e-3 for m in s["layers"]):
            s = dict(s, coh=not s["coh"])
        if stacks.degenerate(s) or (not s["coh"] and stacks.evanescent_incoherent(s)):
            s = dict(s, coh=True, cl=s["cl"], th=0.0)
        reuse = o is not None and rng.random() < 0.3
        kw = dict(depth_spacing=float(max(sum(s["ds"]) / rng.uniform(10, 60), 0.1)) * 1e-9)
        if reuse:       # the same options object, edited
            o.update(stacks.opts(s, **kw))
        else:
            o = stacks.opts(s, **kw)
        so = snap(o)
        lay = None
        if a == "profile":
            lay = sorted(int(x) for x in rng.choice(np.arange(1, len(s["ds"]) + 1), int(rng.integers(1, len(s["ds"]) + 1)), replace=False)) if rng.random() < 0.6 else None
            run_it = (lambda: T.calculate_profile(o, layers=lay)) if rng.random() < 0.5 else (lambda: T.calculate(o, profile=True, layers=lay))
        else:
            run_it = lambda: T.calculate(o)
        hist.append("%s(wl %d, theta %.2f, pol %s, %s%s)" % (a, len(s["wl"]), s["th"], s["pol"], "coherent" if s["coh"] else "".join(s["cl"]), "" if lay is None else " layers %s" % lay))
        r, e = attempt(run_it), attempt(lambda: stacks.build(s).calculate(stacks.opts(s, **kw), profile=a == "profile", layers=lay))
        if isinstance(r, str) or isinstance(e, str):        # the dependency's refusal (a known finding of P03)
            ob.check("planar history", isinstance(r, str) and isinstance(e, str), "%s failed with %s, newly built: %s" % (hist[-1], r if isinstance(r, str) else "nothing", e if isinstance(e, str) else "nothing"))
            continue
        msg = "after %s" % "; ".join(hist)
        equal(ob, "planar history", r, e, msg, keys=["R", "A", "T", "A_per_layer"])
        if a == "profile":
            equal(ob, "planar profile history", r, e, msg, keys=["profile", "profile_coeff"])
        t = snap(o)
        ob.check("inputs unchanged", t == so, "options changed by %s: %s" % (hist[-1], difference(so, t)))
        w.look(hist[-1])
        w.add("earlier results unchanged", "result of step %d" % step, r)
        if last is not None and (np.shape(last) != np.shape(r["R"]) or np.abs(np.asarray(last) - np.asarray(r["R"])).max() > 1e-3):
            ob.fp(s["layers"], s["wl"], hist)
        last = r["R"]
    w.look("the whole history")


# ---------------------------------------------------------------------------------------------- gratings
def anomalous(g):
    from checks.P19 import anomaly
    return anomaly(g)


def new_grating(g, o):
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    return rcwa_structure(gr.layers(g), g["size"], o, mk(g["inc"]), mk(g["tr"]))


def k_grating(case, ob, rng):
    while True:
        g = gr.rand(rng)
        if not anomalous(g):
            break
    w = Watch(ob)
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    L = gr.layers(g)
    for l in L:
        for q in l.geometry:
            if q["type"] == "polygon" and rng.random() < 0.6:
                q["vertices"] = [list(v) if rng.random() < 0.5 else tuple(v) for v in q["vertices"]]
    w.add("inputs unchanged", "geometry", [l.geometry for l in L])
    o = gr.options(g)
    S = rcwa_structure(L, g["size"], o, mk(g["inc"]), mk(g["tr"]))
    hist, last = [], None
    method = "Inkstone"
    for step in range(int(rng.integers(4, 9))):
        a = str(rng.choice(["widths", "size", "geometry", "calc", "calc", "profile", "profile", "fields", "epsilon"]))
        msg = lambda: "after %s; cell %s layers %s" % ("; ".join(hist), np.round(g["size"], 1).tolist(), [(l["d"], [q["type"] for q in l["shapes"]]) for l in g["layers"]])
        g0 = g
        if a == "widths":
            g = copy.deepcopy(g)
            for l in g["layers"]:
                l["d"] = float(np.round(l["d"] * rng.uniform(0.4, 1.7), 2))
            if anomalous(g):
                g = g0
                continue
            v = [l["d"] for l in g["layers"]]
            v = np.array(v) if rng.random() < 0.4 else v
            w.add("inputs unchanged", "widths", v)
            S.set_widths(v)
            hist.append("set_widths")
            ob.close("width", S.width, sum(l["d"] for l in g["layers"]) * 1e-9, 1e-15, 1e-6, msg="total width " + msg())
        elif a == "size":
            g = copy.deepcopy(g)
            f = float(rng.uniform(1.0, 1.3))
            g["size"] = tuple(tuple(f * x for x in v) for v in g["size"])
            if g["kind"] == "line":
                for l in g["layers"]:
                    if l["shapes"]:
                        g = g0
                        break
            if g is g0 or anomalous(g):
                g = g0
                continue
            S.set_size(g["size"])
            hist.append("set_size")
        elif a == "geometry":
            c = [(i, j) for i, l in enumerate(g["layers"]) for j, q in enumerate(l["shapes"])]
            if not c or g["kind"] == "line":
                continue
            i, j = c[int(rng.integers(len(c)))]
            if len(g["layers"][i]["shapes"]) > 1:
                continue
            g = copy.deepcopy(g)
            q = g["layers"][i]["shapes"][j]
            d = dict(center=(q["center"][0] + 5.0, q["center"][1] - 3.0))
            f = float(rng.uniform(0.6, 1))
            if q["type"] == "circle":
                d["radius"] = q["radius"] * f
            elif q["type"] in ("ellipse", "rectangle"):
                d["halfwidths"] = tuple(f * x for x in q["halfwidths"])
            else:
                d["vertices"] = tuple((f * x, f * y) for x, y in q["vertices"])
            q.update(d)
            w.add("inputs unchanged", "geometry entry", d)
            S.edit_geom_list(i + 1, j, d)
            hist.append("edit_geom_list(%d, %d)" % (i + 1, j))
        else:
            g = dict(g)
            if rng.random() < 0.55:
                g["wl"] = np.sort(rng.uniform(350, 1100, int(rng.integers(1, 4)))).tolist()
            if rng.random() < 0.6:
                g.update(th=float(rng.choice([0, rng.uniform(0, 1.2)])), ph=float(rng.uniform(0, 6.28)), pol=str(rng.choice(["s", "p", "u"])))
            if rng.random() < 0.3:
                g["orders"] = int(rng.integers(3, 15))
            if anomalous(g):
                g = g0
                continue
            if rng.random() < 0.3:
                method = str(rng.choice(["Inkstone", "inkstone", "S4", "s4"]))
            total = sum(l["d"] for l in g["layers"])
            kw = dict(RCWA_method=method, depth_spacing=total / float(rng.uniform(6, 20)) * 1e-9)
            if method.lower() == "s4" and rng.random() < 0.4:
                kw["S4_options"] = dict(LanczosSmoothing=True)
            if rng.random() < 0.4:
                o.update(gr.options(g, **kw))      # the same options object, edited
            else:
                o = gr.options(g, **kw)
            oo = dict(o) if rng.random() < 0.3 and a in ("calc",) else o
            so = snap(dict(oo))
            hist.append("%s(%s, wl %s, theta %.2f phi %.2f pol %s orders %d)" % (a, method, np.round(g["wl"], 1), g["th"], g["ph"], g["pol"], g["orders"]))
            o2 = gr.options(g, **kw)
            N = new_grating(g, o2)
            tag = "S4 history" if method.lower() == "s4" else "grating history"
            if a == "calc":
                r, e = S.calculate(oo), N.calculate(o2)
                equal(ob, tag, r, e, msg(), 1e-7, keys=["R", "T", "A_per_layer"])
                w.add("earlier results unchanged", "result of calculate", r)
            elif a == "profile":
                r, e = S.calculate_profile(oo), N.calculate_profile(o2)
                equal(ob, tag, r, e, msg(), 1e-7, keys=["R", "T", "A_per_layer"])
                # differences of fluxes over a very small distance are noisy
                ob.close("grating profile history", r["profile"], e["profile"], 5e-6, 1e-3, msg=msg())
                w.add("earlier results unchanged", "result of calculate_profile", r)
            elif a == "fields" and g["pol"] != "u":
                i = int(rng.integers(1, len(g["layers"]) + 1))
                wl = g["wl"][int(rng.integers(len(g["wl"])))]
                z = float(rng.uniform(0.05, 0.95)) * g["layers"][i - 1]["d"]
                r, e = [x.get_fields(i, wl, p, depth=z, n_points=4, plot=False) for x, p in ((S, oo), (N, o2))]
                for k in range(6):
                    ob.close("field history", r[k], e[k], 1e-6, 1e-5, msg="item %d of the fields %s" % (k, msg()))
            else:
                i = int(rng.integers(0, len(g["layers"]) + 2))
                wl = g["wl"][int(rng.integers(len(g["wl"])))]
                if method.lower() == "s4":
                    continue
                r, e = [x.get_fourier_epsilon(i, wl, p, n_points=8, plot=False) for x, p in ((S, oo), (N, o2))]
                for k in range(4):
                    ob.close("permittivity history", r[k], e[k], 1e-9, 1e-7, msg="item %d of the map of layer %d %s" % (k, i, msg()))
            t = snap(dict(oo))
            ob.check("inputs unchanged", t == so, "options changed by %s: %s" % (hist[-1], difference(so, t)))
            if a in ("calc", "profile"):
                if last is not None and (np.shape(last) != np.shape(r["R"]) or np.abs(np.asarray(last) - np.asarray(r["R"])).max() > 1e-3):
                    ob.fp(g["layers"], g["wl"], hist)
                last = np.array(r["R"])
        w.look(hist[-1])
    w.look("the whole history")


# ---------------------------------------------------------------------------------------------- ray tracing
def k_rays(case, ob, rng):
    from rayflare.ray_tracing import rt_structure
    from solcore.structure import Layer
    nl = int(rng.integers(1, 3))
    specs = [tex.rand(rng, kinds=("pyr", "planar", "V", "inv"), size=1.0) for _ in range(nl + 1)]
    films = rng.random() < 0.4
    mats = [[float(rng.uniform(1.3, 3.5)), float(10 ** rng.uniform(-6, -4)), 0.0, float(rng.choice([0, 1]))] for _ in range(nl)]
    widths = [float(rng.uniform(20, 300)) for _ in range(nl)]
    film = [[float(rng.uniform(1.4, 2.4)), 0.05, 0, 0]]
    name = "st"

    def build(o, loc):
        ts = []
        for i, sp in enumerate(specs):
            kw = {}
            if films and i == 0:
                kw = dict(interface_layers=[Layer(80e-9, mk(film[0]))], name="f", coherency_list=["c"])
            ts.append(tex.make(sp, **kw))
        return rt_structure(textures=ts, materials=[mk(m) for m in mats], widths=[x * 1e-6 for x in widths], incidence=mk([1.0, 0, 0, 0]), transmission=mk([1.2, 0, 0, 0]), options=o,
                            use_TMM=bool(films), save_location=loc, overwrite=True)

    def options(v):
        o = rt.opts(nx=3, ny=3, reps=3, th=v["th"], ph=v["ph"], pol=v["pol"], wl=np.array(v["wl"]) * 1e-9, I_thresh=1e-4, random_ray_position=v["rand"], lookuptable_angles=15)
        o.depth_spacing_bulk = v["dz"]
        return o

    if films:
        v = dict(wl=[500.0, 700.0], th=0.2, ph=0.3, pol="u", rand=False, dz=1e-6)
    v = dict(wl=np.sort(rng.uniform(400, 1100, 2)).tolist(), th=0.0, ph=0.0, pol="u", rand=False, dz=1e-6)
    o = options(v)
    S = build(o, os.path.join(ob.dir, "a"))
    w = Watch(ob)
    hist, last = [], None
    for step in range(int(rng.integers(3, 6))):
        if rng.random() < 0.6 and not films:
            v = dict(v, wl=np.sort(rng.uniform(400, 1100, int(rng.integers(1, 4)))).tolist())
        v = dict(v, th=float(rng.choice([0, rng.uniform(0, 1.1)])), ph=float(rng.uniform(0, 6)), rand=bool(rng.random() < 0.4), dz=float(rng.choice([1e-6, 2.5e-6])), pol="u" if films else str(rng.choice(["u", "s", "p"])))
        o = options(v)
        so = snap(dict(o))
        seed = int(rng.integers(1 << 30))
        seed_all(seed)
        r = S.calculate(o)
        hist.append("wl %s theta %.2f phi %.2f pol %s" % (np.round(v["wl"], 1), v["th"], v["ph"], v["pol"]))
        o2 = options(v)
        N = build(o2, os.path.join(ob.dir, "n%d" % step))
        seed_all(seed)
        e = N.calculate(o2)
        keys = ["R", "T", "A_per_layer", "thetas", "phis", "n_passes", "n_interactions"] + [k for k in ("R0", "profile", "A_per_interface", "A_interfaces") if k in e]
        for k in keys:
            a, b = flat(r[k]), flat(e[k])
            if ob.check("ray tracing history", a.shape == b.shape, "%s has %d numbers, newly built %d after %s" % (k, a.size, b.size, "; ".join(hist))):
                ob.close("ray tracing history", a, b, 1e-9, 1e-9, msg="%s after %s" % (k, "; ".join(hist)))
        t = snap(dict(o))
        ob.check("inputs unchanged", t == so, "options changed by rt_structure.calculate: %s" % difference(so, t))
        w.look(hist[-1])
        w.add("earlier results unchanged", "ray-traced result", r)
        if last is not None and (np.shape(last) != np.shape(r["R"]) or np.abs(np.asarray(last) - np.asarray(r["R"])).max() > 1e-3):
            ob.fp(mats, hist)
        last = np.array(r["R"])


# ---------------------------------------------------------------------------------------------- matrix method
def k_matrix(case, ob, rng):
    from checks import P10
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    d = P10.spec(rng, prof=bool(rng.random() < 0.3))
    S = P10.build(d)
    w = Watch(ob)
    w.add("inputs unchanged", "structure", S)
    # the first processing labels the structure and its elements; what describes them is watched
    describe = lambda: [(e.width, id(e.material)) if hasattr(e, "width") else (e.method, e.layers and [(l.width, id(l.material)) for l in e.layers], e.prof_layers, list(e.widths)) for e in S]
    w.items.clear()
    d0 = snap(describe())
    hist, last = [], None
    for step in range(int(rng.integers(2, 4))):
        d = dict(d, th=float(rng.uniform(0, 1.2)), ph=float(rng.uniform(0, 1.5)), nt=int(rng.integers(2, 5)))
        o = P10.opts(d, "p%d" % step)
        o.wavelength = np.sort(rng.uniform(500, 1000, int(rng.integers(1, 4)))) * 1e-9
        o.pol = str(rng.choice(["s", "p", "u"]))
        so = snap(dict(o))
        seed = int(rng.integers(1 << 30))
        seed_all(seed)
        process_structure(S, o, save_location=os.path.join(ob.dir, "a"))
        seed_all(seed + 1)
        res = calculate_RAT(S, o, save_location=os.path.join(ob.dir, "a"))
        a = P10.vec(res)
        t = snap(dict(o))
        ob.check("inputs unchanged", t == so, "options changed by the matrix method: %s" % difference(so, t))
        o2 = P10.opts(d, "p%d" % step)
        o2.wavelength, o2.pol = o.wavelength, o.pol
        N = P10.build(d)
        seed_all(seed)
        process_structure(N, o2, save_location=os.path.join(ob.dir, "n%d" % step))
        seed_all(seed + 1)
        b = P10.vec(calculate_RAT(N, o2, save_location=os.path.join(ob.dir, "n%d" % step)))
        hist.append("%s/%s wl %s theta %.2f pol %s bins %d" % (d["front"], d["rear"], np.round(o.wavelength * 1e9, 1), d["th"], o.pol, d["nt"]))
        ob.close("matrix history", a, b, 1e-9, 1e-7, msg="after %s" % "; ".join(hist))
        t = snap(describe())
        ob.check("inputs unchanged", t == d0, "structure changed: %s" % difference(d0, t))
        w.look(hist[-1])
        w.add("earlier results unchanged", "matrix result", res)
        if last is not None and (last.shape != a.shape or np.abs(last - a).max() > 1e-3):
            ob.fp(d, hist)
        last = a
