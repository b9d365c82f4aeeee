"""P23 options and inputs are honoured or rejected, never silently misread."""
import os
import numpy as np
from rfv import bins, flat, grating as gr, stacks, tex
from rfv.calls import Call, containers
from rfv.mats import mk, rand_mat
from rfv.snap import snap, difference

ID = "P23"
TECHNIQUE = ("runtime monitor: every entry point run with the same options in different containers, with options left out, with the old option names and with malformed input; differential against the default "
             "container, acceptance and rejection observed, calls to the solvers recorded")
RULE = ("random calls of every entry point (planar, grating, fields, ray tracing with and without films, lookup tables, single interfaces, the matrix method with profiles, absorption functions) with options as attributes, "
        "items, State, dictionary, NumPy scalars and old names; documented options left out; inconsistent lists, unknown methods, solvers and polarisations; non-trivial: a call that returned numbers different from those of other cases")
REQUIRED = ["containers agree", "old option name", "left out means default", "left out, accepted", "documented defaults", "options share nothing", "malformed rejected", "well-formed accepted", "counts honoured", "solver honoured", "solver options honoured"]
CASE_LIMIT = 200


def before():
    from rfv import fake_s4
    fake_s4.install()


def cases(rng, tier):
    n = 300 if tier == "quick" else 9000
    kinds = ["containers", "malformed", "containers", "omitted", "malformed", "honoured", "state", "containers", "malformed", "omitted"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=2 if kinds[i % len(kinds)] in ("containers", "omitted") else 1) for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


def k_containers(case, ob, rng):
    c = Call(ob, rng)
    cs = containers(c.o, rng)
    ref_name = "attributes of default_options"
    want = c(cs[ref_name]())
    n = flat.size(want)
    ob.fp(c.name, c.seed)
    ob.event("%s: containers compared" % c.name)
    for name in sorted(rng.choice(sorted(set(cs) - {ref_name}), 3, replace=False).tolist()) + ["dictionary"]:
        flat.compare(ob, "containers agree", c(cs[name]()), want, "%s with options as %s, compared with %s" % (c.name, name, ref_name), key="containers agree:" + c.name)
    # the old name of the wavelength option
    o = dict(c.o)
    o["wavelengths"] = o.pop("wavelength")
    if rng.random() < 0.5:
        o["wavelength"] = np.linspace(400, 700, 3) * 1e-9
    if c.name in ("fields",):
        return
    how = str(rng.choice(sorted(cs)))
    how = how if "default_options" not in how and how != "dictionary with NumPy scalars" else "dictionary"
    flat.compare(ob, "old option name", c(containers(o, rng)[how]()), want, "%s with the option wavelengths (%s)" % (c.name, how), key="old option name:" + c.name)


# ------------------------------------------------------------------------------------------- left-out options
EXTRA = dict(periodic=True, initial_material=0, initial_direction=1, theta_spacing="sin", coherent=True)
HEAVY = {"wavelength", "n_rays", "n_theta_bins", "parallel", "n_jobs", "depth_spacing", "depth_spacing_bulk", "project_name", "wavelengths", "RCWA_method", "nx", "ny"}


def k_omitted(case, ob, rng):
    from rayflare.options import default_options
    from solcore.state import State
    c = Call(ob, rng)
    d0 = dict(default_options())
    d0.update(EXTRA)
    if c.name in ("planar", "planar profile") and not c.coh:
        c.o.update(coherent=True, coherency_list=None)
    for k in EXTRA:
        c.o.pop(k, None)
    uses = ["periodic", "initial_material", "initial_direction"] if "rays" in c.name else ["theta_spacing"] if "matri" in c.name or c.name in ("method", "absorption") else ["coherent"]
    ks = uses + sorted(set(rng.choice(sorted(set(d0) - HEAVY - set(EXTRA)), 3, replace=False).tolist()))
    for k in ks:
        o = dict(c.o)
        o[k] = d0[k]
        w = State(o) if rng.random() < 0.5 else dict(o)
        want = c(w)
        o = dict(o)
        del o[k]
        try:
            got = c(State(o) if rng.random() < 0.5 else dict(o))
        except Exception as err:
            documented = k in EXTRA or k in ("S4_options", "coherency_list")
            ob.check("left out, accepted", not documented, "%s without the option %s, for which there is a default, failed: %s: %s" % (c.name, k, type(err).__name__, err), key="left out, accepted:" + k)
            ob.event("left out and rejected: " + k)
            continue
        ob.check("left out, accepted", True)
        ob.event("left out and accepted: " + k)
        flat.compare(ob, "left out means default", got, want, "%s without %s, compared with the default %r" % (c.name, k, d0[k]), key="left out means default:" + k)
        ob.fp(c.name, c.seed, k)


# ------------------------------------------------------------------------------------------- default options
def k_state(case, ob, rng):
    from rayflare.options import default_options
    first = snap(dict(default_options()))
    a, b = default_options(), default_options()
    for k, v in (("pol", "u"), ("n_jobs", -1), ("coherent", True), ("coherency_list", None), ("phi_symmetry", np.pi / 2), ("theta_in", 0), ("phi_in", 0), ("only_incidence_angle", True), ("A_per_order", False)):
        ob.check("documented defaults", a[k] == v and type(a[k]) is type(v) and getattr(a, k) == v, "default of %s is %r, documented %r" % (k, a[k], v), key="documented defaults:" + k)
    ob.check("documented defaults", str(a.RCWA_method).lower() == "s4", "default solver %r" % a.RCWA_method)
    ob.check("documented defaults", np.ndim(a.wavelength) == 1 and len(a.wavelength) > 0 and 1e-8 < np.min(a.wavelength) < np.max(a.wavelength) < 1e-4, "default wavelengths %s" % (a.wavelength,))
    for k in ("n_theta_bins", "orders", "nx", "ny", "n_rays", "lookuptable_angles"):
        ob.check("documented defaults", isinstance(a[k], (int, np.integer)) and a[k] > 0, "default of %s is %r" % (k, a[k]))
    for k in ("I_thresh", "depth_spacing", "depth_spacing_bulk", "c_azimuth"):
        ob.check("documented defaults", 0 < a[k] < 1, "default of %s is %r" % (k, a[k]))
    b0 = snap(dict(b))
    # edit one of them, deeply
    for k in rng.permutation(sorted(a)):
        v = a[k]
        if isinstance(v, np.ndarray):
            v *= 0.5
            v[0] = -1
        elif isinstance(v, dict):
            for q in list(v):
                v[q] = "edited"
            v["new"] = 1
        elif isinstance(v, list):
            v.append(1)
        elif rng.random() < 0.5:
            setattr(a, k, "edited")
        else:
            a[k] = "edited"
    a.something_new = 5
    t = snap(dict(b))
    ob.check("options share nothing", t == b0, "editing one options object changed another: %s" % difference(b0, t))
    t = snap(dict(default_options()))
    ob.check("options share nothing", t == first, "editing an options object changed the defaults: %s" % difference(first, t))
    # calculations with one do not change another, nor the defaults
    c = Call(ob, rng)
    o1, o2 = (containers(c.o, rng)["default_options updated"]() for _ in range(2))
    s2 = snap(dict(o2))
    r1 = c(o1)
    for k in ("theta_in", "pol", "S4_options", "I_thresh"):
        if isinstance(o1[k], dict):
            o1[k]["Verbosity"] = 3
        elif k == "pol":
            o1[k] = {"s": "p", "p": "s", "u": "s"}[o1[k]]
        else:
            o1[k] = o1[k] + 0.01
    c.o["S4_options"] = dict(c.o["S4_options"])
    t = snap(dict(default_options()))
    ob.check("options share nothing", t == first, "a calculation (%s) changed the defaults: %s" % (c.name, difference(first, t)))
    o2["S4_options"] = dict(default_options().S4_options)
    flat.compare(ob, "options share nothing", c(o2), r1, "%s with an options object made alike before another one was edited" % c.name)
    ob.fp(c.name, c.seed)


# ------------------------------------------------------------------------------------------- honoured
def k_honoured(case, ob, rng):
    import S4
    c = Call(ob, rng, str(rng.choice(["planar profile", "rays", "film rays", "table", "planar matrix", "ray matrix", "method", "grating", "grating", "grating profile", "fields", "grating matrix"])))
    o = c.o
    log, sims = [], []
    new, setopt = S4.Simulation.__init__, S4.Simulation.SetOptions

    def init(self, size, orders):
        sims.append((size, orders))
        new(self, size, orders)

    def opt(self, **kw):
        log.append(kw)
        setopt(self, **kw)
    grating = c.name in ("grating", "grating profile", "fields", "grating matrix")
    if grating:
        method = str(rng.choice(["S4", "s4", "Inkstone", "INKSTONE", "inkstone", "InkStone"]))
        o["RCWA_method"] = method
        so = dict(o["S4_options"])
        for k in rng.choice(["DiscretizedEpsilon", "LanczosSmoothing", "SubpixelSmoothing", "ConserveMemory", "PolarizationDecomposition", "WeismannFormulation"], 2, replace=False):
            so[str(k)] = True
        so["DiscretizationResolution"] = int(rng.integers(3, 20))
        o["S4_options"] = so
        S4.Simulation.__init__, S4.Simulation.SetOptions = init, opt
    try:
        r = c(o if rng.random() < 0.5 else containers(o, rng)["attributes of default_options"]())
    finally:
        S4.Simulation.__init__, S4.Simulation.SetOptions = new, setopt
    if isinstance(r, str):
        return
    nwl = len(o["wavelength"])
    if grating:
        ob.check("solver honoured", (len(sims) > 0) == (method.lower() == "s4"), "%s with RCWA_method %s used S4 %d times" % (c.name, method, len(sims)))
        if method.lower() == "s4":
            ob.check("solver options honoured", len(log) >= 1 and all(all(k in kw and kw[k] == v for k, v in so.items()) for kw in log), "S4 was given %s, options %s" % (log[:1], so))
            ob.check("counts honoured", all(n == (4 if c.name == "grating matrix" else o["orders"]) for _, n in sims), "S4 was asked for %s orders, options %s" % (sims[:1], o["orders"]))
    if c.name in ("grating", "grating profile"):
        ob.check("counts honoured", np.shape(r["R"]) == (nwl,) and np.shape(r["A_per_layer"]) == (nwl, c.nl), "%s: shapes %s %s for %d wavelengths, %d layers" % (c.name, np.shape(r["R"]), np.shape(r["A_per_layer"]), nwl, c.nl))
    n_dz = sum(c.w) / (o["depth_spacing"] * 1e9)
    n_dz = {int(np.ceil(n_dz))} | ({int(np.round(n_dz)), int(np.round(n_dz)) + 1} if abs(n_dz - np.round(n_dz)) < 1e-6 else set())
    if c.name in ("planar profile", "grating profile"):
        ob.check("counts honoured", np.shape(r["profile"])[0] == nwl and np.shape(r["profile"])[1] in n_dz, "%s: profile of shape %s, expected %d x %s" % (c.name, np.shape(r["profile"]), nwl, n_dz))
    if c.name in ("rays", "film rays"):
        per = o["nx"] * o["ny"]
        n = int(np.ceil(o["n_rays"] / per)) * per
        ob.check("counts honoured", np.shape(r["thetas"]) == (nwl, n), "%s: %s rays observed, n_rays %d on %d points" % (c.name, np.shape(r["thetas"]), o["n_rays"], per))
        m = c.bw / o["depth_spacing_bulk"]
        ok = {int(np.ceil(m)), int(np.floor(m)) + 1} if abs(m - round(m)) > 1e-6 else {int(round(m)), int(round(m)) + 1}
        ob.check("counts honoured", np.shape(r["profile"])[-1] in ok, "%s: bulk profile of shape %s, expected %s samples" % (c.name, np.shape(r["profile"]), ok))
    if c.name == "table":
        ob.check("counts honoured", r.sizes["angle"] == o["lookuptable_angles"] and r.sizes["wl"] == nwl and r.sizes["layer"] in (c.nl, 1), "lookup table of sizes %s for %d angles, %d wavelengths" % (dict(r.sizes), o["lookuptable_angles"], nwl))
    if c.name in ("planar matrix", "ray matrix", "grating matrix"):
        bs, _ = bins.bins(o["n_theta_bins"], o["phi_symmetry"], o["c_azimuth"], o.get("theta_spacing", "sin"))
        if True:
            ob.check("counts honoured", np.shape(r[0])[-2:] == (len(bs), len(bs) // 2) and np.shape(r[0])[0] == nwl, "%s: matrix of shape %s for %d directions" % (c.name, np.shape(r[0]), len(bs)))
    if c.name == "method":
        ob.check("counts honoured", r[0].sizes["wl"] == nwl, "%d wavelengths in the result, %d asked for" % (r[0].sizes["wl"], nwl))
        if len(r) > 3 and o["bulk_profile"]:
            m = c.bw / o["depth_spacing_bulk"]
            ok = {int(np.ceil(m)), int(np.floor(m)) + 1} if abs(m - round(m)) > 1e-6 else {int(round(m)), int(round(m)) + 1}
            ob.check("counts honoured", np.shape(r[3][0])[-1] in ok, "bulk profile of shape %s, expected %s samples" % (np.shape(r[3][0]), ok))
    ob.fp(c.name, c.seed)


# ------------------------------------------------------------------------------------------- malformed
def bad_pol(rng):
    return [str(rng.choice(["x", "S", "P", "U", "unpolarized", "TE", "TM", "sp", "", "ss", "su"])), None, 3][int(rng.choice([0, 0, 0, 0, 0, 1, 2]))]


def bad_list(rng, cl):
    """A coherency list that cannot belong to as many layers, or has unknown entries."""
    k = str(rng.choice(["short", "long", "letter", "letter", "empty"]))
    if k == "short":
        return cl[:-1]
    if k == "long":
        return cl + ["c"] if rng.random() < 0.5 else ["i"] + cl + ["i"]
    if k == "empty":
        return []
    c = list(cl)
    c[int(rng.integers(len(c)))] = str(rng.choice(["x", "C", "coherent", "incoherent", "ci"]))
    return c


def on(c, o, S):
    """The matrix method on a given structure."""
    c.name = "method"
    return c.refused(lambda: c.go({}, S, o))


def ways(ob, rng):
    """(what is wrong, well-formed call, malformed call)"""
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.utilities import make_absorption_function
    from rayflare import textures
    c = Call(ob, rng, "planar")
    # (the base options are those of a valid call: each way takes its own from here)
    kind = str(rng.choice(["pol", "pol", "pol", "coherency", "coherency", "widths", "method", "names", "solver", "solver", "rays", "rays", "rays", "interface", "order", "absorption", "diffraction", "texture", "spacing", "layer", "table options"]))
    cont = lambda o: containers(o, rng)[str(rng.choice(["dictionary", "State of a dictionary", "default_options updated"]))]()
    if kind == "pol":
        name = str(rng.choice(["planar", "planar profile", "grating", "grating profile", "fields", "rays", "film rays", "planar matrix", "ray matrix", "film ray matrix", "grating matrix", "method"]))
        c = Call(ob, rng, name)
        c.front = str(rng.choice(["TMM", "RT_Fresnel", "RT_TMM", "RCWA"]))
        p = bad_pol(rng)
        return "polarisation %r (%s)" % (p, name if name != "method" else c.front), lambda: c(cont(c.o)), lambda: c(cont(dict(c.o, pol=p)))
    if kind == "coherency":
        name = str(rng.choice(["planar", "planar profile", "planar matrix", "table", "film rays", "method"]))
        c = Call(ob, rng, name)
        c.coh = False
        missing = rng.random() < 0.25 and name != "film rays"
        bad = None if missing else bad_list(rng, c.cl)
        good = list(c.cl)
        if name in ("planar", "planar profile"):
            o2 = dict(c.o, coherent=False, coherency_list=bad)
            if missing and rng.random() < 0.5:
                del o2["coherency_list"]
            return "coherency list %s for %d layers (%s)" % (bad, c.nl, name), lambda: c(cont(dict(c.o, coherent=False, coherency_list=good))), lambda: c(cont(o2))
        if name == "method":
            c.front, c.prof = str(rng.choice(["TMM", "RT_TMM"])), False
            kw = {} if missing and rng.random() < 0.5 else dict(coherency_list=bad)
            return ("coherency list %s for %d layers (%s interface)" % (bad, c.nl, c.front), lambda: on(c, cont(c.o), c.structure(coherent=False, coherency_list=good)), lambda: on(c, cont(c.o), c.structure(coherent=False, **kw)))

        def malformed():
            if bad is None and name in ("planar matrix", "table"):
                class NoList(list):
                    pass
                from rayflare.transfer_matrix_method import TMM
                from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
                if name == "table":
                    return make_TMM_lookuptable(c.layers(), mk(c.inc), mk(c.tr), "t", cont(c.o), c.dir(), coherent=False)
                return TMM(c.layers(), mk(c.inc), mk(c.tr), "t", cont(c.o), c.dir(), coherent=False, save=False)
            c.cl = bad
            return c(cont(c.o))
        return "coherency list %s for %d layers (%s)" % (bad, c.nl, name), lambda: c(cont(c.o)), malformed
    if kind == "widths":
        good = [float(x) for x in rng.uniform(20, 200, c.nl)]
        bad = good[:-1] if rng.random() < 0.5 else good + [50.0]
        if rng.random() < 0.3:
            bad = [np.inf] + good + [np.inf]
        grating = bool(rng.random() < 0.5)
        bad = np.array(bad) if rng.random() < 0.5 else bad

        def go(w):
            from rayflare.transfer_matrix_method import tmm_structure
            if grating:
                c.name = "grating"
                S = c.build(cont(c.o))[1]
            else:
                S = tmm_structure(c.layers(), incidence=mk(c.inc), transmission=mk(c.tr))
            S.set_widths(w)
            return S.calculate(cont(dict(c.o, coherent=True, coherency_list=None)))
        return "%d widths for %d layers (%s)" % (len(bad), c.nl, "grating" if grating else "planar"), lambda: go(good), lambda: go(bad)
    if kind == "method":
        m = str(rng.choice(["tmm", "RT", "RT_fresnel", "Fresnel", "rcwa", "mirror", "Lambert", "", "RT_tmm", "S4"]))
        return "interface method %r" % m, lambda: on(c, c.o, c.structure()), lambda: Interface(m, layers=c.layers(), name="f")
    if kind == "names":
        c.prof = False
        c.rear = str(rng.choice(["TMM", "RT_Fresnel", "Mirror"]))
        c.front = str(rng.choice(["TMM", "RT_Fresnel"]))
        return "two interfaces (%s, %s) of the same name" % (c.front, c.rear), lambda: on(c, cont(c.o), c.structure()), lambda: on(c, cont(c.o), c.structure(names=("f", "f")))
    if kind == "solver":
        name = str(rng.choice(["grating", "grating profile", "fields", "grating matrix", "method"]))
        c = Call(ob, rng, name)
        c.front = "RCWA"
        m = str(rng.choice(["S5", "rcwa", "", "ink", "inkstone2", "s4 ", "None", "grcwa"]))
        return "solver %r (%s)" % (m, name), lambda: c(cont(c.o)), lambda: c(cont(dict(c.o, RCWA_method=m)))
    if kind == "rays":
        from rayflare.ray_tracing import rt_structure
        c = Call(ob, rng, "rays")
        t = textures.planar_surface(size=1)
        n = int(rng.integers(1, 4))
        nt, nm, nw = n + 1, n, n
        k = int(rng.integers(6))
        nt, nm, nw = [(nt + 1, nm, nw), (nt - 1, nm, nw), (nt, nm + 1, nw), (nt, nm - 1, nw), (nt, nm, nw + 1), (nt, nm, nw - 1)][k]
        go = lambda a, b, d: rt_structure([t] * a, [mk(c.bulk)] * b, [c.bw] * d, mk(c.inc), mk(c.tr)).calculate(cont(c.o))
        if nt == 0:
            nt = n + 3
        if rng.random() < 0.1:
            return "lookup tables without options", lambda: c(cont(c.o)), lambda: rt_structure([c.texture(interface_layers=c.layers(), name="f"), t], [mk(c.bulk)], [c.bw], mk(c.inc), mk(c.tr), use_TMM=True, save_location=c.dir())
        return "%d textures, %d materials and %d widths" % (nt, nm, nw), lambda: go(n + 1, n, n), lambda: go(nt, nm, nw)
    if kind == "interface":
        c = Call(ob, rng, "method")
        c.front = "RT_Fresnel"

        def bad():
            S = c.structure()
            S[0].texture = None
            return on(c, cont(c.o), S)
        return "ray-traced interface without a texture", lambda: c(cont(c.o)), bad
    if kind == "order":
        c = Call(ob, rng, "method")
        c.front, c.rear = "TMM", "Mirror"
        S = c.structure()
        k = int(rng.integers(4))
        els = [[S[0], S[2]], [S[1], S[2]], [S[0], S[1]], [S[0], S[1], S[1], S[2]]][k]
        bad = lambda: on(c, cont(c.o), Structure(els, incidence=mk(c.inc), transmission=mk(c.tr)))
        return "structure of %s" % [type(e).__name__ for e in els], lambda: c(cont(c.o)), bad
    if kind == "absorption":
        c = Call(ob, rng, "absorption")
        c.front = "TMM"
        x = [c.layers(), None, "structure", object()][int(rng.integers(4))]

        def bad():
            return make_absorption_function(on(c, cont(c.o), c.structure()), x, cont(c.o))
        return "absorption function of %s" % type(x).__name__, lambda: c(cont(c.o)), bad
    if kind == "diffraction":
        from rayflare.analytic.diffraction import get_order_directions
        wl = np.array([500.0, 600.0, 700.0]) * 1e-9
        go = lambda a, b: get_order_directions(wl, ((700, 0), (0, 700)), 3, a, b, 0.1, 0.2)
        bad = rng.uniform(1, 2, int(rng.choice([1, 2, 4, 5])))
        args = (bad, mk(c.tr)) if rng.random() < 0.5 else (mk(c.inc), bad)
        return "%d refractive indices for 3 wavelengths" % len(bad), lambda: go(mk(c.inc), mk(c.tr)), lambda: go(*args)
    if kind == "texture":
        off = -float(rng.uniform(0.01, 0.3))
        return "hemisphere above its plane", lambda: textures.hemisphere_surface(size=1, radius=0.4, offset=0.05, n_per_side=5), lambda: textures.hemisphere_surface(size=1, radius=0.4, offset=off, n_per_side=5)
    if kind == "spacing":
        c = Call(ob, rng, str(rng.choice(["planar matrix", "ray matrix", "method"])))
        s = str(rng.choice(["sine", "cos", "lin", "", "Linear"]))
        return "theta_spacing %r (%s)" % (s, c.name), lambda: c(cont(c.o)), lambda: c(cont(dict(c.o, theta_spacing=s)))
    if kind == "layer":
        c = Call(ob, rng, "fields")
        i = int(rng.choice([-3, -1, c.nl + 2, c.nl + 5]))
        go = lambda k: c.build(cont(c.o))[1].get_fields(k, float(np.max(c.o["wavelength"])) * 1e9, cont(c.o), depth=5.0, n_points=2, plot=False)
        return "fields of layer %d of %d" % (i, c.nl), lambda: go(1), lambda: go(i)
    if kind == "table options":
        c = Call(ob, rng, str(rng.choice(["table", "film rays", "rays", "planar", "grating", "planar matrix"])))
        k = str(rng.choice(["wavelength", "theta_in", "pol", "n_theta_bins"]))
        k = {"table": "wavelength", "film rays": k if k != "n_theta_bins" else "wavelength", "rays": k if k != "n_theta_bins" else "pol", "planar": k if k != "n_theta_bins" else "pol", "grating": k if k != "n_theta_bins" else "pol", "planar matrix": k if k != "theta_in" else "n_theta_bins"}[c.name]
        o = dict(c.o)
        o.pop(k)
        if k == "pol" or k == "theta_in":
            return None
        return "no option %s (%s)" % (k, c.name), lambda: c(cont(c.o)), lambda: c(dict(o))
    raise KeyError(kind)


def k_malformed(case, ob, rng):
    for _ in range(3):
        w = ways(ob, rng)
        if w is None:
            continue
        name, good, bad = w
        good()
        ob.check("well-formed accepted", True)
        try:
            r = bad()
        except Exception as err:
            ob.check("malformed rejected", True)
            ob.event("rejected with " + type(err).__name__)
            ob.fp(name, case["seed"])
            continue
        if isinstance(r, str):
            continue
        ob.check("malformed rejected", False, "%s: computed with, giving %s" % (name, str([(p, np.round(v.ravel()[:2], 5).tolist()) for p, v in list(flat.walk(r))[:4]])[:300]), key="malformed rejected:" + name.split(" ")[0] + " " + name.split("(")[-1][:20])
