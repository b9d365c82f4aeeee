"""P19 wave-optical grating results conserve power and reduce to planar optics."""
import copy
import numpy as np
from rfv import grating as gr, ref_tmm
from rfv.mats import Mat, mk

ID = "P19"
TECHNIQUE = "runtime monitor: power balance of every result, comparison with an independent set-up of the same solver, an independent planar solver, and equivalent descriptions of the same grating"
RULE = ("random periodic stacks (square, rectangular, hexagonal, oblique and line lattices; circles, ellipses, rectangles, polygons, nested shapes; dispersive and absorbing media), any angle, s, p, u and "
        "mixed polarisation, through the Inkstone solver and, with a stand-in for it, the S4 code path; non-trivial: the pattern changes R or T by more than 1e-3")
REQUIRED = ["power balance", "bounds", "lossless layers", "direct solution", "planar limit", "no contrast", "full cell", "same grating, other words", "moved pattern", "turned structure",
            "unpolarised is the mean of s and p", "profile", "profile integrates", "wavelengths one by one", "epsilon map", "fields", "field points", "epsilon points", "plots", "S4 path", "absorption by order", "parallel"]
CASE_LIMIT = 150


def before():
    from rfv import fake_s4
    fake_s4.install()


def cases(rng, tier):
    n = 400 if tier == "quick" else 12000
    kinds = ["direct", "direct", "planar", "same", "profile", "s4", "direct", "maps", "points"]
    out = [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=2) for i in range(n)]
    out += [dict(kind="parallel", seed=int(rng.integers(1 << 31)), cost=3) for _ in range(2 if tier == "quick" else 20)]
    return out


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


def calc(g, o=None, lists=False):
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    o = o or gr.options(g)
    s = rcwa_structure(gr.lists(g) if lists else gr.layers(g), g["size"], o, mk(g["inc"]), mk(g["tr"]))
    return s, s.calculate(o), o


def describe(g):
    return "%s cell %s, layers %s, orders %d pol %s theta %.3f phi %.3f wl %s" % (
        g["kind"], np.round(g["size"], 1).tolist(), [(l["d"], np.round(l["mat"][:2], 3).tolist(), [s["type"] for s in l["shapes"]]) for l in g["layers"]], g["orders"], g["pol"], g["th"], g["ph"], np.round(g["wl"], 1))


def monitor(ob, g, r, msg):
    R, T, A = np.asarray(r["R"]), np.asarray(r["T"]), np.asarray(r["A_per_layer"])
    n = len(g["wl"])
    ob.check("power balance", R.shape == (n,) and T.shape == (n,) and A.shape == (n, len(g["layers"])), "shapes %s %s %s: %s" % (R.shape, T.shape, A.shape, msg))
    for x in (R, T, A):
        ob.finite("bounds", x, msg)
        ob.between("bounds", x, -1e-7, 1 + 1e-7, msg)
    ob.close("power balance", R + T + A.sum(1), np.ones(n), 1e-7, msg=msg)
    for i, l in enumerate(g["layers"]):
        if l["mat"][1] == 0 and all(s["mat"][1] == 0 for s in l["shapes"]):
            ob.close("lossless layers", A[:, i], np.zeros(n), 1e-7, msg="layer %d: %s" % (i + 1, msg))


def anomaly(g):
    """A diffraction order grazing a boundary: the solver's answer is ill-conditioned there."""
    b = np.array(gr.sim(gr.uniform(g), g["wl"][0]).pr.recipr_vec) if g["layers"] else None
    for w in g["wl"]:
        k0 = 2 * np.pi / w
        n0 = mk(g["inc"]).nk(w * 1e-9)[0].real
        kp = k0 * n0 * np.sin(g["th"]) * np.array([np.cos(g["ph"]), np.sin(g["ph"])])
        ns = [mk(m).nk(w * 1e-9)[0] for m in [g["inc"], g["tr"]] + [l["mat"] for l in g["layers"]]]
        m = np.array([(i, j) for i in range(-4, 5) for j in range(-4, 5)])
        kk = np.hypot(*(kp[:, None] + b.T @ m.T)) / k0
        for x in ns:
            if np.any(np.abs(np.sqrt(x ** 2 - kk ** 2 + 0j)) < 0.02):
                return True
    return False


def grating(rng, **kw):
    while True:
        g = gr.rand(rng, **kw)
        if not anomaly(g):
            return g


def compare(ob, oracle, r, e, msg, tol=1e-7):
    for q in ("R", "T", "A_per_layer"):
        ob.close(oracle, np.asarray(r[q]), np.asarray(e[q]), tol, msg="%s %s" % (q, msg))


def reference(g, pol=None):
    d = [gr.direct(g, w, g["th"], g["ph"], pol or g["pol"]) for w in g["wl"]]
    return dict(R=[x["R"] for x in d], T=[x["T"] for x in d], A_per_layer=[np.maximum(x["A"], 0) for x in d])


def k_direct(case, ob, rng):
    g = grating(rng)
    if rng.random() < 0.2:
        a = float(rng.uniform(0, 1.5))
        g["pol"] = (float(np.cos(a)), float(np.sin(a)))
    lists = rng.random() < 0.3
    s, r, o = calc(g, lists=lists)
    ob.event("gratings calculated")
    msg = describe(g)
    monitor(ob, g, r, msg)
    e = reference(g)
    compare(ob, "direct solution", r, e, ("lists, " if lists else "") + msg)
    if g["pol"] == "u":
        a, b = [calc(dict(g, pol=p))[1] for p in "sp"]
        compare(ob, "unpolarised is the mean of s and p", r, {q: (np.asarray(a[q]) + np.asarray(b[q])) / 2 for q in a}, msg, 1e-6)
    if len(g["wl"]) > 1:
        one = [calc(dict(g, wl=[w]))[1] for w in g["wl"][::-1]][::-1] if not lists else None
        if one:
            compare(ob, "wavelengths one by one", r, {q: np.concatenate([np.asarray(x[q]) for x in one]) for q in r}, msg)
    p = reference(gr.uniform(g))
    if np.abs(np.asarray(r["T"]) - np.asarray(p["T"])).max() > 1e-3 or np.abs(np.asarray(r["R"]) - np.asarray(p["R"])).max() > 1e-3:
        ob.fp(g["layers"], g["size"])


def planar_ref(g):
    R, T, A = [], [], []
    for w in g["wl"]:
        ns = [complex(mk(g["inc"]).n(w * 1e-9))] + [mk(l["mat"]).nk(w * 1e-9)[0] for l in g["layers"]] + [mk(g["tr"]).nk(w * 1e-9)[0]]
        cs = [ref_tmm.Coherent(ns, [l["d"] for l in g["layers"]], g["th"], w, p) for p in ("sp" if g["pol"] == "u" else g["pol"])]
        R.append(np.mean([c.R for c in cs]))
        T.append(np.mean([c.T for c in cs]))
        A.append(np.mean([c.A_layers for c in cs], axis=0))
    return dict(R=np.array(R), T=np.array(T), A_per_layer=np.array(A))


def k_planar(case, ob, rng):
    g = grating(rng)
    u = gr.uniform(g)
    if anomaly(u):
        return
    msg = describe(g)
    _, r, _ = calc(u)
    monitor(ob, u, r, msg)
    p = planar_ref(u)
    compare(ob, "planar limit", r, p, "without patterns: " + msg, 1e-6)
    c = copy.deepcopy(g)
    for l in c["layers"]:
        for s in l["shapes"]:
            s["mat"] = list(l["mat"])
    compare(ob, "no contrast", calc(c)[1], p, "patterns of the layer's own material: " + msg, 1e-6)
    # one layer filled by its pattern
    i = int(rng.integers(0, len(g["layers"])))
    (ax, ay), (bx, by) = g["size"]
    if ay == 0 and bx == 0:
        f = copy.deepcopy(u)
        m = gr.rand_mat(rng)
        f["layers"][i]["shapes"] = [dict(type="rectangle", mat=m, center=(0, 0), halfwidths=(ax / 2, by / 2), angle=0)]
        w = copy.deepcopy(u)
        w["layers"][i]["mat"] = m
        if not anomaly(w):
            compare(ob, "full cell", calc(f)[1], planar_ref(w), "layer %d filled with n %s: %s" % (i + 1, m, msg), 1e-5)
    if 1e-3 < p["R"][0] < 0.999:
        ob.fp(g["layers"], g["size"])


def k_same(case, ob, rng):
    g = grating(rng, wl=[float(rng.uniform(350, 1100))])
    msg = describe(g)
    _, r, _ = calc(g)
    monitor(ob, g, r, msg)
    dx, dy = [float(v) for v in rng.uniform(-0.5, 0.5, 2) * g["size"][0][0]]
    compare(ob, "moved pattern", calc(gr.moved(g, dx, dy))[1], r, "moved by %.1f, %.1f: %s" % (dx, dy, msg), 1e-6)
    if g["kind"] in ("square", "rect", "hex", "line"):
        t = gr.turned(g, {"square": 90, "rect": 180, "hex": 60, "line": 180}[g["kind"]])
        t["size"] = g["size"]
        compare(ob, "turned structure", calc(t)[1], r, msg, 1e-6)
    compare(ob, "same grating, other words", calc(gr.other_words(g, rng))[1], r, msg, 1e-6)
    # media of one layer repeated as two
    i = int(rng.integers(0, len(g["layers"])))
    h = copy.deepcopy(g)
    f = float(rng.uniform(0.2, 0.8))
    h["layers"].insert(i, copy.deepcopy(h["layers"][i]))
    h["layers"][i]["d"] *= f
    h["layers"][i + 1]["d"] *= 1 - f
    x = dict(calc(h)[1])
    A = np.asarray(x["A_per_layer"])
    A[:, i] += A[:, i + 1]
    x["A_per_layer"] = np.delete(A, i + 1, 1)
    compare(ob, "same grating, other words", x, r, "layer %d split in two: %s" % (i + 1, msg), 1e-6)
    ob.fp(g["layers"], g["size"])


def k_profile(case, ob, rng):
    g = grating(rng, wl=[float(rng.uniform(350, 1100))] if rng.random() < 0.7 else None)
    for l in g["layers"]:
        if rng.random() < 0.7:
            l["mat"][1] = float(10 ** rng.uniform(-2, -0.3))
    if rng.random() < 0.3:
        # an absorption edge: transparent at one of two wavelengths (often the first one)
        g["wl"] = [float(rng.uniform(750, 1100)), float(rng.uniform(350, 650))]
        if rng.random() < 0.3:
            g["wl"].reverse()
        for l in g["layers"]:
            for m in [l["mat"]] + [s["mat"] for s in l["shapes"]]:
                m.append(700.0)
    if anomaly(g):
        return
    d = np.array([l["d"] for l in g["layers"]])
    total = d.sum()
    spacing = float(total / rng.uniform(12, 40))
    kw = dict(depth_spacing=spacing * 1e-9)
    mode = str(rng.choice(["grid", "points", "limit"]))
    if mode == "points":
        kw["z_points"] = np.sort(rng.uniform(0, total, 12))
    elif mode == "limit":
        kw["z_limit"] = float(rng.uniform(0.3, 1)) * total
    o = gr.options(g, **kw)
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    s = rcwa_structure(gr.layers(g), g["size"], o, mk(g["inc"]), mk(g["tr"]))
    first = bool(rng.random() < 0.5)
    if first:
        s.calculate(o)
    r = s.calculate_profile(o)
    msg = "%s %s" % (mode, describe(g))
    monitor(ob, g, r, msg)
    P = np.asarray(r["profile"])
    z = kw["z_points"] if mode == "points" else np.arange(0, kw.get("z_limit", total), spacing)
    if not ob.check("profile", P.shape == (len(g["wl"]), len(z)), "shape %s, expected %d depths: %s" % (P.shape, len(z), msg)):
        return
    ob.between("profile", P, 0, np.inf, msg)
    edges = np.concatenate([[0], np.cumsum(d)])
    for i, w in enumerate(g["wl"]):
        pick = [int(k) for k in rng.choice(len(z), 5, replace=False) if np.min(np.abs(edges[1:] - z[k])) > 0.05]
        e = gr.direct(g, w, g["th"], g["ph"], g["pol"], depths=[z[k] for k in pick])
        ob.close("profile", P[i, pick], np.maximum(e["dens"], 0), 3e-6, 2e-3, msg="depths %s: %s" % (np.round([z[k] for k in pick], 2), msg))
        ob.fp(g["layers"], g["size"])
    # integral, with enough samples
    if mode == "grid" and len(g["wl"]) == 1:
        o2 = gr.options(g, z_points=np.concatenate([a + (b - a) * X5 for a, b in zip(edges[:-1], edges[1:])]))
        r2 = s.calculate_profile(o2)
        Q = np.asarray(r2["profile"])[0].reshape(len(d), -1)
        A = np.asarray(r2["A_per_layer"])[0]
        for i in range(len(d)):
            m = mk(g["layers"][i]["mat"]).nk(g["wl"][0] * 1e-9)[0]
            nmax = max([abs(m)] + [abs(mk(q["mat"]).nk(g["wl"][0] * 1e-9)[0]) for q in g["layers"][i]["shapes"]])
            if d[i] * nmax < 0.9 * g["wl"][0] and not g["layers"][i]["shapes"]:
                ob.close("profile integrates", (Q[i] * W5).sum() * d[i], A[i], 1e-4, 0.02, msg="layer %d: %s" % (i + 1, msg))


X5, W5 = np.polynomial.legendre.leggauss(8)
X5, W5 = (X5 + 1) / 2, W5 / 2


def k_maps(case, ob, rng):
    """Fields and permittivity maps."""
    g = grating(rng, wl=[float(rng.uniform(350, 1100))])
    for l in g["layers"]:
        l["mat"][1] = max(l["mat"][1], 0.01)
    if anomaly(g):
        return
    g["pol"] = str(rng.choice(["s", "p"]))
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    w = g["wl"][0]
    o = gr.options(g)
    s = rcwa_structure(gr.layers(g), g["size"], o, mk(g["inc"]), mk(g["tr"]))
    msg = describe(g)
    area = abs(g["size"][0][0] * g["size"][1][1] - g["size"][0][1] * g["size"][1][0])
    all_m = [g["inc"]] + [l["mat"] for l in g["layers"]] + [g["tr"]]
    for i in range(len(all_m)):
        eps = mk(all_m[i]).nk(w * 1e-9)[0] ** 2
        x, y, re, im = s.get_fourier_epsilon(i, w, o, n_points=24, plot=False)
        want = eps
        shapes = g["layers"][i - 1]["shapes"] if 0 < i < len(all_m) - 1 else []
        if shapes:
            areas = []
            for q in shapes:
                if q["type"] == "circle":
                    areas.append(np.pi * q["radius"] ** 2)
                elif q["type"] == "ellipse":
                    areas.append(np.pi * np.prod(q["halfwidths"]))
                elif q["type"] == "rectangle":
                    areas.append(4 * np.prod(q["halfwidths"]))
                else:
                    v = np.array(q["vertices"])
                    areas.append(0.5 * abs(np.sum(v[:, 0] * np.roll(v[:, 1], -1) - v[:, 1] * np.roll(v[:, 0], -1))))
            areas.append(0)
            want = eps
            outer = eps
            for q, a in zip(shapes, areas):
                e = mk(q["mat"]).nk(w * 1e-9)[0] ** 2
                want = want + (e - outer) * a / area
                outer = e
        X, Y = np.asarray(re), np.asarray(im)
        # the map of one cell includes both edges: leave the last row and column out
        got = np.mean(X[:-1, :-1]) + 1j * np.mean(Y[:-1, :-1])
        tol = 1e-6 if not shapes else 0.03 * max(abs(mk(q["mat"]).nk(w * 1e-9)[0] ** 2 - eps) for q in shapes) + 1e-6
        ob.check("epsilon map", X.shape == Y.shape and abs(got - want) < tol, "layer %d: mean permittivity %s, area-weighted %s: %s" % (i, np.round(got, 4), np.round(want, 4), msg))
    # field strength in the planar stack from the local absorption density
    u = gr.uniform(g)
    if anomaly(u):
        return
    s = rcwa_structure(gr.layers(u), g["size"], o, mk(g["inc"]), mk(g["tr"]))
    ns = [complex(mk(g["inc"]).n(w * 1e-9))] + [mk(l["mat"]).nk(w * 1e-9)[0] for l in g["layers"]] + [mk(g["tr"]).nk(w * 1e-9)[0]]
    c = ref_tmm.Coherent(ns, [l["d"] for l in g["layers"]], g["th"], w, g["pol"])
    for i, l in enumerate(g["layers"]):
        z = float(rng.uniform(0.02, 0.98)) * l["d"]
        xs, ys, E, H, Em, Hm = s.get_fields(i + 1, w, o, depth=z, n_points=4, plot=False)
        ob.close("fields", Em, np.sqrt(np.sum(np.abs(E) ** 2, 2)), 1e-9, msg="magnitude")
        dens = c.absorption_density(i + 1, np.array([z]))[0]
        eps = ns[i + 1] ** 2
        n0 = ns[0].real
        want = dens * n0 * np.cos(g["th"]) / (2 * np.pi / w * eps.imag)
        ob.close("fields", np.asarray(Em) ** 2, np.full(np.shape(Em), want), 1e-6 + 1e-4 * want, msg="|E|^2 in layer %d at %.2f nm: %s" % (i + 1, z, msg))
        ob.close("fields", np.linalg.norm(np.asarray(H), axis=2), Hm, 1e-9, msg="magnitude of H")
    ob.fp(g["layers"], g["size"])


def k_points(case, ob, rng):
    """Fields and permittivity at points of a patterned structure."""
    g = grating(rng, wl=[float(rng.uniform(350, 1100))], orders=int(rng.integers(3, 10)))
    g["pol"] = str(rng.choice(["s", "p"])) if rng.random() < 0.6 else tuple(float(v) for v in rng.uniform(0.2, 1, 2))
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    w, msg = g["wl"][0], describe(g)
    method = str(rng.choice(["Inkstone", "S4"]))
    o = gr.options(g, RCWA_method=method)
    s = rcwa_structure(gr.layers(g), g["size"], o, mk(g["inc"]), mk(g["tr"]))
    sp = {"s": (1, 0), "p": (0, 1)}.get(g["pol"], g["pol"]) if isinstance(g["pol"], str) else g["pol"]
    ds = [0] + [l["d"] for l in g["layers"]] + [0]
    n = len(ds)
    names = ["in"] + ["l%d" % k for k in range(n - 2)] + ["out"]

    def ref(i, x, y, z):
        q = gr.sim(g, w)
        q.SetExcitation(np.rad2deg(g["th"]), np.rad2deg(g["ph"]), *sp)
        q.SetFrequency(1 / w)
        # one point at a time: no doubt about axes
        f = np.array([[[np.ravel(v)[0] for v in q.GetLayerFields(x=[a], y=[b], z=z, layer=names[i])] for b in y] for a in x])
        return f[:, :, :3], f[:, :, 3:]
    for i in range(n):
        z = float(rng.uniform(0.05, 0.95)) * (ds[i] or 80)
        if i == 0:
            z = -z
        m = int(rng.integers(3, 6))
        if rng.random() < 0.3:
            X, Y = (np.max(np.abs(np.array(g["size"])[:, c])) * 1.5 for c in (0, 1))
            ext, box = None, [[-X, X], [-Y, Y]]
        else:
            c, h = rng.uniform(-300, 300, 2), rng.uniform(20, 700, 2)
            ext = box = [[float(c[k] - h[k]), float(c[k] + h[k])] for k in (0, 1)]
        xs, ys, E, H, Em, Hm = s.get_fields(i, w, o, extent=ext, depth=z, n_points=m, plot=False)
        wx, wy = np.linspace(*box[0], m), np.linspace(*box[1], m)
        ob.close("field points", xs, wx, 1e-6, msg="x: " + msg)
        ob.close("field points", ys, wy, 1e-6, msg="y: " + msg)
        e, h = ref(i, wx, wy, z)
        top = 1 + np.max(np.abs(e))
        ob.close("field points", E, e, 1e-6 * top, msg="E in layer %d at depth %.2f (%s): %s" % (i, z, method, msg))
        ob.close("field points", H, h, 1e-6 * (1 + np.max(np.abs(h))), msg="H in layer %d at depth %.2f (%s): %s" % (i, z, method, msg))
        ob.close("field points", Em, np.sqrt(np.sum(np.abs(e) ** 2, 2)), 1e-6 * top, msg="|E| in layer %d: %s" % (i, msg))
        ob.close("field points", Hm, np.sqrt(np.sum(np.abs(h) ** 2, 2)), 1e-6 * (1 + np.max(np.abs(h))), msg="|H| in layer %d: %s" % (i, msg))
        plots(ob, s, i, w, o, msg)
        if method != "S4":
            xs, ys, re, im = s.get_fourier_epsilon(i, w, o, n_points=5, plot=False)
            q = gr.sim(g, w).ReconstructLayer(names[i], 5, 5)
            xs, ys = (np.meshgrid(xs, ys, indexing="ij") if np.ndim(xs) == 1 else (xs, ys))
            for x, y, e in zip(np.ravel(xs), np.ravel(ys), np.ravel(np.asarray(re) + 1j * np.asarray(im))):
                j = np.argmin(np.hypot(q[0] - x, q[1] - y))
                ob.close("epsilon points", e, np.ravel(q[2][:, :, 0, 0])[j], 1e-7, msg="at (%.2f, %.2f) in layer %d: %s" % (x, y, i, msg))
            continue
        k = 4
        E, H = (np.asarray(v) for v in s.get_fields_unit_cell(i, w, o, depth=z, n_points=k))
        for a in range(k):
            p = a / k * np.array(g["size"][0]) + ((a + 1) % k) / k * np.array(g["size"][1])
            e, h = ref(i, p[:1], p[1:], z)
            ob.close("field points", E[a][(a + 1) % k], e[0, 0], 1e-6 * top, msg="E of the unit cell, layer %d at depth %.2f: %s" % (i, z, msg))
            ob.close("field points", H[a][(a + 1) % k], h[0, 0], 1e-6 * (1 + np.max(np.abs(h))), msg="H of the unit cell, layer %d at depth %.2f: %s" % (i, z, msg))
        if 0 < i < n - 1:
            if rng.random() < 0.3:
                zbox = [[-1.5 * v, 1.5 * v] for v in np.max(np.abs(np.array(g["size"])), axis=0)]
                xs, ys, E, H = s.get_fields_z_integral(i, w, o, n_points=2, plot=False)[:4]
                ob.close("field points", np.concatenate([xs, ys]), np.ravel(zbox), 1e-6, msg="default extent: " + msg)
            else:
                zbox = box
                xs, ys, E, H = s.get_fields_z_integral(i, w, o, extent=[[v[0], v[1]] for v in box], n_points=2, plot=False)[:4]
            zs = (np.arange(60) + 0.5) / 60 * ds[i]
            f = [ref(i, np.array(zbox[0]), np.array(zbox[1]), zz) for zz in zs]
            for got, k, name in ((E, 0, "E"), (H, 1, "H")):
                want = np.mean([np.abs(v[k]) ** 2 for v in f], axis=0) * ds[i]
                ob.close("field points", np.real(got), want, 1e-3 * (1 + np.max(want)), 1e-2, msg="integral of |%s|^2 over layer %d: %s" % (name, i, msg))
        xs, ys, re, im = s.get_fourier_epsilon(i, w, o, extent=ext, n_points=7, plot=False)
        wx, wy = np.linspace(*box[0], 7), np.linspace(*box[1], 7)
        ob.close("epsilon points", xs, wx, 1e-6, msg="x: " + msg)
        ob.close("epsilon points", ys, wy, 1e-6, msg="y: " + msg)
        want = np.array([[permittivity(g, i, x, y, w) for y in wy] for x in wx])
        known = ~np.isnan(want)
        ob.close("epsilon points", np.asarray(re)[known] + 1j * np.asarray(im)[known], want[known], 1e-9, msg="layer %d: %s" % (i, msg))
    ob.fp(g["layers"], g["size"], method)


def plots(ob, s, i, w, o, msg):
    """What is drawn is what is returned."""
    import matplotlib
    import matplotlib.pyplot as plt
    matplotlib.use("Agg")
    for name in ("get_fields", "get_fourier_epsilon"):
        plt.close("all")
        r = getattr(s, name)(i, w, o, n_points=4, plot=True)
        axs = [a for f in plt.get_fignums() for a in plt.figure(f).axes]
        meshes = [c for a in axs for c in a.collections if type(c).__name__ == "QuadMesh" and a.get_xlabel()]
        ob.check("plots", len(meshes) == 2, "%s drew %d maps" % (name, len(meshes)))
        X, Y = np.asarray(r[0]), np.asarray(r[1])
        if X.ndim == 1:
            X, Y = np.meshgrid(X, Y, indexing="ij")
        for c, v in zip(meshes, r[-2:]):
            xy = np.asarray(c.get_coordinates())
            drawn = np.ravel(np.asarray(c.get_array()))
            mid = (xy[1:, 1:] + xy[1:, :-1] + xy[:-1, 1:] + xy[:-1, :-1]).reshape(-1, 2) / 4
            v = np.ravel(v)
            want = [v[np.argmin(np.hypot(X.ravel() - a, Y.ravel() - b))] for a, b in mid]
            ob.close("plots", drawn, want, 1e-9 * (1 + np.max(np.abs(v))), msg="%s of layer %d: %s" % (name, i, msg))
    plt.close("all")


def permittivity(g, i, x, y, w):
    """At a point of a layer; nan on an edge."""
    mats = [g["inc"]] + [l["mat"] for l in g["layers"]] + [g["tr"]]
    e = complex(mk(mats[i]).nk(w * 1e-9)[0])
    if i == 0:
        e = e.real
    e = e ** 2
    for s in (g["layers"][i - 1]["shapes"] if 0 < i < len(mats) - 1 else []):
        inside = 0
        for a in range(-9, 10):
            for b in range(-9, 10):
                p = np.array([x, y]) - np.array(s["center"], float) - a * np.array(g["size"][0]) - b * np.array(g["size"][1])
                t = np.deg2rad(s.get("angle", 0))
                p = np.array([p[0] * np.cos(t) + p[1] * np.sin(t), p[1] * np.cos(t) - p[0] * np.sin(t)])
                if s["type"] == "circle":
                    d = 1 - np.hypot(*p) / s["radius"]
                elif s["type"] == "ellipse":
                    d = 1 - np.hypot(*(p / s["halfwidths"]))
                elif s["type"] == "rectangle":
                    d = 1 - np.max(np.abs(p) / s["halfwidths"])
                else:
                    v = np.array(s["vertices"])
                    u = np.roll(v, -1, axis=0) - v
                    q = p - v
                    d = np.min((u[:, 0] * q[:, 1] - u[:, 1] * q[:, 0]) / np.hypot(*u.T)) / np.max(np.abs(v))
                if abs(d) < 1e-6:
                    return np.nan
                inside += d > 0
        if inside:
            e = complex(mk(s["mat"]).nk(w * 1e-9)[0]) ** 2
    return e


def k_s4(case, ob, rng):
    g = grating(rng, wl=[float(rng.uniform(350, 1100))])
    msg = describe(g)
    _, r, o = calc(g)
    o4 = gr.options(g, RCWA_method=str(rng.choice(["S4", "s4"])), A_per_order=True)
    z = np.sort(rng.uniform(0.01, 0.99, 4)) * sum(l["d"] for l in g["layers"])
    for x in (o, o4):
        x["z_points"] = z
    s, q, _ = calc(g, o4)
    monitor(ob, g, q, "S4: " + msg)
    compare(ob, "S4 path", q, r, msg, 1e-6)
    Ao = np.asarray(q["A_layer_order"])
    A = np.asarray(q["A_per_layer"])
    ob.check("absorption by order", Ao.shape == A.shape + (len(q["basis_set"]),), "shape %s: %s" % (Ao.shape, msg))
    ob.close("absorption by order", Ao.sum(2), A, 1e-6, msg="sum over orders: " + msg)
    rl, size = np.array(q["reciprocal"]), np.array(g["size"])
    ob.close("absorption by order", rl @ size.T, np.eye(2), 1e-9, msg="reciprocal lattice of %s" % (g["size"],))
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    a = np.asarray(s.calculate_profile(o4)["profile"])
    b = np.asarray(rcwa_structure(gr.layers(g), g["size"], o, mk(g["inc"]), mk(g["tr"])).calculate_profile(o)["profile"])
    ob.close("S4 path", a, b, 3e-6, 1e-3, msg="profile: " + msg)
    ob.fp(g["layers"], g["size"])


def k_parallel(case, ob, rng):
    g = grating(rng, wl=[500.0, 640.0, 900.0])
    r = calc(g)[1]
    o = gr.options(g, parallel=True, n_jobs=2)
    s, got, _ = calc(g, o)
    compare(ob, "parallel", got, r, describe(g), 1e-9)
    d = sum(l["d"] for l in g["layers"])
    o["depth_spacing"] = d / 9 * 1e-9
    a = np.asarray(s.calculate_profile(o)["profile"])
    o2 = gr.options(g, depth_spacing=d / 9 * 1e-9)
    b = np.asarray(calc(g, o2)[0].calculate_profile(o2)["profile"])
    ob.close("parallel", a, b, 1e-12, 1e-9, msg="profile: " + describe(g))
    ob.fp("parallel", g["layers"])
