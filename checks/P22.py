"""P22 exported generation functions reproduce the optical absorption profile."""
import numpy as np
from rfv import ref_tmm, stacks, rtrun as rt
from rfv.core import seed_all
from rfv.mats import mk, Mat, rand_mat

ID = "P22"
TECHNIQUE = "runtime monitor: the exported function is sampled at its own and at other depths and judged against an independent local solution (planar films, exact ray attenuation), the optical result it was made from, and the absorption of every layer (conservation)"
RULE = ("all four kinds of structure (planar, grating solver, ray tracing with and without film interfaces, matrix method), 1-5 layers, any subset of profiled layers and interfaces, round and odd widths and depth steps, "
        "several wavelengths, s/p/u; non-trivial: at least two layers that absorb more than 1 % each")
REQUIRED = ["planar density", "grating density", "ray-traced density", "film interface density", "bulk under films", "matrix interface samples", "matrix bulk samples", "layer integral", "zero elsewhere", "positions", "units of shape", "between samples",
            "profile subset", "inputs unchanged"]
CASE_LIMIT = 150


def cases(rng, tier):
    n = 240 if tier == "quick" else 6000
    kinds = ["planar", "planar", "grating", "rays", "films", "matrix", "matrix", "films"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=2 if kinds[i % len(kinds)] in ("films", "matrix") else 1) for i in range(n)]


def run(case, ob):
    globals()["k_" + case["kind"]](case, ob, np.random.default_rng(case["seed"]))


# -- shared oracles ------------------------------------------------------------------------------
def export(ob, result, st, o, nwl, total, steps, msg):
    """Call the code under test; total in m, steps: the depth steps in use (m)."""
    from rayflare.utilities import make_absorption_function
    from rfv.snap import snap, difference
    r0, o0 = snap(result if not isinstance(result, (list, tuple)) else list(result)), snap(dict(o))
    pos, f = make_absorption_function(result, st, o)
    r1, o1 = snap(result if not isinstance(result, (list, tuple)) else list(result)), snap(dict(o))
    ob.check("inputs unchanged", r0 == r1, "result changed: %s" % difference(r0, r1))
    ob.check("inputs unchanged", o0 == o1, "options changed: %s" % difference(o0, o1))
    pos = np.asarray(pos, float)
    e = 1e-9 * total
    ob.check("positions", pos.ndim == 1 and len(pos) > 0 and abs(pos[0]) < e and np.all(np.diff(pos) > -e) and pos[-1] < total + e and np.diff(pos).max(initial=0) <= sum(steps) + e and total - pos[-1] <= max(steps) + e,
             "positions from %g to %g m with steps up to %g, structure of %g m, depth steps %s: %s" % (pos[0], pos[-1], np.diff(pos).max(initial=0), total, steps, msg))
    v = np.asarray(f(pos))
    ob.check("units of shape", v.shape == (nwl, len(pos)), "%s values for %d wavelengths and %d depths: %s" % (v.shape, nwl, len(pos), msg))
    # other depths: between the neighbouring samples
    z = np.sort(np.random.default_rng(len(pos)).uniform(pos[0], pos[-1], 40))
    z = z[np.abs(z[:, None] - pos).min(1) > 1e-6 * min(steps)]
    k = np.clip(np.searchsorted(pos, z, side="right") - 1, 0, len(pos) - 2) if len(pos) > 1 else np.zeros(len(z), int)
    if len(pos) > 1:
        g = np.asarray(f(z))
        a, b = v[:, k], v[:, k + 1]
        t = 1e-9 * np.abs(v).max() + 1e-12
        ob.check("between samples", g.shape == a.shape and np.all(g >= np.minimum(a, b) - t) and np.all(g <= np.maximum(a, b) + t), "values between two samples lie outside them: %s" % msg, n=g.size)
    return pos, f, v


def unclear(own, round_):
    """With round widths and steps rounding decides on which side of a boundary a sample lies: one sample either way."""
    own = np.asarray(own)
    return np.abs(np.diff(own, axis=-1)).max(initial=0) * 2.01 if round_ else 0.0


def quiet(v, m):
    """Zero up to the rounding of interpolation."""
    return np.all(np.abs(v[:, m]) <= 1e-12 * np.abs(v).max(initial=0))


def in_layer(pos, a, b, e):
    """Samples certainly inside [a, b)."""
    return (pos >= a + e) & (pos < b - e)


def integral(ob, pos, v, a, b, step, want, extra, msg):
    """Left sum over the samples of one layer."""
    e = 1e-9 * (b - a) + 1e-15
    m = (pos >= a - e) & (pos < b - e)
    if m.sum() < 4:
        return
    for i in range(len(v)):
        s = v[i, m]
        if len(s) == 0:
            continue
        tol = step * (np.abs(np.diff(s)).sum() + 2.2 * np.abs(s).max()) * 1.05 + extra + 1e-9
        ob.close("layer integral", s.sum() * step, want[i], tol, msg="%s, wavelength %d" % (msg, i))


def nice_widths(rng, n, round_):
    if round_:
        return [float(rng.choice([10, 20, 30, 50, 60, 70, 90, 100, 110, 120, 150, 300, 350, 700, 1000, 1100])) for _ in range(n)]
    return [float(np.round(10 ** rng.uniform(0.9, 2.9), 3)) for _ in range(n)]


def step_for(rng, ds, round_):
    if round_:
        return float(rng.choice([1.0, 0.5, 2.0, 5.0, 0.7, 0.1 if sum(ds) < 500 else 1.0]))
    return float(max(min(min(ds) / rng.uniform(3, 40), 10), sum(ds) / 3000))


# -- planar --------------------------------------------------------------------------------------
def k_planar(case, ob, rng):
    from checks.P03 import usable, density
    from rayflare.options import default_options
    while True:
        s = stacks.rand_stack(rng, coherent=bool(rng.random() < 0.7), kmax=0.5, force_profile=True)
        r_ = rng.random() < 0.5
        if s["coh"]:
            s["ds"] = nice_widths(rng, len(s["ds"]), r_)
        else:
            s["ds"] = [float(np.round(d, -1)) if r_ else d for d in s["ds"]]
            s["wl"] = (s["wl"] + [700.0, 1100.0])[:3]
            s["wl"] = sorted(s["wl"])
        if usable(s) and (s["coh"] or "i" in s["cl"]):
            break
    dz = step_for(rng, s["ds"], r_) if s["coh"] else float(rng.choice([10.0, 50.0, 70.0]))
    if sum(s["ds"]) / dz > 30000:
        dz = float(np.round(sum(s["ds"]) / 20000, 0) + 1)
    T = stacks.build(s)
    o = default_options()
    o.update(stacks.opts(s, depth_spacing=dz * 1e-9))
    nl = len(s["ds"])
    sub = None
    if rng.random() < 0.4 and nl > 1:
        sub = sorted(int(x) for x in rng.choice(np.arange(1, nl + 1), int(rng.integers(1, nl)), replace=False))
    try:
        r = T.calculate_profile(o, layers=sub) if rng.random() < 0.5 else T.calculate(o, profile=True, layers=sub)
    except ValueError as err:
        if "Incompatible absorption analytical functions" in str(err) and not s["coh"]:
            return
        raise
    msg = "%s nm step %g, theta %.2f pol %s %s layers %s" % (s["ds"], dz, s["th"], s["pol"], "".join(s["cl"]), sub)
    total = sum(s["ds"]) * 1e-9
    pos, f, v = export(ob, r, T, o, len(s["wl"]), total, [dz * 1e-9], msg)
    if v.shape != (len(s["wl"]), len(pos)):
        return
    edges = np.concatenate([[0], np.cumsum(s["ds"])]) * 1e-9
    A = np.asarray(r["A_per_layer"])
    if sub is not None:
        ob.check("profile subset", True)
    for l in range(1, nl + 1):
        m = in_layer(pos, edges[l - 1], edges[l], 1e-6 * 1e-9)
        if sub is not None and l not in sub:
            ob.check("zero elsewhere", quiet(v, m), "layer %d was not profiled but generates up to %g: %s" % (l, np.abs(v[:, m]).max(initial=0), msg), n=m.sum() + 1)
            continue
        integral(ob, pos, v, edges[l - 1], edges[l], dz * 1e-9, A[:, l - 1], 1e-6, "layer %d: %s" % (l, msg))
        if not s["coh"] and s["cl"][l - 1] == "i" or not m.any():
            continue
        for i, w in enumerate(s["wl"]):
            zz = (pos[m] - edges[l - 1]) * 1e9
            d = np.mean([density(dict(s, pol=q), w, l, zz) for q in (("s", "p") if s["pol"] == "u" else (s["pol"],))], axis=0) * 1e9
            if not s["coh"] and A[i].sum() < 1e-3:
                continue
            if not s["coh"] and np.all(v[i, m] == 0):       # blanked by the dependency where almost no light arrives (P03)
                continue
            # solvers agree to O(k) in absorbing incoherent surroundings
            ik = max([mk(q).k(w * 1e-9) for q, c in zip(s["layers"], s["cl"]) if c == "i"] + [0.0]) if not s["coh"] else 0.0
            ob.close("planar density", v[i, m], d, (1e-6 + 4 * ik) * np.abs(d).max() + 1e-3, 1e-5, msg="layer %d at %g nm, %s" % (l, w, msg))
    if (A > 0.01).sum(1).max() > 1:
        ob.fp(msg)


# -- grating solver ------------------------------------------------------------------------------
def k_grating(case, ob, rng):
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    from rayflare.options import default_options
    from solcore.structure import Layer
    nl = int(rng.integers(1, 4))
    r_ = rng.random() < 0.5
    while True:
        ds = nice_widths(rng, nl, r_)
        if sum(ds) < 1500:
            break
    mats = [[float(rng.uniform(1.3, 3.5)), float(10 ** rng.uniform(-2, -0.5)), 0, 0] for _ in range(nl)]
    dz = sum(ds) / float(rng.uniform(15, 50))
    if r_:
        dz = float(rng.choice([d for d in (2.0, 5.0, 10.0, 7.0, 25.0, 50.0) if sum(ds) / d > 3 and sum(ds) / d < 200]))
    wl = np.sort(rng.uniform(400, 1100, int(rng.integers(1, 4))))
    th, pol = float(rng.choice([0, rng.uniform(0, 1.1)])), str(rng.choice(["s", "p", "u"]))
    tr = [float(rng.uniform(1, 3)), 0.0, 0, 0]
    o = default_options()
    o.wavelength, o.theta_in, o.phi_in, o.pol, o.orders, o.depth_spacing, o.parallel, o.RCWA_method = wl * 1e-9, th, 0.0, pol, 1, dz * 1e-9, False, "Inkstone"
    S = rcwa_structure([Layer(d * 1e-9, mk(m)) for d, m in zip(ds, mats)], ((300, 0), (0, 300)), o, mk([1.0, 0, 0, 0]), mk(tr))
    r = S.calculate_profile(o)
    msg = "grating %s nm step %g theta %.2f pol %s" % (ds, dz, th, pol)
    total = sum(ds) * 1e-9
    pos, f, v = export(ob, r, S, o, len(wl), total, [dz * 1e-9], msg)
    if v.shape != (len(wl), len(pos)):
        return
    edges = np.concatenate([[0], np.cumsum(ds)]) * 1e-9
    A = np.asarray(r["A_per_layer"])
    for l in range(1, nl + 1):
        m = in_layer(pos, edges[l - 1], edges[l], 1e-15)
        integral(ob, pos, v, edges[l - 1], edges[l], dz * 1e-9, A[:, l - 1], 2e-3, "layer %d: %s" % (l, msg))
        for i, w in enumerate(wl):
            ns = [1.0 + 0j] + [complex(a[0], a[1]) for a in mats] + [complex(tr[0], 0)]
            d = np.mean([ref_tmm.Coherent(ns, ds, th, w, q).absorption_density(l, (pos[m] - edges[l - 1]) * 1e9) for q in (("s", "p") if pol == "u" else (pol,))], axis=0) * 1e9
            if m.any():
                ob.close("grating density", v[i, m], d, 2e-3 * np.abs(d).max() + 50, 2e-2, msg="layer %d at %g nm, %s" % (l, w, msg))
    if (A > 0.01).sum(1).max() > 1:
        ob.fp(msg)


# -- ray tracing ---------------------------------------------------------------------------------
def bulk_widths(rng, nl, round_):
    """widths and step in um"""
    w = [float(rng.choice([1, 2, 3, 5, 7, 10, 11, 30, 70])) if round_ else float(rng.uniform(1, 90)) for _ in range(nl)]
    dz = float(rng.choice([0.1, 0.2, 0.25, 0.5, 1.0, 0.7])) if round_ else sum(w) / float(rng.uniform(30, 400))
    return w, dz


def k_rays(case, ob, rng):
    from rayflare.ray_tracing import rt_structure
    from rayflare.textures import planar_surface
    nl = int(rng.integers(1, 4))
    n0 = float(rng.uniform(1, 3))
    wl = np.sort(rng.uniform(400, 1100, int(rng.integers(1, 4)))) * 1e-9
    w, dz = bulk_widths(rng, nl, rng.random() < 0.6)
    while dz > sum(w) / 5:
        dz /= 2
    kk = [float(10 ** rng.uniform(-4.5, -2)) for _ in range(nl)]
    th = float(rng.choice([0, rng.uniform(0, 1.2)]))
    o = rt.opts(2, 2, 1, th, float(rng.uniform(0, 6)), "u", wl, I_thresh=1e-12, depth_spacing_bulk=dz * 1e-6)
    # index matched: every ray goes straight through
    S = rt_structure([planar_surface() for _ in range(nl + 1)], [Mat(n0, k) for k in kk], [x * 1e-6 for x in w], Mat(n0), Mat(n0), options=o)
    seed_all(case["seed"])
    r = S.calculate(o)
    msg = "rays %s um step %g theta %.2f" % (w, dz, th)
    pos, f, v = export(ob, r, S, o, len(wl), sum(w) * 1e-6, [dz * 1e-6], msg)
    if v.shape != (len(wl), len(pos)):
        return
    edges = np.concatenate([[0], np.cumsum(w)]) * 1e-6
    A = np.asarray(r["A_per_layer"])
    for i, x in enumerate(wl):
        al = np.array([4 * np.pi * k / x for k in kk]) / np.cos(th)
        I = 1.0
        for l in range(nl):
            m = in_layer(pos, edges[l], edges[l + 1], 1e-12)
            d = I * al[l] * np.exp(-al[l] * (pos[m] - edges[l]))
            # R and A of a weakly absorbing matched medium differ by k^2; profile and absorption are scaled to agree
            if m.sum() >= 10:
                ob.close("ray-traced density", v[i, m], d, 1e-12 * al[l], 5e-3 + 2.5 * dz * 1e-6 * d.max(initial=0) / max(A[i, l], 1e-12), msg="layer %d: %s" % (l + 1, msg))
            integral(ob, pos, v[i:i + 1], edges[l], edges[l + 1], dz * 1e-6, A[i:i + 1, l], 1e-6, "layer %d: %s" % (l + 1, msg))
            I *= np.exp(-al[l] * w[l] * 1e-6)
    if (A > 0.01).sum(1).max() > 1:
        ob.fp(msg)


def k_films(case, ob, rng):
    from rayflare.ray_tracing import rt_structure
    from rayflare.textures import planar_surface
    from checks.P15 import layers as film_layers
    nl = int(rng.integers(1, 3))
    wl = np.sort(rng.uniform(400, 1100, int(rng.integers(1, 3)))) * 1e-9
    r_ = rng.random() < 0.5
    w, dzb = bulk_widths(rng, nl, r_)
    n0 = float(rng.uniform(1.5, 3))
    kk = [float(10 ** rng.uniform(-4.5, -2.5)) for _ in range(nl)]
    fs, prof = [], []
    for i in range(nl + 1):
        nf = int(rng.integers(1, 4))
        has = i == 0 or rng.random() < 0.6
        ds = [float(rng.choice([10, 30, 50, 60, 70, 100])) if r_ else float(np.round(rng.uniform(8, 90), 3)) for _ in range(nf)]
        fs.append(dict(mats=[[float(rng.uniform(1.3, 3.2)), float(10 ** rng.uniform(-1.5, -0.3)), 0, 0] for _ in range(nf)], ds=ds) if has else None)
        prof.append(sorted(int(q) for q in rng.choice(np.arange(1, nf + 1), int(rng.integers(1, nf + 1)), replace=False)) if has and (i == 0 or rng.random() < 0.8) else None)
    dz = float(rng.choice([1.0, 0.5, 2.0, 0.7])) if r_ else float(rng.uniform(0.4, 2.5))
    th, pol = float(rng.choice([0, rng.uniform(0, 1.1)])), str(rng.choice(["s", "p", "u"]))
    o = rt.opts(3, 3, 20, th, 0.4, pol, wl, I_thresh=1e-3, depth_spacing_bulk=dzb * 1e-6, depth_spacing=dz * 1e-9, lookuptable_angles=61)
    ts = []
    for i, f in enumerate(fs):
        kw = dict(interface_layers=film_layers(f), name="s%d" % i) if f else {}
        if prof[i] is not None:
            kw["prof_layers"] = prof[i]
        ts.append(planar_surface(**kw))
    S = rt_structure(ts, [Mat(n0, k) for k in kk], [x * 1e-6 for x in w], Mat(1.0), Mat(n0), options=o, use_TMM=True, save_location=ob.dir)
    seed_all(case["seed"])
    r = S.calculate(o)
    msg = "films %s prof %s step %g, bulks %s um step %g theta %.2f pol %s" % ([f["ds"] if f else None for f in fs], prof, dz, w, dzb, th, pol)
    total = sum(w) * 1e-6 + sum(sum(f["ds"]) for f in fs if f) * 1e-9
    pos, f_, v = export(ob, r, S, o, len(wl), total, [dz * 1e-9, dzb * 1e-6], msg)
    if v.shape != (len(wl), len(pos)):
        return
    z = 0.0
    P = np.asarray(r["profile"])
    full = np.arange(0, sum(w) - 1e-9 * dzb, dzb)
    be = np.concatenate([[0], np.cumsum(w)])
    for i, f in enumerate(fs):
        if f:
            edges = z + np.concatenate([[0], np.cumsum(f["ds"])]) * 1e-9
            A = np.asarray(r["A_per_interface"][i])
            k = 0
            for l in range(1, len(f["ds"]) + 1):
                # the edge samples of a layer may be counted to either side
                m = in_layer(pos, edges[l - 1], edges[l], 1e-15 + 1e-12 * total)
                m0 = (pos >= edges[l - 1] - 1e-15 - 1e-12 * total) & (pos < edges[l] - 1e-15 - 1e-12 * total)
                if prof[i] is None or l not in prof[i]:
                    ob.check("zero elsewhere", quiet(v, m), "layer %d of interface %d was not profiled but generates up to %g: %s" % (l, i, np.abs(v[:, m]).max(initial=0), msg), n=m.sum() + 1)
                    continue
                # samples of this layer in the result: every layer starts one
                npt = len(np.arange(0, f["ds"][l - 1] - 1e-7 * dz, dz))
                data = np.asarray(r["interface_profiles"][i])
                if data.shape[1] != sum(len(np.arange(0, f["ds"][q - 1] - 1e-7 * dz, dz)) for q in prof[i]):
                    ob.event("a sample at the very end of a layer")       # rounding of width / step
                    lenient = True
                else:
                    lenient = False
                zz = edges[l - 1] + np.arange(npt) * dz * 1e-9
                for j in range(len(wl)):
                    own = data[j, k:k + npt] * 1e9
                    if not ob.check("film interface density", m0.sum() >= 1 or npt == 0, "no samples in layer %d of interface %d: %s" % (l, i, msg)):
                        continue
                    got = np.interp(zz, pos[m0], v[j, m0])
                    if not lenient:
                        ob.close("film interface density", got, own, 1e-9 * np.abs(own).max() + 1e-6, 1e-7, msg="layer %d of interface %d: %s" % (l, i, msg))
                    integral(ob, pos, v[j:j + 1], edges[l - 1], edges[l], dz * 1e-9, A[j:j + 1, l - 1], 0.02 * A[j].sum(), "layer %d of interface %d: %s" % (l, i, msg))
                k += len(np.arange(0, f["ds"][l - 1], dz))
            z = edges[-1]
        if i < nl:
            m = in_layer(pos, z, z + w[i] * 1e-6, 1e-12 * total)
            kz = (full >= be[i] - 1e-9 * dzb) & (full < be[i + 1] - 1e-9 * dzb)
            if m.sum() and kz.any():
                zz = z + (full[kz] - be[i]) * 1e-6
                ok = (zz >= pos[m][0] - 1e-12 * total) & (zz <= pos[m][-1] + 1e-12 * total)
                if (f is not None or (i > 0 and fs[i] is None)):
                    for j in range(len(wl)):
                        own = P[j, np.nonzero(kz)[0]] * 1e9
                        got = np.interp(zz, pos[m], v[j, m])
                        s = ok
                        ob.close("bulk under films", got[s], own[s], 1e-9 * np.abs(own).max() + 1e-9 + unclear(own, r_), 1e-6, msg="bulk %d: %s" % (i, msg))
                integral(ob, pos, v, z, z + w[i] * 1e-6, dzb * 1e-6, np.asarray(r["A_per_layer"])[:, i], 1e-6, "bulk %d: %s" % (i, msg))
            z += w[i] * 1e-6
    ob.fp(msg)


# -- matrix method -------------------------------------------------------------------------------
def k_matrix(case, ob, rng):
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    from rayflare.options import default_options
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.textures import planar_surface, regular_pyramids
    from solcore.structure import Layer
    r_ = rng.random() < 0.6
    fs, prof, meth = [], [], []
    for i in range(2):
        m = str(rng.choice(["TMM", "TMM", "RT_TMM", "Lambertian", "Mirror", "RT_Fresnel"] if i else ["TMM", "TMM", "RT_TMM", "RT_Fresnel"]))
        meth.append(m)
        nf = int(rng.integers(1, 4)) if m in ("TMM", "RT_TMM") else 0
        ds = [float(rng.choice([10, 30, 50, 60, 70, 100])) if r_ else float(np.round(rng.uniform(8, 90), 3)) for _ in range(nf)]
        fs.append(dict(mats=[[float(rng.uniform(1.3, 3.2)), float(10 ** rng.uniform(-1.5, -0.3)), 0, 0] for _ in range(nf)], ds=ds))
        prof.append(sorted(int(q) for q in rng.choice(np.arange(1, nf + 1), int(rng.integers(1, nf + 1)), replace=False)) if nf and rng.random() < 0.7 else None)
    bulkp = bool(rng.random() < 0.7) or prof == [None, None]
    wl = np.sort(rng.uniform(500, 1100, int(rng.integers(1, 4)))) * 1e-9
    w = float(rng.choice([1, 3, 5, 10, 11, 70])) if r_ else float(rng.uniform(1, 90))
    dzb = float(rng.choice([0.1, 0.2, 0.25, 0.5, 0.7])) if r_ else w / float(rng.uniform(20, 300))
    dz = float(rng.choice([1.0, 0.5, 2.0, 0.7])) if r_ else float(rng.uniform(0.4, 2.5))
    o = default_options()
    o.project_name, o.wavelength, o.n_theta_bins, o.c_azimuth, o.parallel = "p", wl, int(rng.integers(2, 6)), 0.25, False
    o.theta_in, o.phi_in, o.pol = float(rng.uniform(0, 1.1)), 0.3, str(rng.choice(["s", "p", "u"]))
    o.nx = o.ny = 3
    o.n_rays = 9 * 24
    o.lookuptable_angles = 40
    o.depth_spacing, o.depth_spacing_bulk, o.bulk_profile, o.I_thresh = dz * 1e-9, dzb * 1e-6, bulkp, 1e-5
    els = []
    for i, m in enumerate(meth):
        kw = dict(name="s%d" % i)
        if fs[i]["ds"]:
            kw.update(layers=[Layer(d * 1e-9, mk(q)) for d, q in zip(fs[i]["ds"], fs[i]["mats"])], prof_layers=prof[i])
        if m.startswith("RT"):
            kw["texture"] = planar_surface() if rng.random() < 0.5 else regular_pyramids(elevation_angle=40, upright=True)
        els.append(Interface(m, **kw))
    bm = mk([float(rng.uniform(1.6, 3)), float(10 ** rng.uniform(-4, -2.3)), 0, 0])
    SC = Structure([els[0], BulkLayer(w * 1e-6, bm, name="b"), els[1]], incidence=mk([1.0, 0, 0, 0]), transmission=mk([1.4, 0, 0, 0]))
    seed_all(case["seed"])
    process_structure(SC, o, save_location=ob.dir)
    res = calculate_RAT(SC, o, save_location=ob.dir)
    msg = "matrix %s films %s prof %s step %g bulk %g um step %g profile %s" % (meth, [f["ds"] for f in fs], prof, dz, w, dzb, bulkp)
    if len(res) < 4:
        return
    tf, tb = (sum(f["ds"]) * 1e-9 for f in fs)
    pos, f_, v = export(ob, res, SC, o, len(wl), tf + w * 1e-6 + tb, [dz * 1e-9, dzb * 1e-6], msg)
    if v.shape != (len(wl), len(pos)):
        return
    tot = tf + w * 1e-6 + tb
    have = [i for i in range(2) if prof[i] is not None]
    E = 1e-12 * tot + 1e-16
    for i in range(2):
        z0 = 0.0 if i == 0 else tf + w * 1e-6
        edges = z0 + np.concatenate([[0], np.cumsum(fs[i]["ds"])]) * 1e-9
        a = np.asarray(res[1]["a"][i]).sum(0)
        k = 0
        rel = np.concatenate([[0], np.cumsum(fs[i]["ds"])])
        for l in range(1, len(fs[i]["ds"]) + 1):
            m = in_layer(pos, edges[l - 1], edges[l], E)
            m0 = (pos >= edges[l - 1] - E) & (pos < edges[l] - E)
            if prof[i] is None or l not in prof[i]:
                ob.check("zero elsewhere", quiet(v, m), "layer %d of interface %d was not profiled but generates up to %g: %s" % (l, i, np.abs(v[:, m]).max(initial=0), msg), n=m.sum() + 1)
                continue
            data = np.asarray(res[2][have.index(i)].transpose("wl", "z"))
            if meth[i] == "TMM":
                g = np.arange(0, rel[-1] - 1e-7 * dz, dz)
                zz = z0 + g[(g >= rel[l - 1] - 1e-7 * dz) & (g < rel[l] - 1e-7 * dz)] * 1e-9
            else:
                zz = edges[l - 1] + np.arange(0, fs[i]["ds"][l - 1] - 1e-7 * dz, dz) * 1e-9
            own = data[:, k:k + len(zz)] * 1e9
            k += len(zz)
            if r_ and own.shape[1] == len(zz) - 1:
                zz = zz[:-1]
            for j in range(len(wl)):
                if m0.any():
                    c = slice(1, -1) if r_ else slice(None)      # with round numbers, rounding decides where samples at a boundary belong
                    ob.close("matrix interface samples", np.interp(zz, pos[m0], v[j, m0])[c], own[j][c], 1e-9 * np.abs(own).max() + 1e-6 + unclear(own[j], r_), 1e-6, msg="layer %d of interface %d: %s" % (l, i, msg))
            if meth[i] == "TMM":
                integral(ob, pos, v, edges[l - 1], edges[l], dz * 1e-9, a[:, l - 1], 0.003 + 0.01 * a[:, l - 1].max(), "layer %d of interface %d: %s" % (l, i, msg))
    z0, z1 = tf, tf + w * 1e-6
    m = in_layer(pos, z0, z1, E)
    if not bulkp:
        ob.check("zero elsewhere", quiet(v, m), "the bulk was not profiled but generates: %s" % msg, n=m.sum() + 1)
    elif m.any():
        Ab = np.asarray(res[0]["A_bulk"]).reshape(-1, len(wl))[0] if "A_bulk" in res[0] else np.zeros(len(wl))
        integral(ob, pos, v, z0, z1, dzb * 1e-6, Ab, 1e-4, "bulk: %s" % msg)
        m0 = (pos >= z0 - E) & (pos < z1 - E)
        n = m0.sum()
        own = np.asarray(res[3][0])[:, :n]
        ob.close("matrix bulk samples", v[:, m0], own, 1e-9 * np.abs(own).max() + 1e-9, 1e-9, msg=msg)
    ob.fp(msg)
