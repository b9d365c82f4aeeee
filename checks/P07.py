"""P07 ideal surfaces."""
import os
import numpy as np
from rfv import bins, matsys
from rfv.mats import mk

ID = "P07"
RULE = ("random bin settings; every entry of the ideal Lambertian and mirror matrices (returned, saved and reloaded, both sides) "
        "against projected solid angles and specular bins of an independent model; complete structures with an ideal rear "
        "surface against the exact sum over bounces; non-trivial: setting with at least 2 rings and 2 azimuth bins")
REQUIRED = ["Lambertian distribution", "Lambertian hemisphere", "mirror bin", "mirror reflects all", "no absorption", "saved = returned",
            "structure with ideal rear", "two-pass enhancement"]


def cases(rng, tier):
    n = 128 if tier == "quick" else 6000
    kinds = ["lambertian", "mirror", "structure", "optical path"]
    return [dict(kind=kinds[i % 4], seed=int(rng.integers(1 << 31))) for i in range(n)]


def setting(rng, nmax=24):
    n = int(rng.integers(1, nmax))
    sym = float(rng.choice([np.pi / 2, np.pi / 4, np.pi, 2 * np.pi, np.pi / 3, np.pi / 6]))
    caz = float(rng.choice([0.01, 0.25, 0.33, 0.5, 1.0]))
    sp = str(rng.choice(["sin", "linear"]))
    if nmax > 20 and rng.random() < 0.2:
        n, caz = int(rng.integers(80, 260)), 0.002     # very fine in the polar angle
    bs, edges = bins.bins(n, sym, caz, sp)
    return n, sym, caz, sp, bs, edges


def lambert_column(bs, h):
    p = np.array([(np.sin(b["th1"]) ** 2 - np.sin(b["th0"]) ** 2) * (b["ph1"] - b["ph0"]) for b in bs[:h]])
    return p / p.sum()


def run(case, ob):
    from rayflare.angles import make_angle_vector
    from rayflare.matrix_formalism.ideal_cases import lambertian_matrix, mirror_matrix
    from rayflare.options import default_options
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    n, sym, caz, sp, bs, edges = setting(rng, 24 if kind in ("lambertian", "mirror") else 10)
    N, h = len(bs), len(bs) // 2
    th, ph, av = make_angle_vector(n, sym, caz, sp)
    o = default_options()
    o.phi_symmetry, o.n_theta_bins, o.c_azimuth, o.theta_spacing = sym, n, caz, sp
    o.wavelength = np.array([500e-9, 900e-9])
    if kind in ("lambertian", "mirror"):
        save = bool(rng.random() < 0.7)
        for side in ("front", "rear"):

            def make(ow=False):
                if kind == "lambertian":
                    return lambertian_matrix(av, th, "s", ob.dir, side, save=save, overwrite=ow)
                return mirror_matrix(av, th, ph, "s", o, ob.dir, side, save=save, overwrite=ow)
            m, a = make()
            m, a = m.todense(), a.todense()
            ob.check("no absorption", a.shape[-1] == h and np.all(a == 0), "absorption matrix is not zero")
            if not ob.check("shape", m.shape == (N, h), "matrix shape %s" % (m.shape,)):
                return
            own = slice(0, h) if side == "front" else slice(h, N)
            oth = slice(h, N) if side == "front" else slice(0, h)
            if kind == "lambertian":
                p = lambert_column(bs, h)
                if side == "rear":
                    p = np.array([(np.sin(b["th1"]) ** 2 - np.sin(b["th0"]) ** 2) * (b["ph1"] - b["ph0"]) for b in bs[h:]])
                    p = p / p.sum()
                ob.check("Lambertian hemisphere", np.all(m[oth] == 0), "%s: light crosses the surface" % side)
                ob.close("Lambertian distribution", m[own], np.repeat(p[:, None], h, 1), 1e-9, msg="%s n=%d c=%g %s" % (side, n, caz, sp))
            else:
                ob.close("mirror reflects all", m.sum(0), np.ones(h), 0, msg=side)
                for c in range(h):
                    b = bs[c + (0 if side == "front" else h)]
                    out = np.flatnonzero(m[:, c])
                    want = bins.locate(bs, b["th"], b["ph"] + np.pi, sym)
                    ob.check("mirror bin", len(out) == 1 and out[0] in want, "%s column %d goes to %s, expected one of %s" % (side, c, out, want))
            if save:
                again = make()
                ob.close("saved = returned", again[0].todense(), m, 0)
                ob.close("saved = returned", again[1].todense(), a, 0)
                ob.close("saved = returned", make(True)[0].todense(), m, 0)
            else:
                ob.check("nothing saved", not os.listdir(ob.dir))
        if n > 1 and h > n:
            ob.fp(kind, n, sym, caz, sp)
        return
    # complete structures: a planar front, a bulk, and the ideal surface at the rear
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    from rayflare.transfer_matrix_method import TMM
    from solcore.structure import Layer
    while not matsys.unambiguous(bs, sym):
        n, sym, caz, sp, bs, edges = setting(rng, 10)
    h = len(bs) // 2
    o.phi_symmetry, o.n_theta_bins, o.c_azimuth, o.theta_spacing = sym, n, caz, sp
    o.project_name = "p"
    o.pol = str(rng.choice(["s", "p", "u"]))
    o.theta_in, o.phi_in = float(rng.uniform(0, 1.4)), float(rng.uniform(0, sym))
    o.I_thresh, o.bulk_profile, o.parallel = 1e-8, False, False
    ideal = str(rng.choice(["Lambertian", "Mirror"]))
    if kind == "optical path":
        # index-matched front: light makes exactly two passes; weak absorption measures the mean path length
        ideal = "Lambertian"
        nb, alpha = 1.0, 1e3
        bulk = mk([nb, alpha * 700e-9 / 4 / np.pi, 0, 0])
        d = 1e-5
        layers = [Layer(10e-9, mk([nb, 0, 0, 0]))]
        o.wavelength = np.array([700e-9])
    else:
        bulk = mk([float(rng.uniform(1.3, 3.5)), float(10 ** rng.uniform(-6, -2)), 0, 0])
        d = float(10 ** rng.uniform(-5.3, -3.5))
        layers = [Layer(float(rng.uniform(20, 200)) * 1e-9, mk([float(rng.uniform(1.3, 3)), float(rng.choice([0, 0.05])), 0, 0]))]
    inc = mk([1.0, 0, 0, 0])
    sc = Structure([Interface("TMM", layers=layers, name="f"), BulkLayer(d, bulk, name="b"), Interface(ideal, name="r")], incidence=inc, transmission=mk([1.0, 0, 0, 0]))
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    if kind == "optical path":
        v = matsys.incidence_vector(bs, o.theta_in, o.phi_in, sym)[0]
        thb = np.array([b["th"] for b in bs[:h]])
        down = (v * np.exp(-alpha * d / np.cos(thb))).sum()
        back = down * (lambert_column(bs, h) * np.exp(-alpha * d / np.cos(thb))).sum()
        # the front still reflects a little at oblique angles inside because of the weak absorption: tolerance
        ob.close("two-pass enhancement", np.asarray(res[0]["R"]).ravel()[0], back, 2e-3, msg="escaping light after a Lambertian bounce (n=%d %s)" % (n, sp))
        ob.fp(n, sym, caz, sp, o.theta_in)
        return
    fm, fa = [x.todense() for x in TMM(layers, inc, bulk, "x", o, ob.dir, front_or_rear="front", save=False)]
    rm, ra = [x.todense() for x in TMM(layers, inc, bulk, "x", o, ob.dir, front_or_rear="rear", save=False)]
    bm = np.zeros((2 * h, h))
    if ideal == "Lambertian":
        bm[:h] = lambert_column(bs, h)[:, None]
    else:
        for c in range(h):
            bm[bins.locate(bs, bs[c]["th"], bs[c]["ph"] + np.pi, sym)[0], c] = 1
    for i, w in enumerate(o.wavelength):
        x = matsys.solve(fm[i], fa[i], rm[i], ra[i], bm, np.zeros((1, h)), float(bulk.alpha(w)), d, bs, sym, matsys.incidence_vector(bs, o.theta_in, o.phi_in, sym)[0])
        if x["rho"] > 0.9999:
            continue
        got = [float(np.asarray(res[0][k].isel(bulk_index=0, wl=i))) for k in ("R", "T", "A_bulk")]
        ob.close("structure with ideal rear", got, [x["R"], x["T"], x["A_bulk"]], 1e-5, msg="%s rear at %g nm" % (ideal, w * 1e9))
        if n > 1 and h > n:
            ob.fp(n, sym, caz, sp, w)
