"""P09 matrix-method depth profiles."""
import numpy as np
from rfv import bins, matsys
from rfv.mats import mk
from checks.P08 import mkopts, setting

ID = "P09"
RULE = ("random crafted and real interface matrices with bulk absorption from zero to opaque and random depth grids; the bulk "
        "profile against the attenuation of the exact light distribution and its integral against the reported absorption, "
        "interface profiles of real planar and ray-traced interfaces against the absorption of the requested layers and, for planar "
        "interfaces, against the exact superposition of per-angle profiles; non-trivial: bulk absorption above 1e-3")
REQUIRED = ["bulk integral", "bulk local absorption", "bulk non-negative", "transparent bulk", "interface integral", "interface superposition",
            "interface profile non-negative", "per pass profiles", "ray-traced interface integral"]


def cases(rng, tier):
    n = 132 if tier == "quick" else 6000
    kinds = ["bulk", "bulk", "transparent", "interface", "interface", "ray-traced"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=3 if i % 6 == 5 else 1) for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    {"bulk": bulk, "transparent": bulk, "interface": interface, "ray-traced": raytraced}[case["kind"]](case, ob, rng)


def bulk(case, ob, rng):
    from rayflare.matrix_formalism import calculate_RAT
    o, bs, h, sym = mkopts(rng)
    nwl = len(o.wavelength)
    nl = [1, 2]
    f, fa = matsys.stochastic(rng, nwl, h, nl[0], rmax=0.3, amax=0.2)
    r, ra = matsys.stochastic(rng, nwl, h, nl[0], rmax=float(rng.choice([1, 5])))
    r = matsys.swap_halves(r)
    b, ba = matsys.stochastic(rng, nwl, h, nl[1], rmax=float(rng.choice([1, 5])))
    o.bulk_profile = True
    o.I_thresh = 1e-9
    few = rng.random() < 0.3           # few samples: absorption within less than a step
    nz = int(rng.integers(3, 20)) if few else int(rng.integers(60, 400))
    ks = 0.0 if case["kind"] == "transparent" else float(10 ** rng.uniform(*((-3, -0.8) if few else (-6, -1.5))))
    m = mk([2.0, ks, 0, float(rng.uniform(-1, 2)) if ks else 0])
    d = float(10 ** rng.uniform(-5.5, -3.3))
    o.depth_spacing_bulk = d / (nz + float(rng.uniform(0, 1)))
    for nm, sd, mm, a in (("F", "front", f, fa), ("F", "rear", r, ra), ("B", "front", b, ba)):
        matsys.write(ob.dir + "/p", nm, sd, mm, a)
    res = calculate_RAT(matsys.structure(["F", "B"], nl, m, d), o, save_location=ob.dir)
    if not ob.check("parts", len(res) == 4, "%d parts in a result with profiles" % len(res)):
        return
    prof = np.asarray(res[3][0])
    z = np.arange(0, d, o.depth_spacing_bulk)
    A = np.asarray(res[0]["A_bulk"])[0]
    if not ob.check("shape", prof.shape == (nwl, len(z)), "profile shape %s, expected %s" % (prof.shape, (nwl, len(z)))):
        return
    ob.finite("bulk non-negative", prof, "bulk profile")
    ob.between("bulk non-negative", prof, -1e-12, np.inf, "bulk profile")
    ob.close("bulk integral", np.trapezoid(prof, z, axis=1), A, 1e-9, 1e-9, msg="integral of the bulk profile (k=%g)" % ks)
    pp = [np.trapezoid(np.asarray(x), z, axis=-1) for x in res[1]["A_prof"][0]]
    ob.close("per pass profiles", np.array(pp), np.asarray(res[1]["A"][0]), 1e-9, msg="integral per pass")
    if ks == 0:
        ob.close("transparent bulk", prof, np.zeros_like(prof), 1e-6, msg="profile of a bulk that does not absorb")
        ob.close("transparent bulk", A, np.zeros(nwl), 1e-12)
        return
    v0 = matsys.incidence_vector(bs, o.theta_in, o.phi_in, sym)[0]
    for i, w in enumerate(o.wavelength):
        al = float(m.alpha(w))
        x = matsys.solve(f[i], fa[i], r[i], ra[i], b[i], ba[i], al, d, bs, sym, v0)
        if x["rho"] > 0.99:
            continue
        c = np.cos(x["th"])
        step = al * o.depth_spacing_bulk / c.min()
        if step > 0.3:
            continue
        want = matsys.bulk_profile(x, al, d, z)
        tol = 0.15 * step + 1.6 / nz        # trapezoid weights and the uncovered last fraction of a step
        ob.close("bulk local absorption", prof[i], want, tol * np.max(want) * (1 if step > 0.02 else 1) + 1e-9 * np.max(want), msg="depth profile at %g nm (alpha d %.3g)" % (w * 1e9, al * d))
        # the shape, free of the overall renormalisation
        if al * d > 1e-3:
            ob.fp(i, al * d, o.n_theta_bins, float(A[i]))


def media(rng):
    bulkm = mk([float(rng.uniform(1.3, 3.7)), float(10 ** rng.uniform(-6, -3)), 0, 0])
    lay = []
    for _ in range(2):
        lay.append([[float(rng.uniform(1.2, 3.5)), float(rng.choice([0.01, 0.1, 0.5])), 0, 0, float(rng.uniform(20, 200))] for _ in range(int(rng.integers(1, 4)))])
    return bulkm, lay, float(10 ** rng.uniform(-5, -3.7))


def interface(case, ob, rng):
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.transfer_matrix_method import TMM
    from solcore.structure import Layer
    o, bs, h, sym = mkopts(rng)
    o.pol = str(rng.choice(["s", "p", "u"]))
    o.only_incidence_angle = False
    bm, lay, d = media(rng)
    o.depth_spacing = float(rng.choice([0.2, 0.5])) * 1e-9
    o.depth_spacing_bulk = d / 40
    o.bulk_profile = bool(rng.random() < 0.5)
    tr = mk([float(rng.uniform(1, 2)), 0, 0, 0])
    L = [[Layer(x[4] * 1e-9, mk(x[:4])) for x in l] for l in lay]
    prof = [sorted(int(v) for v in rng.choice(np.arange(1, len(l) + 1), rng.integers(1, len(l) + 1), replace=False)) for l in L]
    if rng.random() < 0.3:
        prof[int(rng.integers(2))] = None
    sc = Structure([Interface("TMM", layers=L[0], name="f", prof_layers=prof[0]), BulkLayer(d, bm, name="b"),
                    Interface("TMM", layers=L[1], name="r", prof_layers=prof[1])], incidence=mk([1.0, 0, 0, 0]), transmission=tr)
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    if len(res) < 4:
        return
    profs = {i: p for i, p in zip([i for i in range(2) if prof[i] is not None], [p for p in res[2]])}
    inc = mk([1.0, 0, 0, 0])
    fr = TMM(L[0], inc, bm, "x", o, ob.dir, front_or_rear="front", save=False, prof_layers=prof[0])
    re = TMM(L[0], inc, bm, "x", o, ob.dir, front_or_rear="rear", save=False, prof_layers=prof[0])
    ba = TMM(L[1], bm, tr, "x", o, ob.dir, front_or_rear="front", save=False, prof_layers=prof[1])
    v0 = matsys.incidence_vector(bs, o.theta_in, o.phi_in, sym)
    for s in profs:
        p = np.asarray(profs[s].transpose("wl", "z"))
        ob.between("interface profile non-negative", p, -1e-12, np.inf, "profile of interface %d" % s)
        got = p.sum(1) * o.depth_spacing * 1e9
        a = np.asarray(res[1]["a"][s]).sum(0)
        want = a[:, [l - 1 for l in prof[s]]].sum(1)
        ob.close("interface integral", got, want, 0.004, 0.02, msg="interface %d, layers %s" % (s, prof[s]))
    if len(v0) != 1:
        return
    for i, w in enumerate(o.wavelength):
        x = matsys.solve(fr[0].todense()[i], fr[1].todense()[i], re[0].todense()[i], re[1].todense()[i], ba[0].todense()[i], ba[1].todense()[i],
                         float(bm.alpha(w)), d, bs, sym, v0[0])
        if x["rho"] > 0.999:
            continue
        dn, up = matsys.flips(bs, sym)
        P = lambda q: np.asarray(q[2]["profile"].transpose("wl", "z", "global_index"))[i]
        if 0 in profs:
            want = P(fr) @ v0[0] + P(re) @ (up @ (x["D"] * x["up"]))
            got = np.asarray(profs[0].transpose("wl", "z"))[i]
            ob.close("interface superposition", got, want, 1e-6 * np.max(want) + 2 * o.I_thresh * np.max(np.abs(P(re))) + 1e-12, msg="front interface")
        if 1 in profs:
            want = P(ba) @ (x["D"] * x["down"])
            got = np.asarray(profs[1].transpose("wl", "z"))[i]
            ob.close("interface superposition", got, want, 1e-6 * np.max(want) + 2 * o.I_thresh * np.max(np.abs(P(ba))) + 1e-12, msg="rear interface")
        ob.fp(i, o.n_theta_bins, x["R"], x["T"])


def raytraced(case, ob, rng):
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.textures import planar_surface, regular_pyramids
    from solcore.structure import Layer
    o, bs, h, sym = mkopts(rng)
    o.wavelength = o.wavelength[:2]
    o.pol = str(rng.choice(["s", "p", "u"]))
    o.only_incidence_angle = bool(rng.random() < 0.5)
    o.nx = o.ny = 3
    o.n_rays = max(1200, 9 * 12 * h)
    o.lookuptable_angles = 60
    bm, lay, d = media(rng)
    o.depth_spacing = 0.5e-9
    o.depth_spacing_bulk = d / 40
    o.bulk_profile = bool(rng.random() < 0.5)
    tr = mk([float(rng.uniform(1, 2)), 0, 0, 0])
    L = [[Layer(x[4] * 1e-9, mk(x[:4])) for x in l] for l in lay]
    prof = [sorted(int(v) for v in rng.choice(np.arange(1, len(l) + 1), rng.integers(1, len(l) + 1), replace=False)) for l in L]
    which = int(rng.integers(2))
    tex = regular_pyramids(elevation_angle=float(rng.uniform(20, 55)), upright=True) if rng.random() < 0.7 else planar_surface()
    els = []
    for s in range(2):
        if s == which:
            els.append(Interface("RT_TMM", texture=tex, layers=L[s], name="s%d" % s, prof_layers=prof[s]))
        else:
            els.append(Interface("TMM", layers=L[s], name="s%d" % s, prof_layers=prof[s] if rng.random() < 0.5 else None))
    sc = Structure([els[0], BulkLayer(d, bm, name="b"), els[1]], incidence=mk([1.0, 0, 0, 0]), transmission=tr)
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    if len(res) < 4:
        return
    have = [s for s in range(2) if els[s].prof_layers is not None]
    a_tot = [np.asarray(res[1]["a"][s]).sum(0) for s in range(2)]
    for s, p in zip(have, res[2]):
        p = np.asarray(p.transpose("wl", "z"))
        ob.between("interface profile non-negative", p, -1e-12, np.inf, "profile of interface %d" % s)
        got = p.sum(1) * o.depth_spacing * 1e9
        want = a_tot[s][:, [l - 1 for l in prof[s]]].sum(1)
        # profiles are binned by local angle, totals are not
        ob.close("ray-traced interface integral", got, want, 0.01, 0.12, msg="interface %d (%s), layers %s of %d" % (s, els[s].method, prof[s], len(L[s])))
    tot = sum(float(np.asarray(res[0][k])[0, 0]) for k in ("R", "T", "A_bulk")) + a_tot[0][0].sum() + a_tot[1][0].sum()
    ob.between("power balance", tot, 1 - o.I_thresh - 1e-6, 1 + 1e-6, "total")
