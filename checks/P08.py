"""P08 matrix method: power conservation and the exact sum over bounces."""
import numpy as np
from rfv import bins, matsys, stacks
from rfv.mats import mk, rand_mat

ID = "P08"
RULE = ("random interface redistribution matrices (crafted: scattering, sparse, asymmetric, absorbing, 2-d and 3-d; or from the "
        "real planar-interface code) with random bulk absorption and incidence, run through the real matrix multiplication; "
        "totals against the exact linear solve of all bounces, per-pass results against an independent iteration; non-trivial: "
        "at least 3 passes and both bulk and interface absorption")
REQUIRED = ["power balance", "exact sum", "per pass", "interface absorption", "bounds", "profile path = plain path", "threshold only truncates",
            "planar slab", "wavelengths independent", "azimuth-averaged incidence"]


def cases(rng, tier):
    n = 168 if tier == "quick" else 8000
    kinds = ["crafted", "crafted", "crafted", "2d", "threshold", "slab", "process"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31))) for i in range(n)]


def setting(rng, nmax=7):
    while True:
        n = int(rng.integers(1, nmax))
        sym = float(rng.choice([np.pi / 2, np.pi / 4, np.pi, 2 * np.pi, np.pi / 3]))
        caz = float(rng.choice([0.05, 0.25, 0.5, 1.0]))
        sp = str(rng.choice(["sin", "linear"]))
        bs, edges = bins.bins(n, sym, caz, sp)
        if matsys.unambiguous(bs, sym):
            return n, sym, caz, sp, bs


def mkopts(rng, name="p"):
    from rayflare.options import default_options
    n, sym, caz, sp, bs = setting(rng)
    o = default_options()
    o.n_theta_bins, o.phi_symmetry, o.c_azimuth, o.theta_spacing = n, sym, caz, sp
    o.project_name = name
    o.wavelength = np.sort(rng.uniform(400, 1200, int(rng.integers(1, 4)))) * 1e-9
    o.bulk_profile = bool(rng.random() < 0.4)
    o.parallel = False
    o.I_thresh = float(10 ** rng.uniform(-9, -6))
    h = len(bs) // 2
    b = bs[int(rng.integers(h))]
    o.theta_in = float(b["th0"] + rng.uniform(0.05, 0.95) * (b["th1"] - b["th0"]))
    o.phi_in = "all" if rng.random() < 0.3 else float(b["ph0"] + rng.uniform(0.05, 0.95) * (b["ph1"] - b["ph0"]))
    return o, bs, h, sym


def val(x, i):
    return float(np.asarray(x.isel(bulk_index=0, wl=i)))


def judge(ob, res, o, bs, sym, f, fa, r, ra, b, ba, bulk, d, deep=True):
    nwl = len(o.wavelength)
    v0 = matsys.incidence_vector(bs, o.theta_in, o.phi_in, sym)
    if len(v0) != 1:
        return
    if o.phi_in == "all":
        ob.event("azimuth averaged")
    rat, pp = res[0], res[1]
    has = "T" in rat
    for i, w in enumerate(o.wavelength):
        al = float(bulk.alpha(w))
        a = [matsys.at(m, i) for m in (f, fa, r, ra, b, ba)]
        x = matsys.solve(*a, al, d, bs, sym, v0[0])
        if x["rho"] > 0.99999:
            continue
        # the iteration stops when every wavelength is below the threshold
        amp = max(1.0, 1 / (1 - x["rho"]))
        tol = 1e-9 + o.I_thresh
        if not has:
            ob.close("exact sum", val(rat["R"], i), x["R"], tol, msg="R, nothing enters the bulk")
            continue
        got = dict(R=val(rat["R"], i), T=val(rat["T"], i), A_bulk=val(rat["A_bulk"], i))
        A0, A1 = np.asarray(pp["a"][0])[:, i, :].sum(0), np.asarray(pp["a"][1])[:, i, :].sum(0)
        for k in got:
            ob.close("exact sum", got[k], x[k], tol, msg="%s wl %d (%d rings, alpha*d=%.3g, I_thresh=%.1g)" % (k, i, o.n_theta_bins, al * d, o.I_thresh))
        ob.close("interface absorption", A0, x["A0"], tol, msg="front interface layers")
        ob.close("interface absorption", A1, x["A1"], tol, msg="rear interface layers")
        tot = sum(got.values()) + A0.sum() + A1.sum()
        ob.between("power balance", tot, 1 - o.I_thresh - 1e-9, 1 + 1e-9, "R+T+A_bulk+A_interfaces")
        ob.between("bounds", list(got.values()) + A0.tolist() + A1.tolist(), -1e-12, 1 + 1e-9, "results")
        if "A_interface" in rat:
            ai = np.asarray(rat["A_interface"].isel(wl=i)).ravel()
            ob.close("interface absorption", ai, [A0.sum(), A1.sum()], 1e-12, msg="A_interface")
        if o.phi_in == "all":
            ob.check("azimuth-averaged incidence", True)
        if deep:
            q = matsys.passes(*a, al, d, bs, sym, v0[0], o.I_thresh)
            k = min(q["n"], 40)
            for name, key, want in (("r", "r", q["r"]), ("t", "t", q["t"]), ("a front", None, q["s0"]), ("a rear", None, q["s1"]), ("A", "A", q["A"])):
                g = pp[name[0]][0 if name != "a rear" else 1]
                g = np.asarray(g)[:, i]
                m = min(len(g), len(want), k)
                ob.close("per pass", g[:m], np.array(want[:m]), 1e-10, msg="%s per pass" % name)
                ob.check("per pass", len(g) >= len(want), "%s has %d passes, at least %d expected" % (name, len(g), len(want)))
            if q["n"] >= 3 and got["A_bulk"] > 1e-3 and A0.sum() + A1.sum() > 1e-3:
                ob.fp(o.n_theta_bins, sym, i, got["R"], got["T"])


def run(case, ob):
    from rayflare.matrix_formalism import calculate_RAT
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "slab":
        return slab(case, ob, rng)
    if kind == "process":
        return process(case, ob, rng)
    o, bs, h, sym = mkopts(rng)
    nwl = len(o.wavelength)
    nl = [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
    hi = float(rng.choice([1.0, 1.0, 8.0]))           # strong internal reflection: many passes
    f, fa = matsys.stochastic(rng, nwl, h, nl[0])
    r, ra = matsys.stochastic(rng, nwl, h, nl[0], tmax=1.0, rmax=hi, amax=float(rng.choice([0, 0.3, 1])))
    r = matsys.swap_halves(r)
    b, ba = matsys.stochastic(rng, nwl, h, nl[1], rmax=hi, tmax=float(rng.choice([0, 0.2, 1])), amax=float(rng.choice([0, 0.3, 1])))
    if kind == "2d":            # ideal surfaces are stored as one matrix for all wavelengths, without absorption
        nl[1] = 1
        b, ba = matsys.stochastic(rng, 1, h, 1, rmax=hi, tmax=float(rng.choice([0, 0.2, 1])), amax=0.0)
        b, ba = b[0], ba[0]
    bulk = mk([2.0, 0.0 if rng.random() < 0.15 else float(10 ** rng.uniform(-6, -2)), 0, float(rng.uniform(-1, 2))])
    d = float(10 ** rng.uniform(-5.5, -3.3))
    p = ob.dir + "/p"
    for nm, sd, m, a in (("F", "front", f, fa), ("F", "rear", r, ra), ("B", "front", b, ba)):
        matsys.write(p, nm, sd, m, a)
    sc = matsys.structure(["F", "B"], nl, bulk, d)
    if o.bulk_profile:
        o.depth_spacing_bulk = d / float(rng.uniform(20, 60))
    res = calculate_RAT(sc, o, save_location=ob.dir)
    judge(ob, res, o, bs, sym, f, fa, r, ra, b, ba, bulk, d)
    if "T" not in res[0]:
        return
    # the same structure with / without profiles
    o2 = type(o)()
    for k in o:
        o2[k] = o[k]
    o2.bulk_profile = not o.bulk_profile
    o2.depth_spacing_bulk = d / 30
    res2 = calculate_RAT(sc, o2, save_location=ob.dir)
    for k in ("R", "T", "A_bulk"):
        ob.close("profile path = plain path", np.asarray(res2[0][k]), np.asarray(res[0][k]), 1e-12, msg=k)
    for k in (0, 1):
        ob.close("profile path = plain path", np.asarray(res2[1]["a"][k]), np.asarray(res[1]["a"][k]), 1e-12, msg="per pass absorption")
    if kind == "threshold":
        o2.I_thresh = float(10 ** rng.uniform(-3, -0.5))
        res3 = calculate_RAT(sc, o2, save_location=ob.dir)
        if "T" in res3[0]:
            for k in ("R", "T", "A_bulk"):
                lo, hi_ = np.asarray(res3[0][k]), np.asarray(res2[0][k])
                ob.check("threshold only truncates", np.all(lo <= hi_ + 1e-9) and np.all(lo >= hi_ - o2.I_thresh - 1e-6), "%s: %s vs %s at %g" % (k, lo, hi_, o2.I_thresh))
    elif nwl > 1 and f.ndim == 3:
        i = int(rng.integers(nwl))
        o3 = type(o)()
        for k in o:
            o3[k] = o[k]
        o3.wavelength = o.wavelength[i:i + 1]
        for nm, sd, m, a in (("F", "front", f, fa), ("F", "rear", r, ra), ("B", "front", b, ba)):
            matsys.write(ob.dir + "/q", nm, sd, m[i:i + 1] if m.ndim == 3 else m, a[i:i + 1] if a.ndim == 3 else a)
        o3.project_name = "q"
        res3 = calculate_RAT(sc, o3, save_location=ob.dir)
        if "T" in res3[0]:
            for k in ("R", "T", "A_bulk"):
                ob.close("wavelengths independent", val(res3[0][k], 0), val(res[0][k], i), 2 * o.I_thresh + 1e-9, msg=k)


def slab(case, ob, rng):
    """Planar slab: Fresnel interfaces with index-matched films, bulk on a coarse angular grid, against the Airy sum of intensities."""
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import Interface, BulkLayer, Structure
    from rfv import ref_tmm
    from solcore.structure import Layer
    o, bs, h, sym = mkopts(rng)
    o.pol = str(rng.choice(["s", "p"]))
    o.theta_in = bs[int(rng.integers(h))]["th"]
    o.phi_in = float(rng.uniform(0, sym)) if rng.random() < 0.5 else "all"
    nb = float(rng.uniform(1.2, 3.5))
    kb = float(10 ** rng.uniform(-6, -4))
    bulk = mk([nb, kb, 0, 0])
    tr = mk([float(rng.uniform(1.0, nb)), 0, 0, 0])
    d = float(10 ** rng.uniform(-5, -3.5))
    fl = [[float(rng.uniform(1.3, 2.5)), float(rng.choice([0, 0.1])), 0, 0]]
    fd = [float(rng.uniform(20, 150))]
    lm = [[tr._n, 0, 0, 0]]
    sc = Structure([Interface("TMM", layers=[Layer(fd[0] * 1e-9, mk(fl[0]))], name="f"), BulkLayer(d, bulk, name="b"),
                    Interface("TMM", layers=[Layer(10e-9, mk(lm[0]))], name="r")], incidence=mk([1.0, 0, 0, 0]), transmission=tr)
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    if "T" not in res[0]:
        return
    n, sp = o.n_theta_bins, o.theta_spacing
    # in the planar case light stays in one polar bin in the bulk: its centre is the propagation angle
    th0 = o.theta_in
    for i, w in enumerate(o.wavelength):
        wn = w * 1e9
        tb = np.arcsin(np.sin(th0) / nb)
        loc = [b for b in bs[:h] if b["th0"] - 1e-9 <= tb <= b["th1"] + 1e-9]
        if len({b["j"] for b in loc}) != 1:
            continue
        tb = loc[0]["th"]
        nn = [1.0, complex(*fl[0][:2]), nb + 1j * kb]
        r01 = ref_tmm.coherent(nn, fd, th0, wn, o.pol)
        if nb * np.sin(tb) > 0.98 or abs(nb * np.sin(tb) / tr._n - 1) < 0.02:
            continue
        # from inside, at the bin-centre angle (the rear matrix is calculated there)
        r10 = ref_tmm.coherent([nb, complex(*fl[0][:2]), 1.0], fd, tb, wn, o.pol)
        r12 = ref_tmm.coherent([nb, tr._n + 0j], [], tb, wn, o.pol)
        D = np.exp(-4 * np.pi * kb / w * d / np.cos(tb))
        g = 1 / (1 - r10["R"] * r12["R"] * D * D)
        T = r01["T"] * D * r12["T"] * g
        R = r01["R"] + r01["T"] * D * D * r12["R"] * r10["T"] * g
        Ab = r01["T"] * (1 - D) * (1 + D * r12["R"]) * g
        ob.close("planar slab", [val(res[0][k], i) for k in ("R", "T", "A_bulk")], [R, T, Ab], 2e-3 + o.I_thresh, msg="theta %g pol %s" % (th0, o.pol))
        ob.fp(n, sym, wn, th0, o.pol)


def process(case, ob, rng):
    """Structures assembled by the real process_structure from planar stacks; matrices from the real TMM()."""
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.transfer_matrix_method import TMM
    from solcore.structure import Layer
    o, bs, h, sym = mkopts(rng)
    o.pol = str(rng.choice(["s", "p", "u"]))
    o.only_incidence_angle = False
    bulk = mk([float(rng.uniform(1.3, 3.7)), float(10 ** rng.uniform(-6, -3)), 0, 0])
    d = float(10 ** rng.uniform(-5, -3.5))
    lay = []
    for _ in range(2):
        lay.append([Layer(float(rng.uniform(10, 200)) * 1e-9, mk([float(rng.uniform(1.2, 3.5)), float(rng.choice([0, 0.02, 0.3])), 0, 0])) for _ in range(int(rng.integers(1, 4)))])
    inc, tr = mk([1.0, 0, 0, 0]), mk([float(rng.uniform(1, 2)), 0.0, 0, 0])
    sc = Structure([Interface("TMM", layers=lay[0], name="f"), BulkLayer(d, bulk, name="b"), Interface("TMM", layers=lay[1], name="r")], incidence=inc, transmission=tr)
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    if "T" not in res[0]:
        return

    def M(l, i, t, side):
        return [x.todense() for x in TMM(l, i, t, "x", o, ob.dir, front_or_rear=side, save=False)[:2]]
    f, fa = M(lay[0], inc, bulk, "front")
    r, ra = M(lay[0], inc, bulk, "rear")
    b, ba = M(lay[1], bulk, tr, "front")
    # the deeper check of totals is the exact sum; it includes the right media on each side of each interface
    judge(ob, res, o, bs, sym, f, fa, r, ra, b, ba, bulk, d, deep=True)
