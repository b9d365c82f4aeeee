"""P06 angular bins tile the hemispheres and classify every direction once."""
import numpy as np
from rfv import bins, matsys
from rfv.mats import mk, Mat

ID = "P06"
RULE = ("random bin settings; bin edges/centres against an independent model of the bins, azimuth folding on random angles, "
        "azimuth summaries of random matrices, the incidence bin chosen by the matrix method (read off from crafted matrices "
        "whose columns are tagged), the bin a ray leaving one interface arrives in at the next, and the bins of rays traced "
        "through an index-matched and off a perfectly reflecting surface; non-trivial: setting with at least 2 azimuth bins")
REQUIRED = ["edges tile", "azimuth tile", "centres", "hemispheres mirror", "fold congruent", "fold range", "summary conserves",
            "summary mean", "incidence bin", "outgoing to incoming", "straight-through ray bin", "reflected ray bin", "absorption summary"]


def cases(rng, tier):
    n = 160 if tier == "quick" else 8000
    kinds = ["bins", "fold", "summary", "incidence", "flip", "rays", "edge incidence", "edge rays"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31))) for i in range(n)]


def setting(rng, even=False, nmax=16):
    while True:
        n = int(rng.integers(1, nmax))
        sym = float(rng.choice([np.pi / 2, np.pi / 4, np.pi, 2 * np.pi, np.pi / 3, 2 * np.pi / 3, np.pi / 6]))
        caz = float(rng.choice([0.01, 0.1, 0.25, 0.33, 0.5, 0.75, 1.0]))
        sp = str(rng.choice(["sin", "linear"]))
        bs, edges = bins.bins(n, sym, caz, sp)
        if not even or matsys.unambiguous(bs, sym):
            return n, sym, caz, sp, bs, edges


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    globals()["k_" + kind.replace(" ", "_")](case, ob, rng)


def k_bins(case, ob, rng):
    from rayflare.angles import make_angle_vector
    n, sym, caz, sp, bs, edges = setting(rng, nmax=60)
    th, ph, av = make_angle_vector(n, sym, caz, sp)
    ob.close("edges tile", th, edges, 1e-12, msg="polar edges")
    ob.check("edges tile", th[0] == 0 and abs(th[-1] - np.pi) < 1e-12 and np.all(np.diff(th) > 0) and np.min(np.abs(th - np.pi / 2)) < 1e-12, "edges %s" % th)
    ob.close("hemispheres mirror", th[::-1], np.pi - th, 1e-12)
    if sp == "sin":
        d, _, _ = make_angle_vector(n, sym, caz)
        ob.close("edges tile", d, th, 0.0, msg="default spacing")
    ob.check("azimuth tile", len(ph) == 2 * n, "one azimuth grid per ring")
    for j, p in enumerate(ph):
        r = j + 1 if j < n else 2 * n - j
        ob.check("azimuth tile", len(p) == int(np.ceil(caz * r)) + 1 and p[0] == 0 and abs(p[-1] - sym) < 1e-12
                 and np.allclose(np.diff(p), sym / (len(p) - 1), rtol=1e-9), "ring %d: %s" % (j, p))
    ob.close("centres", av, np.array([[b["j"], b["th"], b["ph"]] for b in bs]), 1e-12, msg="bin table")
    if max(len(p) for p in ph) > 2:
        ob.fp(n, sym, caz, sp)


def k_fold(case, ob, rng):
    from rayflare.angles import fold_phi
    sym = float(rng.choice([np.pi / 2, np.pi / 4, np.pi, 2 * np.pi, np.pi / 3, 2 * np.pi / 3, np.pi / 6, np.pi / 8]))
    x = np.concatenate([rng.uniform(-2 * np.pi, 4 * np.pi, 200), rng.uniform(0, sym, 30)])
    y = np.asarray(fold_phi(x, sym))
    ob.between("fold range", y, 0, sym + 1e-9, "fold_phi(.., %g)" % sym)
    k = (x - y) / sym
    ob.close("fold congruent", k, np.round(k), 1e-6, msg="folding by %g" % sym)
    ob.close("fold congruent", [float(fold_phi(v, sym)) for v in x[:20]], y[:20], 1e-12, msg="scalar")
    ob.close("fold congruent", y[200:], x[200:], 1e-9, msg="angles inside the element")
    ob.close("fold congruent", np.asarray(fold_phi(x[:200].reshape(20, 10), sym)).ravel(), y[:200], 1e-12, msg="2-d array")
    ob.fp(sym, float(x[0]))


def k_summary(case, ob, rng):
    from rayflare.angles import make_angle_vector, theta_summary, theta_summary_A
    n, sym, caz, sp, bs, edges = setting(rng)
    _, _, av = make_angle_vector(n, sym, caz, sp)
    N, h = len(bs), len(bs) // 2
    m, a = matsys.stochastic(rng, 1, h, 3)
    m, a = m[0], a[0]
    j = np.array([b["j"] for b in bs])
    for side in ("front", "rear"):
        res = np.asarray(theta_summary(m, av, n, side))
        want = np.zeros((2 * n, n))
        jin = j[:h] if side == "front" else j[h:] - n
        for o in range(2 * n):
            for i in range(n):
                want[o, i] = m[j == o][:, jin == i].sum(0).mean()
        ob.close("summary mean", res, want, 1e-12, msg=side)
        tot = np.array([m[:, jin == i].sum(0).mean() for i in range(n)])
        ob.close("summary conserves", res.sum(0), tot, 1e-12, msg=side)
    sA = np.asarray(theta_summary_A(a, av))
    want = np.stack([a[:, j[:h] == i].sum(1) for i in range(n)], 1)
    ob.close("absorption summary", sA, want, 1e-12)
    if h > n:
        ob.fp(n, sym, caz, sp, float(m.sum()))


def tagged(rng, h):
    """Distinct column tags in (0.1, 0.9)."""
    return 0.1 + 0.8 * (rng.permutation(h) + 0.5) / h


def opts(n, sym, caz, sp, name="proj"):
    from rayflare.options import default_options
    o = default_options()
    o.n_theta_bins, o.phi_symmetry, o.c_azimuth, o.theta_spacing = n, sym, caz, sp
    o.wavelength = np.array([600e-9])
    o.project_name = name
    o.bulk_profile = False
    o.I_thresh = 1e-9
    o.parallel = False
    return o


def incidence(case, ob, rng, edge):
    """Front interface: column c reflects the fraction tag[c]; the rest is transmitted and absorbed below."""
    from rayflare.matrix_formalism import calculate_RAT
    n, sym, caz, sp, bs, edges = setting(rng)
    h = len(bs) // 2
    tag = tagged(rng, h)
    m = np.zeros((1, 2 * h, h))
    m[0, 0, :] = tag
    m[0, h, :] = 1 - tag
    o = opts(n, sym, caz, sp)
    p = ob.dir + "/proj"
    z = np.zeros((1, 1, h))
    matsys.write(p, "F", "front", m, z)
    matsys.write(p, "F", "rear", matsys.swap_halves(m), z)
    absorb = np.ones((1, 1, h))
    matsys.write(p, "B", "front", np.zeros((1, 2 * h, h)), absorb)
    sc = matsys.structure(["F", "B"], [1, 1], mk([1.5, 0, 0, 0]), 1e-4)
    for _ in range(12):
        if edge:
            th = float(rng.choice(edges[:n + 1])) if rng.random() < 0.7 else float(rng.uniform(0, np.pi / 2))
            if th >= np.pi / 2 - 1e-9 and rng.random() < 0.5:
                th = 0.0
            b = bs[int(rng.integers(h))]
            ph = float(rng.choice([0.0, sym, b["ph0"], b["ph1"], 2 * sym, np.pi])) if rng.random() < 0.8 else "all"
        else:
            th = float(rng.uniform(0, np.pi / 2 * 0.999))
            ph = "all" if rng.random() < 0.25 else float(rng.uniform(0, 2 * np.pi))
            if ph != "all" and rng.random() < 0.3:
                ph = float(rng.uniform(0, sym))
        o.theta_in, o.phi_in = th, ph
        res = calculate_RAT(sc, o, save_location=ob.dir)
        R = float(np.asarray(res[0]["R"]).ravel()[0])
        want = [float(tag @ v) for v in matsys.incidence_vector(bs, th, ph, sym)]
        ob.check("incidence bin", any(abs(R - w) < 1e-9 for w in want),
                 "theta %g phi %s: incidence bin has tag %.6f, acceptable bins have %s (n=%d sym=%g c=%g %s)" % (th, ph, R, want, n, sym, caz, sp))
        if h > n:
            ob.fp(n, sym, caz, sp, th, ph)


def k_incidence(case, ob, rng):
    incidence(case, ob, rng, False)


def k_edge_incidence(case, ob, rng):
    incidence(case, ob, rng, True)


def k_flip(case, ob, rng):
    """A ray sent into one outgoing bin must arrive in the incidence bin with its reversed direction."""
    from rayflare.matrix_formalism import calculate_RAT
    n, sym, caz, sp, bs, edges = setting(rng)
    h = len(bs) // 2
    fm = matsys.flip_map(bs, sym)
    o = opts(n, sym, caz, sp)
    o.theta_in = bs[0]["th"]
    o.phi_in = bs[0]["ph"]
    p = ob.dir + "/proj"
    z = np.zeros((1, 1, h))
    for _ in range(8):
        down, up = int(rng.integers(h, 2 * h)), int(rng.integers(h))
        t1, t2 = tagged(rng, h), tagged(rng, h)
        m = np.zeros((1, 2 * h, h))
        m[0, down, :] = 1
        matsys.write(p, "F", "front", m, z)
        r = np.zeros((1, 2 * h, h))
        r[0, 0, :] = t2                     # rear incidence column c: t2[c] escapes at the top, the rest is absorbed there
        matsys.write(p, "F", "rear", r, (1 - t2)[None, None, :])
        b = np.zeros((1, 2 * h, h))
        b[0, h, :] = t1                     # transmitted at the bottom: tag, the rest goes to bin `up`
        b[0, up, :] = 1 - t1
        matsys.write(p, "B", "front", b, z)
        res = calculate_RAT(matsys.structure(["F", "B"], [1, 1], mk([1.5, 0, 0, 0]), 1e-4), o, save_location=ob.dir)
        T, R = float(np.asarray(res[0]["T"]).ravel()[0]), float(np.asarray(res[0]["R"]).ravel()[0])
        i = int(np.argmin(np.abs(t1 - T)))
        ob.check("outgoing to incoming", abs(t1[i] - T) < 1e-9 and i in fm[down], "down bin %d arrives in bin %d, expected one of %s" % (down, i, fm[down]))
        want = [(1 - T) * t2[k - h] for k in fm[up]]
        ob.check("outgoing to incoming", any(abs(R - w) < 1e-9 for w in want), "up bin %d: escaping power %.6f, expected one of %s" % (up, R, want))
        ob.fp(n, sym, caz, sp, down, up)


def rays(case, ob, rng, edge):
    from rayflare.ray_tracing.rt import RT
    from rayflare.structure import RTgroup
    from rayflare.textures import planar_surface, regular_pyramids
    n, sym, caz, sp, bs, edges = setting(rng, nmax=8)
    h = len(bs) // 2
    o = opts(n, sym, caz, sp)
    o.nx = o.ny = 1 if not edge else 2
    o.random_ray_angles = bool(not edge and rng.random() < 0.5)
    o.random_ray_position = bool(rng.random() < 0.5)
    o.n_rays = int(max(400, 3 * h)) if not edge else 40
    o.only_incidence_angle = edge
    mirror = bool(rng.random() < 0.5)
    side = str(rng.choice(["front", "rear"]))
    n0 = float(rng.uniform(1, 3))
    inc, tr = mk([n0, 0, 0, 0]), mk([n0, 0, 0, 0])
    tex = planar_surface()
    if mirror:
        tr = Mat(n0, 1e9)
        if side == "rear":
            inc, tr = tr, inc
    elif rng.random() < 0.5 and not edge:
        tex = regular_pyramids(elevation_angle=float(rng.uniform(5, 60)), upright=bool(rng.random() < 0.5))
    if edge:
        o.theta_in = float(rng.choice(edges[:n]))
        b = bs[int(rng.integers(h))]
        o.phi_in = float(rng.choice([0.0, sym, b["ph0"], b["ph1"]]))
    m, a = RT(RTgroup(textures=[tex]), inc, tr, "s", o, ob.dir, 0, side, 0, None, only_incidence_angle=edge, save=False)
    m = m.todense()[0]
    cols = np.flatnonzero(m.sum(0) > 0)
    ob.check("straight-through ray bin", len(cols) > 0, "no column illuminated", n=0)
    off = 0 if side == "front" else h
    name = "reflected ray bin" if mirror else "straight-through ray bin"
    if edge:
        th = o.theta_in if side == "front" else np.pi - o.theta_in
        if o.theta_in == 0:
            th = 1e-4 if side == "front" else np.pi - 1e-4
        ok = [i for i in bins.locate(bs, th, o.phi_in, sym, 2e-4)]
        ob.check(name, set(cols + off) <= set(ok), "light from theta %g phi %g (%s) fills columns %s, expected %s" % (o.theta_in, o.phi_in, side, cols + off, ok))
    for c in cols:
        b = bs[c + off]
        tht = b["th"] if mirror else np.pi - b["th"]
        # azimuth: the whole incidence bin maps onto one or, when symmetry cuts it, two bins
        if edge:
            want = set()
            for dph in (-2e-4, 0, 2e-4):
                for dth in (-2e-4, 0, 2e-4):
                    t = th + dth if mirror else np.pi - th - dth
                    want |= set(bins.locate(bs, t, o.phi_in + np.pi + dph, sym, 1e-6))
        else:
            want = set(bins.locate(bs, tht, b["ph"] + np.pi, sym))
            if o.random_ray_angles:
                for f in (0.02, 0.98):
                    want |= set(bins.locate(bs, tht, b["ph0"] + f * (b["ph1"] - b["ph0"]) + np.pi, sym))
        out = np.flatnonzero(m[:, c])
        ob.check(name, set(out) <= want, "%s column %d (theta %.4f phi %.4f): light in bins %s, expected %s" % (side, c, b["th"], b["ph"], out, sorted(want)))
        ob.close(name, m[:, c].sum(), 1.0, 1e-12, msg="column %d" % c)
    if h > n:
        ob.fp(n, sym, caz, sp, side, mirror, edge)


def k_rays(case, ob, rng):
    rays(case, ob, rng, False)


def k_edge_rays(case, ob, rng):
    rays(case, ob, rng, True)
