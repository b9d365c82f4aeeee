"""P20 grating redistribution matrices follow the grating equation."""
import os
import numpy as np
from rfv import bins as B, grating as gr
from rfv.mats import mk

ID = "P20"
TECHNIQUE = "runtime monitor: every column of the returned and saved matrices is judged against a direct solution of the same structure, set up independently in the solver, and the grating equation"
RULE = ("random periodic stacks (asymmetric, patterned, dispersive, absorbing), lattices, bin settings and symmetry angles, both sides of incidence, s, p and u polarisation, through the Inkstone solver and, with a "
        "stand-in for it, the S4 code path; non-trivial: a column with at least two propagating diffraction orders")
REQUIRED = ["column sums", "reflected total", "transmitted total", "layer absorption", "orders in their bins", "saved matrices", "existing matrices are used", "profile depths", "profile", "profile sum", "S4 path",
            "unpolarised is the mean of s and p", "parallel", "dictionary options", "overwrite", "single incidence"]
CASE_LIMIT = 200


def before():
    from rfv import fake_s4
    fake_s4.install()


def cases(rng, tier):
    n = 160 if tier == "quick" else 4000
    kinds = ["columns", "only", "profile", "columns", "s4", "ways"]
    return [dict(kind=kinds[i % len(kinds)], side=["front", "rear"][int(rng.integers(2))], seed=int(rng.integers(1 << 31)), cost=2) for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    g, o, bs = make(rng, case["kind"] == "profile")
    globals()["k_" + case["kind"]](case, ob, rng, g, o, bs)


def make(rng, absorbing=False):
    g = gr.rand(rng, nl=int(rng.integers(1, 4)), orders=int(rng.integers(3, 12)))
    if absorbing:
        g["wl"] = g["wl"][:1]
        for l in g["layers"]:
            if rng.random() < 0.6:
                l["mat"][1] = float(10 ** rng.uniform(-2, -0.3))
    g["inc"][0] = float(rng.choice([1.0, 1.5, 2.2]))
    if rng.random() < 0.7:
        g["tr"][1] = 0.0
    else:
        g["tr"][1] = float(10 ** rng.uniform(-5, -3))
    n = int(rng.integers(2, 5))
    sym = float(rng.choice([np.pi / 2, np.pi, 2 * np.pi, np.pi / 3, np.pi / 4]))
    caz = float(rng.choice([0.01, 0.25, 0.5, 0.75, 1.0]))
    sp = str(rng.choice(["sin", "linear"]))
    o = gr.options(g, n_theta_bins=n, phi_symmetry=sym, c_azimuth=caz, theta_spacing=sp)
    return g, o, B.bins(n, sym, caz, sp)[0]


def calc(g, o, side, path, name="surf", **kw):
    from rayflare.rigorous_coupled_wave_analysis.rcwa import RCWA
    os.makedirs(path, exist_ok=True)
    return RCWA(gr.layers(g), g["size"], g["orders"], o, path, mk(g["inc"]), mk(g["tr"]), front_or_rear=side, surf_name=name, **kw)


def dense(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x)


def grazing(g, w, th, ph, rear, eps=0.02):
    """A propagation constant of an order is near zero in some medium: ill-conditioned, and its direction undecided."""
    ns = [mk(m).nk(w * 1e-9)[0] for m in [g["inc"], g["tr"]] + [l["mat"] for l in g["layers"]]]
    b = np.array(recip(g["size"]))
    n0 = (ns[1] if rear else ns[0]).real
    m = np.array([(i, j) for i in range(-5, 6) for j in range(-5, 6)])
    kp = n0 * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    kk = np.hypot(*(kp[:, None] + (b.T @ m.T) * w / (2 * np.pi)))
    return any(np.any(np.abs(np.sqrt(x ** 2 - kk ** 2 + 0j)) < eps) for x in ns)


def recip(size):
    (ax, ay), (bx, by) = size
    v = 2 * np.pi / (ax * by - ay * bx)
    return (by * v, -bx * v), (-ay * v, ax * v)


def expected_orders(g, w, b, rear):
    """Totals and the orders' powers with their directions of travel, for light arriving from the middle of a bin."""
    ph = b["ph"] + np.pi
    th = np.pi - b["th"] if rear else b["th"]
    d = gr.direct(g, w, th, ph, g["pol"], rear=rear, orders=True)
    ni = mk(g["tr"] if rear else g["inc"]).nk(w * 1e-9)[0].real
    nt = mk(g["inc"] if rear else g["tr"]).nk(w * 1e-9)[0].real
    k = ni * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])[:, None] + np.array(recip(g["size"])).T @ d["G"].T * w / (2 * np.pi)
    kk = np.hypot(*k)
    phis = np.arctan2(k[1], k[0])
    phis[kk < 1e-9] = 0
    out = []
    for i in range(len(kk)):
        for power, n, up in ((d["Ro"][i], ni, not rear), (d["To"][i], nt, rear)):
            if kk[i] < n:
                t = np.arcsin(kk[i] / n)
                out.append((power, t if up else np.pi - t, phis[i], kk[i] < 1e-9))
            elif power > 1e-9:  # an absorbing medium: along the surface
                out.append((power, np.pi / 2, phis[i], False))
    return d, out


def monitor(ob, g, o, bs, side, M, A, msg, only=None):
    rear = side == "rear"
    h = len(bs) // 2
    nw, nl = len(g["wl"]), len(g["layers"])
    M, A = dense(M), dense(A)
    if not ob.check("column sums", M.shape == (nw, 2 * h, h) and A.shape == (nw, nl, h), "shapes %s and %s for %d bins: %s" % (M.shape, A.shape, 2 * h, msg)):
        return
    ob.finite("column sums", M, msg)
    ob.between("column sums", M, -1e-9, 1 + 1e-6, msg)
    ob.between("column sums", A, -1e-9, 1 + 1e-6, msg)
    sym = o["phi_symmetry"]
    for wi, w in enumerate(g["wl"]):
        for c in range(h):
            b = bs[h + c if rear else c]
            th = np.pi - b["th"] if rear else b["th"]
            if grazing(g, w, th, b["ph"] + np.pi, rear):
                continue
            ob.event("columns judged")
            at = "column %d (%s, theta %.4f phi %.4f wl %.2f): %s" % (c, side, th, b["ph"], w, msg)
            col, a = M[wi, :, c], A[wi, :, c]
            d, orders = expected_orders(g, w, b, rear)
            ea = np.maximum(d["A"][::-1] if rear else d["A"], 0)
            ob.close("layer absorption", a, ea, 2e-6, msg=at)
            ob.close("column sums", col.sum() + a.sum(), 1.0, 1e-6, msg=at)
            up, dn = col[:h].sum(), col[h:].sum()
            r, t = (dn, up) if rear else (up, dn)
            ob.close("reflected total", r, d["R"], 2e-6, msg=at)
            ob.close("transmitted total", t, d["T"], 2e-6, msg=at)
            lo, hi = np.zeros(2 * h), np.zeros(2 * h)
            absorbing = not rear and mk(g["tr"]).nk(w * 1e-9)[0].imag > 0
            scale = d["R"] / max(sum(p for p, t_, f, z in orders if t_ != np.pi / 2 and (t_ < np.pi / 2) != rear), 1e-300)
            for p, t_, f, normal in orders:
                q = p * scale if t_ != np.pi / 2 and (t_ < np.pi / 2) != rear else p
                k = set()
                for x in (np.linspace(0, sym, 64, endpoint=False) if normal else [f]):
                    k |= set(B.locate(bs, t_, x, sym, 1e-6))
                    if absorbing and (t_ < np.pi / 2) == rear:   # the angle is not sharply defined in an absorbing medium
                        k |= set(B.locate(bs, t_ - 0.02, x, sym, 1e-6)) | set(B.locate(bs, t_ + 0.02, x, sym, 1e-6))
                if t_ != np.pi / 2:
                    k = [i for i in k if (bs[i]["th"] < np.pi / 2) == (t_ < np.pi / 2)]
                for i in k:
                    hi[i] += q
                if len(k) == 1 and t_ != np.pi / 2:
                    lo[k[0]] += q
            tol = 1e-5
            bad = np.nonzero((col < lo - tol) | (col > hi + tol))[0]
            ob.check("orders in their bins", len(bad) == 0, "bins %s hold %s, orders put %s to %s there: %s" % (bad[:5], col[bad[:5]], lo[bad[:5]], hi[bad[:5]], at), n=2 * h)
            if sum(p > 1e-6 for p, *_ in orders) > 1:
                ob.fp(g["layers"], g["size"], w, c, side)


def text(g, o, side):
    return "%s %s cell %s layers %s orders %d pol %s wl %s bins %d/%.2f/%.2f/%s inc %s tr %s" % (side, g["kind"], np.round(g["size"], 1).tolist(), [(l["d"], np.round(l["mat"][:2], 3).tolist(), [s["type"] for s in l["shapes"]]) for l in g["layers"]],
                                                                         g["orders"], g["pol"], np.round(g["wl"], 2), o["n_theta_bins"], o["phi_symmetry"], o["c_azimuth"], o["theta_spacing"], g["inc"][0], np.round(g["tr"][:2], 5))


def k_columns(case, ob, rng, g, o, bs):
    side = case["side"]
    r = calc(g, o, side, ob.dir, save=False)
    ob.check("column sums", len(r) == 2, "returned %d items" % len(r))
    ob.check("saved matrices", not os.listdir(ob.dir), "save=False wrote %s" % os.listdir(ob.dir))
    monitor(ob, g, o, bs, side, r[0], r[1], text(g, o, side))


def k_only(case, ob, rng, g, o, bs):
    """One incidence direction instead of all: the column of its bin holds the calculation for exactly that direction."""
    rear = case["side"] == "rear"
    th = float(rng.choice([0.0, rng.uniform(0, 1.4), rng.uniform(0, 1.4)]))
    ph = float(rng.choice([0.0, rng.uniform(0, 2 * np.pi), rng.uniform(-np.pi, np.pi)]))
    o["theta_in"], o["phi_in"] = th, ph
    if rng.random() < 0.3:
        o["RCWA_method"] = "S4"
    msg = "only theta %.4f phi %.4f: %s" % (th, ph, text(g, o, case["side"]))
    r = calc(g, o, case["side"], ob.dir, only_incidence_angle=True, save=False)
    M, A = dense(r[0]), dense(r[1])
    h = len(bs) // 2
    t = np.pi - th if rear else th
    # whichever convention of the azimuth is used to fold, bins which might hold the direction are allowed
    ok = [k % h for k in B.locate(bs, t, ph, o["phi_symmetry"], 1e-6)]
    if th == 0:
        ok = [k for k in range(h) if bs[h + k if rear else k]["th0"] <= t <= bs[h + k if rear else k]["th1"]]
    lit = sorted(set(np.nonzero((M.sum(1) + A.sum(1)) > 1e-9)[1].tolist()))
    if not ob.check("single incidence", len(lit) == 1 and lit[0] in ok, "columns %s lit, expected one of %s: %s" % (lit, ok, msg)):
        return
    for wi, w in enumerate(g["wl"]):
        if grazing(g, w, th, ph + np.pi, rear):
            continue
        d, orders = expected_orders(g, w, dict(th=t, ph=ph), rear)
        col, a = M[wi, :, lit[0]], A[wi, :, lit[0]]
        ob.close("single incidence", a, np.maximum(d["A"][::-1] if rear else d["A"], 0), 2e-6, msg="absorption: " + msg)
        up, dn = col[:h].sum(), col[h:].sum()
        ob.close("single incidence", (dn, up) if rear else (up, dn), (d["R"], d["T"]), 2e-6, msg="R and T: " + msg)
    ob.fp("only", g["layers"], th, ph, rear)


def k_profile(case, ob, rng, g, o, bs):
    side = case["side"]
    d = np.array([l["d"] for l in g["layers"]])
    nl = len(d)
    pl = sorted(int(x) + 1 for x in rng.choice(nl, int(rng.integers(1, nl + 1)), replace=False))
    o["depth_spacing"] = float(d.sum() / rng.uniform(8, 25)) * 1e-9
    edges = np.concatenate([[0], np.cumsum(d)])
    full = np.arange(0, d.sum(), o["depth_spacing"] * 1e9)
    z = np.concatenate([full[(full >= edges[l - 1]) & (full < edges[l])] for l in pl])
    if len(z) == 0:     # nothing sampled
        return
    msg = "profile of %s every %.3f nm: %s" % (pl, o["depth_spacing"] * 1e9, text(g, o, side))
    first = bool(rng.random() < 0.3)
    if first:
        calc(g, o, side, ob.dir)     # without profile
    r = calc(g, o, side, ob.dir, prof_layers=pl)
    monitor(ob, g, o, bs, side, r[0], r[1], msg)
    A = dense(r[1])
    again = calc(g, o, side, ob.dir, prof_layers=pl)
    h = len(bs) // 2
    for tag, x in (("returned", r[2]), ("saved", again[2])):
        zz = np.asarray(x["z"])
        if not ob.check("profile depths", len(zz) == len(z) and np.allclose(zz, z, atol=1e-6), "%s depths %s, expected %s: %s" % (tag, zz[:6], z[:6], msg)):
            return
        P = np.asarray(x["profile"].transpose("wl", "z", "global_index"))[0]
        ob.check("profile", P.shape == (len(z), h), "%s shape %s: %s" % (tag, P.shape, msg))
        ob.between("profile", P, 0, np.inf, msg)
        ob.close("profile sum", np.asarray(x["intgr"])[0], A[0].sum(0), 1e-7, msg=msg)
    w = g["wl"][0]
    rear = side == "rear"
    P = np.asarray(r[2]["profile"].transpose("wl", "z", "global_index"))[0]
    for c in rng.choice(h, min(h, 3), replace=False):
        b = bs[h + c if rear else c]
        th = np.pi - b["th"] if rear else b["th"]
        if grazing(g, w, th, b["ph"] + np.pi, rear):
            continue
        pick = [k for k in rng.choice(len(z), min(len(z), 4), replace=False) if np.min(np.abs(edges - z[k])) > 0.05]
        if not pick:
            continue
        zs = [d.sum() - z[k] for k in pick] if rear else [z[k] for k in pick]
        e = gr.direct(g, w, th, b["ph"] + np.pi, g["pol"], rear=rear, depths=zs)
        ob.close("profile", P[pick, c], np.maximum(e["dens"], 0), 3e-6, 2e-3, msg="column %d depths %s: %s" % (c, np.round([z[k] for k in pick], 2), msg))


def k_s4(case, ob, rng, g, o, bs):
    side = case["side"]
    kw = {}
    if rng.random() < 0.5:
        g["wl"] = g["wl"][:1]
        o["wavelength"] = np.array(g["wl"]) * 1e-9
        o["depth_spacing"] = sum(l["d"] for l in g["layers"]) * 1e-9 / 7
        kw["prof_layers"] = [1]
    a = calc(g, o, side, ob.dir, "a", **kw)
    o["RCWA_method"] = str(rng.choice(["S4", "s4"]))
    b = calc(g, o, side, ob.dir, "b", **kw)
    monitor(ob, g, o, bs, side, b[0], b[1], "S4: " + text(g, o, side))
    if not any(grazing(g, w, (np.pi - q["th"] if side == "rear" else q["th"]), q["ph"] + np.pi, side == "rear", 1e-3) for w in g["wl"] for q in (bs[len(bs) // 2:] if side == "rear" else bs[:len(bs) // 2])):
        ob.close("S4 path", dense(b[1]), dense(a[1]), 1e-6, msg="absorption: " + text(g, o, side))
        ob.close("S4 path", dense(b[0]).sum(1), dense(a[0]).sum(1), 1e-6, msg="column sums: " + text(g, o, side))
        if kw:
            ob.close("S4 path", np.asarray(b[2]["profile"]), np.asarray(a[2]["profile"]), 3e-6, 2e-3, msg="profile: " + text(g, o, side))


def k_ways(case, ob, rng, g, o, bs):
    """Files, containers, polarisation and worker pool."""
    side = case["side"]
    msg = text(g, o, side)
    g["pol"] = o["pol"] = "u"
    r = calc(g, o, side, ob.dir)
    M, A = dense(r[0]), dense(r[1])
    monitor(ob, g, o, bs, side, M, A, msg)
    from sparse import load_npz
    ob.close("saved matrices", load_npz(os.path.join(ob.dir, "surf%sRT.npz" % side)).todense(), M, 0.0, msg=msg)
    ob.close("saved matrices", load_npz(os.path.join(ob.dir, "surf%sA.npz" % side)).todense(), A, 0.0, msg=msg)
    parts = []
    for p in "sp":
        g["pol"] = o["pol"] = p
        parts.append([dense(x) for x in calc(g, o, side, ob.dir, p)])
    ob.close("unpolarised is the mean of s and p", M, (parts[0][0] + parts[1][0]) / 2, 1e-5, msg=msg)
    ob.close("unpolarised is the mean of s and p", A, (parts[0][1] + parts[1][1]) / 2, 1e-6, msg=msg)
    g["pol"] = o["pol"] = "s"
    e = [dense(x) for x in calc(g, o, side, ob.dir)[:2]]
    ob.close("existing matrices are used", e[0], M, 0.0, msg=msg)
    ob.close("existing matrices are used", e[1], A, 0.0, msg=msg)
    other = calc(g, o, "rear" if side == "front" else "front", ob.dir)
    monitor(ob, g, o, bs, "rear" if side == "front" else "front", other[0], other[1], "other side: " + msg)
    w = [dense(x) for x in calc(g, o, side, ob.dir, overwrite=True)]
    ob.close("overwrite", w[0], parts[0][0], 1e-9, msg=msg)
    ob.close("overwrite", load_npz(os.path.join(ob.dir, "surf%sRT.npz" % side)).todense(), w[0], 0.0, msg=msg)
    q = [dense(x) for x in calc(g, dict(o), side, ob.dir, "dict")]
    ob.close("dictionary options", q[0], w[0], 1e-9, msg=msg)
    if rng.random() < 0.25:
        g2 = dict(g, wl=[450.0, 800.0])
        o["wavelength"] = np.array(g2["wl"]) * 1e-9
        s = [dense(x) for x in calc(g2, o, side, ob.dir, "seq")]
        o["parallel"], o["n_jobs"] = True, 2
        s2 = [dense(x) for x in calc(g2, o, side, ob.dir, "par")]
        ob.close("parallel", s2[0], s[0], 1e-9, msg=msg)
        ob.close("parallel", s2[1], s[1], 1e-9, msg=msg)
