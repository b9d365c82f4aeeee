"""P24 analytic diffraction orders satisfy the grating equation."""
import numpy as np
from rfv import grating as gr
from rfv.mats import mk, Mat

ID = "P24"
TECHNIQUE = "runtime monitor: every listed order is judged against the grating equation, and the set of listed orders against the orders that carry power in a direct solution"
RULE = ("random lattices (also left-handed and skewed), wavelength arrays, media given as materials, numbers, complex numbers, lists or arrays, any direction of incidence and symmetry angle; grouping of random order sets with random powers; "
        "non-trivial: at least three propagating orders, some but not all of them in both media")
REQUIRED = ["every order once", "in-plane vector", "reflection angle", "transmission angle", "azimuth", "evanescent orders", "lattice vector length", "specular order", "orders that carry power", "containers agree", "group totals", "groups", "group degeneracy",
            "reciprocal lattice", "mismatched media"]


def before():
    from rfv import fake_s4
    fake_s4.install()


def cases(rng, tier):
    n = 800 if tier == "quick" else 40000
    kinds = ["directions", "directions", "directions", "solver", "group", "media"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31))) for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


def lattice(rng):
    kind, s = gr.rand_lattice(rng)
    f = float(rng.uniform(0.5, 4))
    s = np.array(s) * f
    if rng.random() < 0.3:
        a = float(rng.uniform(0, 2 * np.pi))
        s = s @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
    if rng.random() < 0.2:
        s = s[::-1]
    return tuple(tuple(float(x) for x in v) for v in s)


def judge(ob, r, size, wl, n1, n2, th, ph, sym, mmax, msg, exact=True):
    n = 2 * mmax + 1
    xv, yv = np.ravel(r["order_index"][0]), np.ravel(r["order_index"][1])
    ids = list(zip(xv.tolist(), yv.tolist()))
    if not ob.check("every order once", len(ids) == n * n and set(ids) == {(i, j) for i in range(-mmax, mmax + 1) for j in range(-mmax, mmax + 1)}, "%d orders listed, %d different: %s" % (len(ids), len(set(ids)), msg)):
        return
    (ax, ay), (bx, by) = size
    D = ax * by - ay * bx
    G = np.array([[m * by - q * ay, -m * bx + q * ax] for m, q in ids]) / D        # reciprocal vectors over 2 pi
    fx = n1[:, None] / wl[:, None] * np.sin(th) * np.cos(ph) + G[:, 0]
    fy = n1[:, None] / wl[:, None] * np.sin(th) * np.sin(ph) + G[:, 1]
    ob.close("in-plane vector", r["fr_x"], fx, 1e-12, msg="x: " + msg)
    ob.close("in-plane vector", r["fr_y"], fy, 1e-12, msg="y: " + msg)
    ob.close("lattice vector length", np.ravel(r["k_xy"]), 2 * np.pi * np.hypot(G[:, 0], G[:, 1]), 1e-12, msg=msg)
    s = np.hypot(fx, fy) * wl[:, None]
    for oracle, got, nn, back in (("reflection angle", r["theta_r"], n1, False), ("transmission angle", r["theta_t"], n2, True)):
        q = s / nn[:, None]
        got = np.asarray(got)
        if not ob.check(oracle, got.shape == q.shape, "shape %s: %s" % (got.shape, msg)):
            continue
        prop = q < 1 - 1e-9
        t = np.arcsin(np.minimum(q, 1))
        if back:
            t = np.pi - t
        ob.close(oracle, got[prop], t[prop], 1e-6 if exact else 0.05, msg=msg)
        if exact:
            ob.close("evanescent orders", np.where(q > 1 + 1e-9, got, np.pi / 2), np.full(q.shape, np.pi / 2), 1e-12, msg="%s of evanescent orders: %s" % (oracle, msg))
    phi = np.asarray(r["phi"])
    ob.between("azimuth", phi, 0, sym + 1e-9, msg)
    d = phi - np.arctan2(fy, fx)
    d = np.abs((d + sym / 2) % sym - sym / 2)
    d[s < 1e-6] = 0
    ob.close("azimuth", d, np.zeros_like(d), 1e-6, msg="distance of the azimuth from the order's, modulo %.3f: %s" % (sym, msg))
    i0 = ids.index((0, 0))
    ob.close("specular order", np.asarray(r["theta_r"])[:, i0], np.full(len(wl), th), 1e-6, msg=msg)
    a = [(s < nn[:, None]).sum() for nn in (n1, n2)]
    if min(a) >= 3 and a[0] != a[1]:
        ob.fp(size, wl.tolist(), th, ph)


def args(rng):
    wl = np.sort(rng.uniform(300, 1200, int(rng.integers(1, 5))))
    if rng.random() < 0.3:
        wl = wl[::-1].copy()
    th = float(rng.choice([0, rng.uniform(0, 1.5)]))
    ph = float(rng.choice([0, np.pi / 4, rng.uniform(0, 2 * np.pi)]))
    sym = float(rng.choice([np.pi / 2, np.pi / 4, np.pi, 2 * np.pi, np.pi / 3]))
    return wl, th, ph, sym, int(rng.integers(0, 6))


def medium(rng, wl, absorbing=False):
    """(as passed, n)"""
    n = float(rng.uniform(1, 4))
    t = str(rng.choice(["number", "int", "material", "list", "array", "complex"]))
    if t == "int":
        n = int(rng.integers(1, 5))
        return t, n, np.full(len(wl), float(n))
    if t == "number":
        return t, n, np.full(len(wl), n)
    if t == "complex":
        return t, complex(n), np.full(len(wl), n)
    if t == "material":
        m = Mat(n, 0.0, disp=0.3)
        return t, m, np.array([m.nk(w * 1e-9)[0].real for w in wl])
    v = n + rng.uniform(0, 0.5, len(wl))
    return t, (v.tolist() if t == "list" else v.copy()), v


def k_directions(case, ob, rng):
    from rayflare.analytic.diffraction import get_order_directions, get_reciprocal_lattice
    size = lattice(rng)
    wl, th, ph, sym, mmax = args(rng)
    t1, m1, n1 = medium(rng, wl)
    t2, m2, n2 = medium(rng, wl)
    msg = "cell %s wl %s theta %.3f phi %.3f sym %.3f media %s %s n %s %s" % (np.round(size, 1).tolist(), np.round(wl, 1), th, ph, sym, t1, t2, np.round(n1, 3), np.round(n2, 3))
    r = get_order_directions(wl, size, mmax, m1, m2, th, ph, sym)
    judge(ob, r, size, wl, n1, n2, th, ph, sym, mmax, msg)
    q = get_order_directions(wl, size, mmax, n1, n2.tolist(), th, ph, sym)
    for k in ("theta_r", "theta_t", "fr_x", "fr_y"):
        ob.close("containers agree", q[k], r[k], 1e-7, msg="%s: %s" % (k, msg))
    if sym == np.pi / 2:
        d = get_order_directions(wl, size, mmax, m1, m2, th, ph)
        ob.close("containers agree", d["phi"], r["phi"], 1e-12, msg="default symmetry angle: " + msg)
    rl = np.array(get_reciprocal_lattice(size, 9))
    ob.close("reciprocal lattice", rl @ np.array(size).T, np.eye(2), 1e-9, msg=msg)


def k_media(case, ob, rng):
    """Absorbing media, and lists that do not fit."""
    from rayflare.analytic.diffraction import get_order_directions
    size = lattice(rng)
    wl, th, ph, sym, mmax = args(rng)
    n1 = np.full(len(wl), float(rng.uniform(1, 2)))
    n2 = np.full(len(wl), float(rng.uniform(1, 4)))
    k = float(10 ** rng.uniform(-8, -6))
    form = str(rng.choice(["material", "complex", "array"]))
    m2 = {"material": Mat(n2[0], k), "complex": complex(n2[0], k), "array": n2 + 1j * k}[form]
    judge(ob, get_order_directions(wl, size, mmax, n1, m2, th, ph, sym), size, wl, n1, n2, th, ph, sym, mmax, "slightly absorbing %s" % form, exact=False)
    bad = [1.5] * (len(wl) + 1)
    for a in ((bad, 1.0), (1.0, bad), (np.array(bad), 1.0), (1.0, np.array(bad))):
        try:
            get_order_directions(wl, size, mmax, a[0], a[1], th, ph, sym)
            ob.check("mismatched media", False, "%d constants for %d wavelengths were accepted" % (len(bad), len(wl)))
        except ValueError:
            ob.check("mismatched media", True)


def k_solver(case, ob, rng):
    from rayflare.analytic.diffraction import get_order_directions
    g = gr.rand(rng, lossless=True, orders=int(rng.integers(5, 30)), wl=[float(rng.uniform(350, 1100))])
    g["tr"] = [float(rng.uniform(1, 3)), 0.0, 0.0, 0.0]
    g["inc"] = [float(rng.choice([1, 1.5, 2])), 0.0, 0.0, 0.0]
    w = g["wl"][0]
    d = gr.direct(g, w, g["th"], g["ph"], g["pol"], orders=True)
    mmax = int(np.abs(d["G"]).max())
    r = get_order_directions(np.array([w]), g["size"], mmax, mk(g["inc"]), mk(g["tr"]), g["th"], g["ph"])
    ids = list(zip(np.ravel(r["order_index"][0]).tolist(), np.ravel(r["order_index"][1]).tolist()))
    # light of every order listed as propagating or not, by the basis of the solver
    for side, P, t in (("R", d["Ro"], np.asarray(r["theta_r"])[0]), ("T", d["To"], np.asarray(r["theta_t"])[0])):
        for k, o in enumerate(d["G"]):
            i = ids.index(tuple(int(x) for x in o))
            evanescent = abs(t[i] - np.pi / 2) < 1e-9
            ob.check("orders that carry power", not (evanescent and abs(P[k]) > 1e-8), "order %s of %s carries %.3g and is listed as evanescent: %s theta %.3f phi %.3f wl %.2f" % (o, side, P[k], np.round(g["size"], 1).tolist(), g["th"], g["ph"], w))
    if (np.abs(d["To"]) > 1e-6).sum() > 2:
        ob.fp(g["size"], g["layers"])


def k_group(case, ob, rng):
    from rayflare.analytic.diffraction import group_diffraction_orders
    size = lattice(rng)
    mm = int(rng.integers(1, 6))
    ids = [[i, j] for i in range(-mm, mm + 1) for j in range(-mm, mm + 1)]
    keep = rng.random(len(ids)) < rng.uniform(0.3, 1)
    keep[len(ids) // 2] = True
    basis = [ids[i] for i in rng.permutation(len(ids)) if keep[i]]
    nw = int(rng.integers(1, 4))
    per = rng.random((nw, len(basis)))
    if rng.random() < 0.5:      # equal powers in equivalent orders
        per[:, :] = 0.25
    r = group_diffraction_orders(size, basis, per)
    (ax, ay), (bx, by) = size
    D = ax * by - ay * bx
    k = np.array([2 * np.pi * np.hypot(m * by - q * ay, -m * bx + q * ax) / abs(D) for m, q in basis])
    order = np.argsort(k)
    groups = [[order[0]]]
    for i in order[1:]:
        if k[i] - k[groups[-1][0]] > 1e-9:
            groups.append([i])
        else:
            groups[-1].append(i)
    if any(abs(a - b) < 3e-10 for a, b in zip(sorted(k)[1:], sorted(k)[:-1]) if abs(a - b) > 1e-13):
        return
    msg = "cell %s, %d orders" % (np.round(size, 2).tolist(), len(basis))
    kk = np.asarray(r["k_xy"])
    near = np.abs(k * 1e10 - np.floor(k * 1e10) - 0.5).min() < 1e-3
    if near or len(kk) != len(groups):
        # lengths equal up to rounding on both sides of the listing's precision may be listed apart
        if near:
            return
    if not ob.check("groups", len(kk) == len(groups), "%d groups listed, %d different lengths: %s" % (len(kk), len(groups), msg)):
        return
    ob.close("groups", kk, [k[q[0]] for q in groups], 1e-9, msg=msg)
    ob.close("groups", r["reps"], [len(q) for q in groups], 0, msg="sizes: " + msg)
    ob.close("group totals", np.asarray(r["per_order"]), np.array([per[:, q].sum(1) for q in groups]).T, 1e-12, msg=msg)
    ob.close("group degeneracy", r["degeneracy"], [len(np.unique(np.round(per[0, q], 10))) for q in groups], 0, msg=msg)
    s = group_diffraction_orders(size, basis)
    ob.close("groups", s["k_xy"], kk, 0, msg="without powers: " + msg)
    ob.close("groups", s["reps"], r["reps"], 0, msg="without powers: " + msg)
    ob.fp(size, basis)
