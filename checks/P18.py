"""P18 textures: the triangulated surface object is the surface the generator describes."""
import copy
import numpy as np
from rfv import tex

ID = "P18"
TECHNIQUE = "runtime monitor: geometric auditor of every generated surface object (tiling, continuity, normals, heights, area), before and after shifts, copies, height redraws and use"
RULE = ("every texture generator with random sizes, angles, grids, offsets, both orientations, plus user-supplied points and non-square height maps; audited as built, after shift(), deepcopy, refresh() and ray tracing; "
        "non-trivial: a non-planar surface")
REQUIRED = ["facets are the points", "normals", "tiles the cell", "periodic", "extent", "described height", "rear is the mirrored front", "height map", "given points", "area",
            "shift", "copy is independent", "height redraw", "hyperhemisphere on sphere", "hyperhemisphere closed", "hyperhemisphere normals", "use leaves texture alone", "interface layers kept"]
VG = "V-grooves with a width other than 1 end inside the unit cell"


def cases(rng, tier):
    n = 880 if tier == "quick" else 22000
    kinds = ["pyr", "inv", "V", "planar", "rough_pyr", "rough_planar", "hemi", "heights", "xyz", "hyper", "random height"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=5 if kinds[i % len(kinds)] == "hyper" else 1) for i in range(n)]


def audit(ob, s, msg, single=True, ref=None):
    """Internal consistency of a surface object as ray tracing uses it."""
    P, t = np.asarray(s.Points, float), np.asarray(s.simplices)
    L = max(np.ptp(P, axis=0).max(), 1e-12)
    a, b, c = P[t[:, 0]], P[t[:, 1]], P[t[:, 2]]
    for k, v in (("P_0s", a), ("P_1s", b), ("P_2s", c)):
        ob.close("facets are the points", np.asarray(getattr(s, k)), v, 1e-12 * L, msg="%s of %s" % (k, msg))
    cr = np.cross(b - a, c - a)
    ob.close("normals", s.crossP, cr, 1e-9 * L * L, msg="crossP of " + msg)
    nn = np.linalg.norm(cr, axis=1)
    good = nn > 1e-9 * L * L          # slivers have no well-defined normal
    N = np.asarray(s.N)
    if good.any():
        ob.close("normals", N[good], (cr / np.maximum(nn, 1e-300)[:, None])[good], 1e-6, msg="N of " + msg)
    ob.check("extent", s.size == len(t), "size %s of %d facets: %s" % (s.size, len(t), msg))
    lo, hi = P.min(0), P.max(0)
    for k, v in (("x_min", lo[0]), ("x_max", hi[0]), ("y_min", lo[1]), ("y_max", hi[1]), ("z_min", lo[2]), ("z_max", hi[2]), ("Lx", hi[0] - lo[0]), ("Ly", hi[1] - lo[1])):
        if hasattr(s, k):
            ob.close("extent", getattr(s, k), v, 1e-12 * (L + np.abs(P).max()), msg="%s of %s" % (k, msg))
    if single:
        ob.check("normals", np.all(N[good][:, 2] > 0), "%d facets of %s point downwards" % ((N[good][:, 2] <= 0).sum(), msg), n=len(t))
        area2 = 0.5 * cr[:, 2]
        full = (hi[0] - lo[0]) * (hi[1] - lo[1])
        ob.close("tiles the cell", area2.sum(), full, 1e-9 * full, msg="facets cover area of " + msg)
    return a, b, c, nn


def height(s, x, y):
    """Heights of the surface above points of the cell: (number of facets hit, min, max)."""
    P, t = np.asarray(s.Points, float), np.asarray(s.simplices)
    a, b, c = P[t[:, 0]], P[t[:, 1]], P[t[:, 2]]
    v0, v1 = (b - a)[:, :2], (c - a)[:, :2]
    det = v0[:, 0] * v1[:, 1] - v0[:, 1] * v1[:, 0]
    ok = np.abs(det) > 1e-12 * np.ptp(P[:, 0]) * np.ptp(P[:, 1])
    lo, hi, n = np.full(len(x), np.inf), np.full(len(x), -np.inf), np.zeros(len(x), int)
    e = 1e-9
    for i in np.nonzero(ok)[0]:
        w = np.stack([x - a[i, 0], y - a[i, 1]], 1)
        u = (w[:, 0] * v1[i, 1] - w[:, 1] * v1[i, 0]) / det[i]
        v = (v0[i, 0] * w[:, 1] - v0[i, 1] * w[:, 0]) / det[i]
        m = (u >= -e) & (v >= -e) & (u + v <= 1 + e)
        if m.any():
            z = a[i, 2] + u[m] * (b - a)[i, 2] + v[m] * (c - a)[i, 2]
            n[m] += 1
            lo[m], hi[m] = np.minimum(lo[m], z), np.maximum(hi[m], z)
    return n, lo, hi


def profile(ob, s, rng, msg, zt):
    """Random points lie under the surface once; opposite edges match."""
    x0, x1, y0, y1 = s.x_min, s.x_max, s.y_min, s.y_max
    x, y = rng.uniform(x0, x1, 60), rng.uniform(y0, y1, 60)
    n, lo, hi = height(s, x, y)
    ob.check("tiles the cell", np.all(n >= 1) and np.all(hi - lo <= 1e-7 * zt), "%d gaps and %d overlaps in %s" % ((n == 0).sum(), (hi - lo > 1e-7 * zt).sum(), msg), n=len(x))
    u = rng.uniform(0, 1, 30)
    yy, xx = y0 + u * (y1 - y0), x0 + u * (x1 - x0)
    o = np.ones_like(u)
    for A, B in (((o * x0, yy), (o * x1, yy)), ((xx, o * y0), (xx, o * y1))):
        na, _, a = height(s, *A)
        nb, _, b = height(s, *B)
        m = (na > 0) & (nb > 0)
        ob.check("periodic", np.all(m), "edge of %s not covered" % msg, n=len(m))
        ob.close("periodic", a[m], b[m], 1e-7 * zt, msg="opposite edges of " + msg)
    return x, y, hi


def pts(s):
    return np.asarray(s.Points, float)


def sorted_rows(a):
    a = np.round(a, 10) + 0.0
    return a[np.lexsort(a.T[::-1])]


def mirrored(ob, f, r, msg):
    a, b = sorted_rows(pts(f)), sorted_rows(pts(r) * [1, 1, -1])
    if ob.check("rear is the mirrored front", a.shape == b.shape, "%s: %d and %d points" % (msg, len(a), len(b))):
        ob.close("rear is the mirrored front", b, a, 2e-10 + 1e-9 * np.abs(a).max(), msg=msg)


def area(ob, s, nn, msg):
    if not hasattr(s, "find_area"):
        return
    s.find_area()
    want = 0.5 * nn.sum() / (s.Lx * s.Ly)
    ob.close("area", s.area, want, 1e-9 * want, msg="actual over projected area of " + msg)


def changes(ob, s, rng, msg, single=True):
    """A copy that is moved: consistent, and the original stays."""
    before = pts(s).copy()
    c = copy.deepcopy(s)
    ob.close("copy is independent", pts(c), before, 0, msg="copy of " + msg)
    z = float(rng.uniform(-30, 30))
    zc = c.zcov
    c.shift(z)
    ob.close("shift", pts(c), before - [0, 0, z], 1e-12 * (1 + np.abs(before).max()), msg=msg)
    ob.close("shift", c.zcov, zc - z, 1e-9, msg="coverage height of " + msg)
    audit(ob, c, "shifted " + msg, single)
    c.refresh()
    if getattr(c, "distribution", None) is None:
        ob.close("shift", pts(c), before - [0, 0, z], 1e-12 * (1 + np.abs(before).max()), msg="redraw without a distribution: " + msg)
    ob.close("copy is independent", pts(s), before, 0, msg="original of a shifted copy: " + msg)
    audit(ob, s, "after copy: " + msg, single)


def use(ob, pair, rng, msg):
    """Building a ray-tracing structure must not alter the user's textures."""
    from rayflare.ray_tracing import rt_structure
    from rfv.mats import Mat
    before = [pts(s).copy() for s in pair]
    rt_structure([pair, pair], [Mat(2.0)], [float(rng.uniform(5, 50)) * 1e-6], Mat(1.0), Mat(1.0))
    for s, b in zip(pair, before):
        ob.close("use leaves texture alone", pts(s), b, 0, msg=msg)


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    k = case["kind"]
    if k == "hyper":
        return hyper(ob, rng)
    if k == "random height":
        return redraw(ob, rng)
    s = tex.rand(rng, kinds=[k])
    if k.startswith("rough") and rng.random() < 0.7:
        s.update(noise=float(rng.uniform(0.02, 0.7)), npts=int(rng.integers(9, 70)))
    if k == "hemi" and rng.random() < 0.8:
        R = float(rng.uniform(0.2, 0.45))
        s.update(noise=float(rng.uniform(0.02, 0.5)), side=int(rng.integers(6, 17)), rad=R, off=R * float(rng.choice([0, rng.uniform(0, 0.8)])), stretch=float(rng.choice([1, rng.uniform(0.2, 3)])))
    kw = {}
    if rng.random() < 0.4:
        from solcore.structure import Layer
        from rfv.mats import Mat
        L = [Layer(1e-8, Mat(1.5, 0.1)), Layer(2e-8, Mat(2.5))]
        kw = dict(interface_layers=L, name="coated", prof_layers=[1])
    width = 1.0
    if k == "V" and rng.random() < 0.3:
        from rayflare import textures as tx
        width = float(rng.choice([0.5, 2, rng.uniform(0.3, 10)]))
        pair = tx.V_grooves(elevation_angle=s["ang"], width=width, direction=s["dir"], **kw)
        s["width"] = width
    else:
        pair = tex.make(s, **kw)
    ob.check("rear is the mirrored front", len(pair) == 2, "%d surfaces" % len(pair))
    f, r = pair
    msg = "%s" % (s,)
    if kw:
        ok = [l.material.n(1e-6) for l in f.interface_layers] == [1.5, 2.5] and f.name == "coated" and f.prof_layers == [1]
        ob.check("interface layers kept", ok, msg)
    L = float(s["size"]) if k != "V" else width
    zt = max(L, np.abs(pts(f)).max())
    if k == "V" and abs(width - 1) > 1e-9:
        # the end of the groove: compare with the surface described, and file the known misfit under its own key
        x, y = rng.uniform(0, width, 60), rng.uniform(0, width, 60)
        n, lo, hi = height(f, x, y)
        d = np.minimum(x, width - x) if s["dir"] == "y" else np.minimum(y, width - y)
        want = d * np.tan(np.radians(s["ang"]))
        if np.all(n >= 1) and np.abs(hi - want).max() < 1e-7 * zt:
            ob.check("described height", True, n=60)
        else:
            P = pts(f)
            i = np.argsort(P[:, 2])[-2:]
            q = 1 if s["dir"] == "y" else 0
            known = np.allclose(np.sort(P[i, q]), [0, 1]) and np.allclose(P[i, 2], width * np.tan(np.radians(s["ang"])) / 2)
            ob.fail("described height", "V-grooves of width %s" % width, VG if known else None)
        return
    for q, w in ((f, "front"), (r, "rear")):
        a, b, c, nn = audit(ob, q, "%s of %s" % (w, msg))
        area(ob, q, nn, "%s of %s" % (w, msg))
    mirrored(ob, f, r, msg)
    # ---- the surface described -----------------------------------------------------------------
    x, y, z = profile(ob, f, rng, msg, zt)
    P = pts(f)
    if k in ("pyr", "inv"):
        want = np.minimum(np.minimum(x, L - x), np.minimum(y, L - y)) * np.tan(np.radians(s["ang"])) * (1 if k == "pyr" else -1)
        ob.close("described height", z, want, 1e-7 * zt, msg=msg)
        ob.close("extent", [f.Lx, f.Ly], [L, L], 1e-9 * L, msg="period of " + msg)
    elif k == "V":
        d = np.minimum(x, 1 - x) if s["dir"] == "y" else np.minimum(y, 1 - y)
        ob.close("described height", z, d * np.tan(np.radians(s["ang"])), 1e-7 * zt, msg=msg)
    elif k == "planar":
        ob.close("described height", z, 0 * x, 0, msg=msg)
        ob.close("extent", [f.Lx, f.Ly], [L, L], 1e-9 * L, msg="period of " + msg)
    elif k in ("rough_pyr", "rough_planar"):
        npt = s.get("npts", 16 if s["grid"] else 14)
        side = int(np.ceil(np.sqrt(npt) - 1e-9))
        ds = L / (side - 1) if s["grid"] else L / np.sqrt(npt)
        npt = side ** 2 if s["grid"] else npt
        noise = ds * np.tan(s.get("noise", 0.12 if k == "rough_pyr" else 0.5))
        ideal = np.zeros(len(P))
        sg = 1
        if k == "rough_pyr":
            sg = 1 if s["up"] else -1
            ideal = np.minimum(np.minimum(P[:, 0], L - P[:, 0]), np.minimum(P[:, 1], L - P[:, 1])) * np.tan(np.radians(min(s["ang"], 60)))
        edge = np.minimum(np.minimum(P[:, 0], L - P[:, 0]), np.minimum(P[:, 1], L - P[:, 1])) < 1e-12 * L
        ob.close("described height", P[edge, 2], np.zeros(edge.sum()), 1e-9 * L, msg="edge of " + msg)
        dev = sg * P[~edge, 2] - ideal[~edge]
        ob.between("described height", dev, -1e-9 * L, noise * (1 + 1e-9), msg="roughness of " + msg)
        ob.check("described height", len(P) == npt and np.ptp(dev) > 0.02 * noise, "%d points, roughness %g of %g: %s" % (len(P), np.ptp(dev), noise, msg))
        ob.close("extent", [f.Lx, f.Ly], [L, L], 1e-9 * L, msg="period of " + msg)
    elif k == "hemi":
        R, off, side = s.get("rad", 0.42) * L, s.get("off", 0.1) * L, s.get("side", 7)
        rho2 = (P[:, 0] - L / 2) ** 2 + (P[:, 1] - L / 2) ** 2
        cap = s.get("stretch", 1) * (np.sqrt(np.maximum(R ** 2 - rho2, 0)) - off)
        inside = rho2 < (R ** 2 - off ** 2) * (1 - 1e-9)
        sg = 1 if s["up"] else -1
        ob.close("described height", sg * P[inside, 2], cap[inside], 1e-9 * L, msg="cap of " + msg)
        ds = L / (side - 1)
        ob.between("described height", sg * P[~inside, 2], -1e-9 * L, (ds * np.tan(s.get("noise", 0.1)) if s["grid"] else 0) + 1e-7 * L, msg="plane of " + msg)
        g = np.linspace(-L / 2, L / 2, side)
        g2 = (g[:, None] ** 2 + g[None] ** 2).ravel()
        few = (g2 < (R ** 2 - off ** 2) * (1 - 1e-9)).sum()
        ob.check("described height", inside.sum() >= few, "%d points on the cap, expected %d: %s" % (inside.sum(), few, msg))
        ob.close("extent", [f.Lx, f.Ly], [L, L], 1e-9 * L, msg="period of " + msg)
    elif k == "heights":
        zz = tex.grid_heights(s)
        ny, nx = zz.shape
        gx, gy = np.linspace(0, L, nx), np.linspace(0, L * s["asp"], ny)
        want = sorted_rows(np.array([[gx[i], gy[j], zz[j, i]] for i in range(nx) for j in range(ny)]))
        got = sorted_rows(P)
        if ob.check("height map", got.shape == want.shape, "%d points, expected %d" % (len(got), len(want))):
            ob.close("height map", got, want, 1e-9 * zt, msg=msg)
        ob.close("extent", [f.Lx, f.Ly], [L, L * s["asp"]], 1e-9 * L, msg="period of " + msg)
    elif k == "xyz":
        g = np.random.default_rng(s["seed"])
        n = int(g.integers(3, 9))
        gx, gy = g.uniform(0.1, 0.9, n) * L, g.uniform(0.1, 0.9, n) * L * s["asp"]
        gz = g.uniform(-1, 1, n) * L * 0.25 * np.tan(np.radians(s["ang"])) / 1.5
        want = np.vstack([np.stack([gx + s["ox"], gy + s["oy"], gz], 1), np.array([[a + s["ox"], b * s["asp"] + s["oy"], 0] for a in (0, L) for b in (0, L)])])
        got, want = sorted_rows(P), sorted_rows(want)
        if ob.check("given points", got.shape == want.shape, "%d points, expected %d" % (len(got), len(want))):
            ob.close("given points", got, want, 1e-9 * zt, msg=msg)
        # no copy of, or change to, the caller's arrays
        from rayflare.textures import xyz_texture
        arr = [want[:, i].copy() for i in range(3)]
        keep = [v.copy() for v in arr]
        q = xyz_texture(*arr)
        q[0].shift(1.5)
        for v, w in zip(arr, keep):
            ob.close("given points", v, w, 0, msg="the caller's arrays")
    changes(ob, f, rng, msg)
    if k not in ("hemi",):
        use(ob, pair, rng, msg)
    if k != "planar":
        ob.fp(s)


def redraw(ob, rng):
    from rayflare.textures import regular_pyramids
    L = float(rng.uniform(0.5, 8))
    hs = np.round(rng.uniform(0.2, 1.2, int(rng.integers(1, 4))) * L, 4)
    p = rng.dirichlet(np.ones(len(hs)))
    up = bool(rng.random() < 0.5)
    f, r = regular_pyramids(elevation_angle=50, upright=up, size=L, height_distribution=dict(h=hs, p=p))
    msg = "pyramids of size %.3f with heights %s up %s" % (L, hs, up)
    z = float(rng.choice([0, rng.uniform(-40, 40)]))
    seen = set()
    if rng.random() < 0.5:
        f = copy.deepcopy(f)
    if z:
        f.shift(z)
    for i in range(12):
        P = pts(f)
        apex = P[np.argmin((P[:, 0] - L / 2) ** 2 + (P[:, 1] - L / 2) ** 2), 2] + z
        h = apex if up else -apex
        j = int(np.argmin(np.abs(hs - h)))
        ob.close("height redraw", h, hs[j], 1e-9 * (1 + abs(z)), msg="apex of " + msg)
        base = P[np.argsort(-((P[:, 0] - L / 2) ** 2 + (P[:, 1] - L / 2) ** 2))[:4], 2] + z
        ob.close("height redraw", base, np.zeros(4), 1e-9 * (1 + abs(z)), msg="base of " + msg)
        audit(ob, f, "redrawn " + msg)
        seen.add(j)
        f.refresh()
    if len(hs) > 1 and p.min() > 0.3:
        ob.check("height redraw", len(seen) > 1, "heights are never redrawn: " + msg)
    ob.fp(msg)


def hyper(ob, rng):
    from rayflare.textures import hyperhemisphere
    R = float(rng.choice([1.0, rng.uniform(0.3, 8)]))
    h = float(rng.choice([0.0, rng.uniform(-0.6, 0.8)])) * R
    n = int(rng.integers(250, 700))
    f, b = hyperhemisphere(n, R, h)
    msg = "%d points radius %.3f h %.3f" % (n, R, h)
    for s, sg, w in ((f, 1, "front"), (b, -1, "rear")):
        a, q, c, nn = audit(ob, s, "%s hyperhemisphere %s" % (w, msg), single=False)
        C = np.array([0, 0, h * sg])
        t = np.asarray(s.simplices)
        used = np.unique(t)
        P = pts(s)[used]
        d = np.linalg.norm(P - C, axis=1)
        ob.close("hyperhemisphere on sphere", d, R + 0 * d, 1e-9 * R, msg=w + " " + msg)
        ob.between("hyperhemisphere on sphere", sg * P[:, 2], -1e-9 * R, R + h + 1e-9 * R, msg=w + " " + msg)
        # closed but for the ring at z = 0
        e = {}
        for tri in t:
            for i in range(3):
                k = tuple(sorted((int(tri[i]), int(tri[(i + 1) % 3]))))
                e[k] = e.get(k, 0) + 1
        allp = pts(s)
        once = [k for k, v in e.items() if v == 1]
        ok = max(e.values()) <= 2 and all(np.abs(allp[list(k), 2]).max() < 1e-9 * R for k in once)
        ob.check("hyperhemisphere closed", ok, "%s hyperhemisphere %s has %d edges with one facet above the base" % (w, msg, sum(np.abs(allp[list(k), 2]).max() > 1e-9 * R for k in once)), n=len(e))
        want = 2 * np.pi * R * (R + h)
        ob.between("hyperhemisphere closed", 0.5 * nn.sum(), want * 0.9, want * 1.001, msg="area of " + msg)
        mid = (a + q + c) / 3 - C
        N = np.asarray(s.N)
        big = nn > 1e-6 * R * R
        out = np.sum(N * mid, axis=1)[big] * sg
        ob.check("hyperhemisphere normals", np.all(out > 0), "%d of %d facets of the %s hyperhemisphere %s face the wrong way" % ((out <= 0).sum(), len(out), w, msg), n=len(out))
    mirrored(ob, f, b, msg)
    changes(ob, f, rng, msg, single=False)
    ob.fp(msg)
