"""P13 ray paths over the exact periodic surface."""
import numpy as np
from rfv import ref_rt as rr, tex, rtrun as rt
from rfv.mats import Mat

ID = "P13"
CASE_LIMIT = 100
TECHNIQUE = "runtime monitor: every observed ray outcome checked against an independent exact tracer over the same facets (offline oracle), under random textures, incidence and unit-cell descriptions"
RULE = ("random textures of every generator, incidence up to grazing, deterministic media (each ray compared exactly) and branching media "
        "(each outcome must belong to the exact branch tree, with its frequency); non-trivial: some ray interacts more than once or crosses a cell boundary")
REQUIRED = ["deterministic path", "branch outcome", "branch frequency", "same surface, other cell", "structure path", "structure power", "start inside", "single cell",
            "height distribution", "closed surface"]


def cases(rng, tier):
    n = 420 if tier == "quick" else 20000
    kinds = ["single", "single", "branch", "equivalent", "structure", "inside", "cell", "heights", "grazing", "edges"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31))) for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


def incidence(rng, graz=False, lim=None):
    th = float(rng.choice([0.0, rng.uniform(0, 0.6), rng.uniform(0.6, 1.3), rng.uniform(1.2, 1.5)]) if not graz else rng.uniform(1.3, 1.54))
    ph = float(rng.choice([0.0, np.pi / 2, rng.uniform(-np.pi, 2 * np.pi), rng.uniform(0, np.pi / 2)]))
    return min(th, lim or 2), ph


def wave():
    return 1e-6


def trace_one(ob, t, n0, n1, th, ph, xl, yl, nx, ny, pol="u", reps=1, periodic=1, S=None):
    from rayflare.ray_tracing import rt_structure
    o = rt.opts(nx, ny, reps, th, ph, pol, xl=xl, yl=yl, periodic=periodic)
    st = rt_structure([t], [], [], n0, n1)
    r = st.calculate(o)
    S = S or tex.ref(t[0], periodic=bool(periodic))
    x, y = rt.grid(o)
    rays = rr.start(x, y, abs(S.zmax + 1e-8), rr.direction(th, ph))
    out, _, lost = rr.interface(S, rays, n0.nk(wave())[0], n1.nk(wave())[0], pol, 1e-9)
    return r, out, lost, len(x)


def det_media(rng):
    n0 = float(rng.uniform(1, 2.5))
    return (Mat(n0), Mat(1.3, 1e9)) if rng.random() < 0.6 else (Mat(n0), Mat(n0))


def k_single(case, ob, rng, graz=False):
    s = tex.rand(rng)
    t = tex.make(s)
    S = tex.ref(t[0])
    if rng.random() < 0.3:
        t = [t[1], t[0]]
        S = tex.ref(t[0])
    th, ph = incidence(rng, graz)
    n0, n1 = det_media(rng)
    xl, yl = rt.limits(rng, S)
    r, out, lost, n = trace_one(ob, t, n0, n1, th, ph, xl, yl, 6, 5)
    slack = int(out.amb.sum()) + int(np.ceil(lost * n - 1e-9))
    ob.event("rays traced", n)
    ob.event("ambiguous rays (edge hits)", slack)
    if slack > 6:
        return
    msg = "%s theta %.3f phi %.3f n %.2f/%s" % (s, th, ph, n0.n(1e-6), "mirror" if n1.k(1e-6) else "same")
    rt.same_multiset(ob, "deterministic path", rt.observed(r), rt.expected(out), slack, msg)
    up = out.w[out.d[:, 2] > 0].sum()
    ob.between("deterministic path", r["R"], up - (slack + 0.01) / n, up + (slack + 0.01) / n, "reflected fraction " + msg)
    if out.nint.max() > 1:
        ob.fp("single", s["kind"], s["seed"], round(th, 3))


def k_grazing(case, ob, rng):
    k_single(case, ob, rng, graz=True)


def k_branch(case, ob, rng):
    s = tex.rand(rng)
    t = tex.make(s)
    S = tex.ref(t[0])
    th, ph = incidence(rng)
    n0, n1 = Mat(float(rng.uniform(1, 3.5))), Mat(float(rng.uniform(1, 3.5)), float(rng.choice([0, 0, 10 ** rng.uniform(-3, 0.5)])))
    pol = str(rng.choice(["s", "p", "u"]))
    xl, yl = rt.limits(rng, S)
    reps = 60
    r, out, lost, P = trace_one(ob, t, n0, n1, th, ph, xl, yl, 3, 3, pol, reps)
    N = P * reps
    slack = reps * len(set(out.orig[out.amb])) + 8 * np.ceil(lost * N)
    ob.event("rays traced", N)
    if slack > N / 4:
        return
    got, want = rt.observed(r), rt.expected(out)
    reps_, lab = rt.clusters(want)
    w = np.bincount(lab, weights=out.w, minlength=len(reps_))
    from scipy.spatial import cKDTree
    d, j = cKDTree(reps_ * rt.SCALE).query(got * rt.SCALE)
    msg = "%s theta %.3f phi %.3f n %s/%s pol %s" % (s, th, ph, n0.name, n1.name, pol)
    un = int((d > 1e-5).sum())
    ob.check("branch outcome", un <= slack, "%s: %d of %d rays end in a way the laws of reflection and refraction do not allow" % (msg, un, N), n=N)
    seen = np.bincount(j[d <= 1e-5], minlength=len(reps_)) / N
    for k in range(len(reps_)):
        rt.zscore(ob, "branch frequency", seen[k], w[k], w[k] * (1 - w[k]), N, "outcome %s %s" % (np.round(reps_[k], 4), msg), extra=slack / N)
    up = out.w[out.d[:, 2] > 0].sum()
    rt.zscore(ob, "branch frequency", float(r["R"][0]), up, up * (1 - up), N, "reflectance " + msg, extra=slack / N)
    if len(reps_) > 2:
        ob.fp("branch", s["kind"], s["seed"], round(th, 3))


def k_equivalent(case, ob, rng):
    """The same physical rays over the same surface, described with another unit cell."""
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    th, ph = incidence(rng)
    n0, n1 = det_media(rng)
    L = 1.0
    g = np.random.default_rng(case["seed"] + 1)
    m = int(g.integers(3, 6))
    n = int(g.integers(3, 6))
    z = g.random((n, m)) * 0.35
    ax, ay = np.arange(m + 1) / m, np.arange(n + 1) / n * float(g.choice([1.0, 1.3]))

    zc = g.random((n, m)) * 0.35
    px, py = g.uniform(0.35, 0.47, 2)            # a point inside every mesh of the grid makes the triangulation unique

    def pts(z, zc, f=1.0, ox=0.0, oy=0.0, rep=(1, 1)):
        zz, zi = np.tile(z, rep), np.tile(zc, rep)
        zz = np.pad(zz, ((0, 1), (0, 1)), mode="wrap")
        X, Y = np.meshgrid(np.arange(zz.shape[1]), np.arange(zz.shape[0]))
        Xi, Yi = np.meshgrid(np.arange(zi.shape[1]) + px, np.arange(zi.shape[0]) + py)
        X, Y = np.append(X.ravel(), Xi.ravel()) / m, np.append(Y.ravel(), Yi.ravel()) * (ay[-1] / n)
        return [(X + ox) * f, (Y + oy) * f, np.append(zz.ravel(), zi.ravel()) * f]
    how = str(rng.choice(["scale", "origin", "repeat", "roll", "turn"]))
    x0, y0 = g.uniform(0, 1, 24), g.uniform(0, ay[-1], 24)
    t0 = tx.xyz_texture(*pts(z, zc))
    f, ox, oy = 1.0, 0.0, 0.0
    ph1 = ph
    if how == "scale":
        f = float(10 ** g.uniform(-1, 2))
        t1 = tx.xyz_texture(*pts(z, zc, f))
        x1, y1 = x0 * f, y0 * f
    elif how == "origin":
        ox, oy = g.uniform(-3, 3, 2)
        t1 = tx.xyz_texture(*pts(z, zc, 1.0, ox, oy))
        x1, y1 = x0 + ox, y0 + oy
    elif how == "repeat":
        rep = (int(g.integers(1, 3)), int(g.integers(1, 3)))
        t1 = tx.xyz_texture(*pts(z, zc, rep=rep))
        x1, y1 = x0 + float(g.integers(0, rep[1])), y0 + ay[-1] * float(g.integers(0, rep[0]))
    elif how == "roll":
        a, b = int(g.integers(0, n)), int(g.integers(0, m))
        t1 = tx.xyz_texture(*pts(np.roll(z, (a, b), (0, 1)), np.roll(zc, (a, b), (0, 1))))
        x1, y1 = x0 + b / m, y0 + a * ay[-1] / n
    else:
        p = pts(z, zc)
        t1 = tx.xyz_texture(ay[-1] - p[1], p[0], p[2])        # quarter turn
        x1, y1 = ay[-1] - y0, x0
        ph1 = ph + np.pi / 2
    # the surfaces must be the same one: heights and facets compared away from RayFlare
    A, B = tex.ref(t0[0]), tex.ref(t1[0])

    def height(S, x, y):
        r = np.stack([x, y, np.full(len(x), S.zmax + 1.0)], 1)
        hit, p, tri, amb = S.first_hit(r, np.tile([0, 0, -1.0], (len(x), 1)))
        return p[:, 2]
    xs, ys = g.uniform(0, 1, 300), g.uniform(0, ay[-1], 300)
    if how == "scale":
        X1, Y1 = xs * f, ys * f
    elif how == "origin":
        X1, Y1 = xs + ox, ys + oy
    elif how == "repeat":
        X1, Y1 = xs + g.integers(0, rep[1], 300), ys + ay[-1] * g.integers(0, rep[0], 300)
    elif how == "roll":
        X1, Y1 = xs + b / m, ys + a * ay[-1] / n
    else:
        X1, Y1 = ay[-1] - ys, xs
    if np.max(np.abs(height(B, X1, Y1) - f * height(A, xs, ys))) > 1e-7 * max(f, 1):
        ob.event("equivalent description with other diagonals skipped")
        return
    rows = []
    amb = 0
    for t, x, y, p, ff in ((t0, x0, y0, ph, 1.0), (t1, x1, y1, ph1, f)):
        S = tex.ref(t[0])
        got = []
        for k in range(0, 24, 2):
            o = rt.opts(1, 1, 1, th, p, xl=[x[k], x[k]], yl=[y[k], y[k]])
            r = rt_structure([t], [], [], n0, n1).calculate(o)
            got.append(rt.observed(r)[0])
        rays = rr.start(x[::2], y[::2], abs(S.zmax + 1e-8), rr.direction(th, p))
        out, _, lost = rr.interface(S, rays, n0.nk(1e-6)[0], n1.nk(1e-6)[0], "u", 1e-9)
        amb = amb + int(out.amb.sum()) + int(np.ceil(lost * 12 - 1e-9))
        rows.append(np.array(got))
    if how == "turn":
        v = rows[1].copy()
        rows[1][:, 0], rows[1][:, 1] = v[:, 1], -v[:, 0]
    bad = int((np.abs(rows[0] - rows[1]).max(1) > 1e-5).sum())
    ob.check("same surface, other cell", bad <= amb, "%s: %d of 12 rays take another path (theta %.3f phi %.3f, n %.3f)" % (how, bad, th, ph, n0.n(1e-6)), "equivalent:" + how, n=12)
    ob.fp("equivalent", how, case["seed"])


def build_stack(rng, nlay, rear=True):
    L = 1.0
    specs = tex.repeat(rng, [tex.rand(rng, size=L, amax=60) for _ in range(nlay + 1)])
    for s in specs:
        s["asp"], s["ox"], s["oy"] = 1.0, 0.0, 0.0
    n = float(rng.uniform(1, 2))
    mats = [Mat(n, float(10 ** rng.uniform(-4, -3.4))) for _ in range(nlay)]
    widths = [float(rng.uniform(4, 40)) * 1e-6 for _ in range(nlay)]
    return specs, n, mats, widths


def decisive(out, N):
    """Outcomes of the rays with a single significant branch, and how many rays are undecided (edge hits, several branches, absorbed)."""
    cnt = np.bincount(out.orig, minlength=N)
    bad = np.bincount(out.orig[out.amb], minlength=N) > 0
    q = np.bincount(out.orig, weights=out.q, minlength=N)
    ok = (cnt == 1) & ~bad & (q > 1 - 2e-6)
    return out.take(ok[out.orig]), int(N - ok.sum())


def alphas_of(mats, wl=1e-6):
    return np.array([0.0] + [4 * np.pi * m.k(wl) / (wl * 1e6) for m in mats] + [0.0])


def k_structure(case, ob, rng):
    from rayflare.ray_tracing import rt_structure
    nl = int(rng.integers(1, 4))
    specs, n, mats, widths = build_stack(rng, nl)
    ts = tex.many(specs)
    th, ph = incidence(rng, lim=1.25)
    last = Mat(1.3, 1e9) if rng.random() < 0.75 else Mat(n)
    S0 = tex.ref(ts[0][0])
    xl, yl = rt.limits(rng, S0)
    o = rt.opts(5, 5, 1, th, ph, xl=xl, yl=yl)
    st = rt_structure(ts, mats, widths, Mat(n), last)
    before = [np.array(t[0].Points) for t in ts]
    r = st.calculate(o)
    for b, t in zip(before, ts):
        ob.check("structure path", np.array_equal(b, t[0].Points), "textures passed in are modified")
    cum = np.cumsum([0] + [w * 1e6 for w in widths])
    S = [tex.ref(t[0], shift=c) for t, c in zip(ts, cum)]
    x, y = rt.grid(o)
    rays = rr.start(x, y, abs(S[0].zmax + 1e-8), rr.direction(th, ph))
    nks = [n + 0j] + [m.nk(1e-6)[0] for m in mats] + [last.nk(1e-6)[0]]
    e = rr.stack(S, nks, alphas_of(mats), [w * 1e6 for w in widths], rays, "u", wmin=2e-4 / len(x), rng=rng)
    out = rr.Rays.cat(e["out"]) if e["out"] else rays.take(slice(0, 0))
    N = len(x)
    out, slack = decisive(out, N)
    if slack > 5:
        ob.event("structures with too many undecidable rays")
        return
    msg = "%d layers, %s theta %.3f phi %.3f" % (nl, [s["kind"] for s in specs], th, ph)
    rt.same_multiset(ob, "structure path", rt.observed(r), rt.expected(out), slack, msg)
    tol = slack / N + e["lost"] + 2e-5
    ob.between("structure power", r["R"], e["R"] - tol, e["R"] + tol, "R " + msg)
    ob.between("structure power", r["T"], e["T"] - tol, e["T"] + tol, "T " + msg)
    for i in range(nl):
        ob.between("structure power", r["A_per_layer"][0, i], e["A"][i] - tol, e["A"][i] + tol, "A layer %d %s" % (i + 1, msg))
    if e["R"] > 0.01 or e["A"].sum() > 0.01:
        ob.fp("structure", case["seed"])


def k_inside(case, ob, rng):
    """Rays that start in a layer of the structure, upwards or downwards."""
    from rayflare.ray_tracing import rt_structure
    nl = int(rng.integers(1, 4))
    specs, n, mats, widths = build_stack(rng, nl)
    ts = tex.many(specs)
    th, ph = incidence(rng, lim=1.25)
    mat = int(rng.integers(1, nl + 1))
    dirn = int(rng.choice([1, -1]))
    top = bool(rng.random() < 0.5)
    first = Mat(n) if not top else Mat(n)
    last = Mat(1.3, 1e9) if rng.random() < 0.5 else Mat(n)
    S0 = tex.ref(ts[0][0])
    xl, yl = rt.limits(rng, S0)
    o = rt.opts(5, 5, 1, th, ph, xl=xl, yl=yl, initial_material=mat, initial_direction=dirn)
    r = rt_structure(ts, mats, widths, first, last).calculate(o)
    cum = np.cumsum([0] + [w * 1e6 for w in widths])
    S = [tex.ref(t[0], shift=c) for t, c in zip(ts, cum)]
    x, y = rt.grid(o)
    d = rr.direction(th, ph)
    d[2] *= dirn
    z = -cum[mat - 1] - 1e-8 if dirn == 1 else -cum[mat] + 1e-8
    rays = rr.start(x, y, z, d)
    nks = [n + 0j] + [m.nk(1e-6)[0] for m in mats] + [last.nk(1e-6)[0]]
    e = rr.stack(S, nks, alphas_of(mats), [w * 1e6 for w in widths], rays, "u", wmin=2e-4 / len(x), rng=rng, first=(mat, 1) if dirn == 1 else (mat - 1, -1))
    out = rr.Rays.cat(e["out"]) if e["out"] else rays.take(slice(0, 0))
    N = len(x)
    out, slack = decisive(out, N)
    if slack > 5:
        ob.event("structures with too many undecidable rays")
        return
    msg = "start in layer %d of %d, direction %d, %s theta %.3f phi %.3f" % (mat, nl, dirn, [s["kind"] for s in specs], th, ph)
    rt.same_multiset(ob, "start inside", rt.observed(r), rt.expected(out), slack, msg)
    tol = slack / N + e["lost"] + 2e-5
    ob.between("start inside", r["R"], e["R"] - tol, e["R"] + tol, "R " + msg)
    ob.between("start inside", r["T"], e["T"] - tol, e["T"] + tol, "T " + msg)
    ob.fp("inside", mat, dirn, case["seed"])


def k_cell(case, ob, rng):
    """periodic = 0: one unit cell on its own."""
    s = tex.rand(rng, kinds=["pyr", "inv", "hemi", "xyz", "rough_pyr", "V"])
    t = tex.make(s)
    S = tex.ref(t[0], periodic=False)
    th, ph = incidence(rng)
    n0, n1 = det_media(rng)
    xl, yl = rt.limits(rng, S)
    r, out, lost, n = trace_one(ob, t, n0, n1, th, ph, xl, yl, 5, 5, periodic=0, S=S)
    slack = int(out.amb.sum())
    if slack > 5:
        return
    rt.same_multiset(ob, "single cell", rt.observed(r), rt.expected(out), slack, "single cell of %s theta %.3f phi %.3f" % (s, th, ph))
    ob.fp("cell", s["kind"], case["seed"])


def k_heights(case, ob, rng):
    """Random pyramid heights: only heights of the distribution occur; a single height is the fixed surface, in any position of the structure."""
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    ang, up = float(rng.uniform(20, 65)), bool(rng.random() < 0.5)
    h = float(rng.uniform(0.1, 1.0))
    a2 = np.degrees(np.arctan(2 * h))
    fixed = tx.regular_pyramids(a2, upright=up)
    var = tx.regular_pyramids(ang, upright=up, height_distribution={"h": np.array([h]), "p": np.array([1.0])})
    th, ph = incidence(rng)
    n = float(rng.uniform(1, 2))
    pos = int(rng.integers(0, 2))
    th = min(th, 1.25)
    other = tx.planar_surface()
    k = float(10 ** rng.uniform(-4, -3.4))
    w = float(rng.uniform(4, 30))
    res = []
    for t in (fixed, var):
        ts = [t, other] if pos == 0 else [other, t]
        S0 = tex.ref(ts[0][0])
        o = rt.opts(6, 5, 1, th, ph, xl=[0.0137, 0.973], yl=[0.0291, 0.9617])
        st = rt_structure(ts, [Mat(n, k)], [w * 1e-6], Mat(n), Mat(1.3, 1e9))
        res.append(st.calculate(o))
    # reference decides which rays are ambiguous
    ts = [fixed, other] if pos == 0 else [other, fixed]
    S = [tex.ref(t[0], shift=c) for t, c in zip(ts, (0, w))]
    x, y = rt.grid(o)
    e = rr.stack(S, [n + 0j, n + 1j * k, 1.3 + 1e9j], alphas_of([Mat(n, k)]), [w], rr.start(x, y, abs(S[0].zmax + 1e-8), rr.direction(th, ph)), "u", wmin=2e-4 / len(x), rng=rng)
    out = rr.Rays.cat(e["out"]) if e["out"] else None
    if out is None:
        return
    out, slack = decisive(out, len(x))
    if slack > 5:
        return
    for nm, r in zip(("fixed heights", "height distribution"), res):
        msg = "%s (%s, %s surface) theta %.3f" % (nm, "upright" if up else "inverted", "second" if pos else "first", th)
        rt.same_multiset(ob, "height distribution", rt.observed(r), rt.expected(out), slack, msg, key="height distribution:%d" % pos)
        tol = slack / len(x) + e["lost"] + 2e-5
        ob.between("height distribution", r["R"], e["R"] - tol, e["R"] + tol, "R " + msg, key="height distribution:%d" % pos)
    # several heights: facets of no other slope
    hs = np.sort(rng.uniform(0.1, 1.0, 3))
    var = tx.regular_pyramids(ang, upright=up, height_distribution={"h": hs, "p": np.array([0.2, 0.5, 0.3])})
    if pos == 0:
        st = rt_structure([var], [], [], Mat(n), Mat(1.3, 1e9))
        o = rt.opts(6, 6, 3, 0.0, 0.0)
        r = st.calculate(o)
        ob.check("height distribution", abs(float(r["R"][0]) - 1) < 1e-9, "mirror with random heights: R = %r" % r["R"])
    ob.fp("heights", pos, up, case["seed"])


def k_edges(case, ob, rng):
    """Rays that hit facet edges exactly: whatever facet is taken, a mirror stays closed and an interface without contrast changes nothing."""
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    up = bool(rng.random() < 0.5)
    ang = float(rng.choice([54.7, rng.uniform(10, 70)]))
    size = float(rng.choice([1, 2, rng.uniform(0.3, 20)]))
    t = tx.regular_pyramids(ang, upright=up, size=size) if rng.random() < 0.7 else tx.V_grooves(ang, width=1.0, direction=str(rng.choice(["x", "y"])))
    n0 = float(rng.uniform(1, 3))
    th, ph = (0.0, 0.0) if rng.random() < 0.6 else (float(rng.uniform(0, 1.4)), float(rng.choice([0, np.pi / 2, np.pi / 4])))
    nx = int(rng.choice([2, 4, 6, 10]))
    o = rt.opts(nx, nx, 1, th, ph, x_limits=None, y_limits=None) if rng.random() < 0 else rt.opts(nx, nx, 1, th, ph)
    r = rt_structure([t], [], [], Mat(n0), Mat(1.3, 1e9)).calculate(o)
    msg = "%s %.1f deg, size %.2f, theta %.2f phi %.2f, %dx%d" % ("upright" if up else "inverted", ang, size, th, ph, nx, nx)
    ob.close("closed surface", r["R"], np.ones(1), 1e-6, msg="mirror, R " + msg)
    r = rt_structure([t], [], [], Mat(n0), Mat(n0)).calculate(o)
    ob.close("closed surface", r["T"], np.ones(1), 1e-6, msg="no contrast, T " + msg)
    d = rt.observed(r)[:, :3]
    ob.close("closed surface", d, np.tile(rr.direction(th, ph), (len(d), 1)), 1e-6, msg="no contrast, direction " + msg)
    ob.fp("edges", up, ang, th, nx)
