"""P17 run-control options change the cost of ray tracing, not its answer."""
import os
import numpy as np
from scipy.stats import chi2
from rfv import bins as B, ref_rt as rr, ref_tmm, rtrun as rt, tex
from rfv.core import seed_all
from rfv.mats import Mat

ID = "P17"
TECHNIQUE = ("differential runtime monitor: every run repeated with other run-control options (worker pool, ray numbers, sampling, cut-off, order and choice of wavelengths), judged exactly where the media leave nothing to chance, "
             "and against an exact branching tracer with the sampling variance of each option otherwise")
RULE = ("textured and planar structures and redistribution matrices with media whose behaviour is a code for the wavelength (matched, mirror, own absorption at each wavelength), run sequentially, in workers, permuted, one by one, repeated; "
        "splitting media with every sampling option; non-trivial: at least three variants or a result strictly between 2 and 98 %")
REQUIRED = ["permuted wavelengths", "one wavelength at a time", "repeated wavelengths", "worker pool", "ray number", "cut-off", "matrix: permuted wavelengths", "matrix: one wavelength at a time", "matrix: worker pool",
            "film: wavelength's own", "film: table of other wavelengths", "film matrix: wavelength's own", "film profile: wavelength's own", "power balance", "fixed positions", "random positions", "randomised surface", "scatter", "ray count", "wavelengths independent", "matrix: positions"]
CASE_LIMIT = 300


def cases(rng, tier):
    n = 132 if tier == "quick" else 6600
    kinds = ["order", "matrix", "sampling", "film", "order", "sampling", "filmmatrix", "scatter", "cut", "numbers", "positions"]
    c = [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), big=tier != "quick", cost=dict(sampling=3, scatter=2).get(kinds[i % len(kinds)], 1)) for i in range(n)]
    return [dict(kind="pool", what=["order", "matrix", "film", "sampling"][i % 4], seed=int(rng.integers(1 << 31)), big=tier != "quick", cost=9) for i in range(8 if tier == "quick" else 200)] + c


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    seed_all(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


class Coded(Mat):
    """Optical constants that are a table of the wavelengths."""

    def __init__(self, wls, n, k):
        Mat.__init__(self, 1.0)
        self.wls, self.tn, self.tk = np.array(wls, float), np.array(n, float), np.array(k, float)
        self.name = "coded"

    def _at(self, wl, t):
        w = np.asarray(wl, float)
        i = np.argmin(np.abs(np.atleast_1d(w).ravel()[:, None] - self.wls[None]), 1)
        r = t[i].reshape(np.shape(np.atleast_1d(w)))
        return r if w.ndim else float(r[0])

    def n(self, wl, *a, **kw):
        return self._at(wl, self.tn)

    def k(self, wl, *a, **kw):
        return self._at(wl, self.tk)


def wavelengths(rng, n):
    return 400e-9 + np.sort(rng.permutation(300)[:n]) * 4e-9


def variants(rng, wls):
    """Other ways of asking for the same wavelengths: indices into the list."""
    n = len(wls)
    out = {"permuted wavelengths": rng.permutation(n), "one wavelength at a time": np.array([int(rng.integers(n))]), "repeated wavelengths": rng.integers(0, n, int(rng.integers(2, n + 3)))}
    if n > 1 and np.all(out["permuted wavelengths"] == np.arange(n)):
        out["permuted wavelengths"] = np.arange(n)[::-1]
    return out


# ---------------------------------------------------------------- media that leave nothing to chance
def coded_structure(rng, wls):
    nl = int(rng.integers(1, 4))
    specs = tex.repeat(rng, [tex.rand(rng, size=1.0, amax=60) for _ in range(nl + 1)])
    for s in specs:
        s["asp"], s["ox"], s["oy"] = 1.0, 0.0, 0.0
    n = float(rng.uniform(1, 2))
    code = rng.random(len(wls)) < 0.6
    if len(wls) > 1 and code.all():
        code[int(rng.integers(len(wls)))] = False
    mats = [Coded(wls, np.full(len(wls), n), 10 ** rng.uniform(-6.5, -5, len(wls))) for _ in range(nl)]
    last = Coded(wls, np.where(code, 1.3, n), np.where(code, 1e9, 0.0))
    # weak absorption and thick layers: contrast of k would reflect rays at grazing facets now and then
    widths = [float(10 ** rng.uniform(2, 3.5)) * 1e-6 for _ in range(nl)]
    return specs, mats, widths, Mat(n), last


def outcome(r, i):
    """Everything a ray-traced result says about one wavelength; rays as a sorted list."""
    rows = rt.observed(r, i)
    rows = np.concatenate([rows, ], 1)
    return dict(R=float(np.real(r["R"][i])), T=float(np.real(r["T"][i])), R0=float(np.real(r["R0"][i])), A=np.asarray(r["A_per_layer"][i], float), profile=np.asarray(r["profile"][i], float), rays=rows)


def same_outcome(ob, oracle, got, want, msg, reps=1.0, tol=1e-9):
    for k in ("R", "T", "R0", "A", "profile"):
        ob.close(oracle, got[k], want[k], tol * (1 + np.max(np.abs(want[k]), initial=0)), 1e-7, msg="%s: %s" % (k, msg))
    a, b = got["rays"], want["rays"]
    if ob.check(oracle, len(a) == round(len(b) * reps), "%d rays, expected %g: %s" % (len(a), len(b) * reps, msg)):
        key = np.round(np.concatenate([np.repeat(b, int(round(reps)), 0)]) if reps >= 1 else b, 6) + 0.0
        x, y = np.round(a, 6) + 0.0, key
        x, y = x[np.lexsort(x.T[::-1])], y[np.lexsort(y.T[::-1])]
        if len(x) == len(y) and np.abs(x - y).max(initial=0) > 2e-6:
            # rounding may order neighbours differently: compare as multisets
            rt.same_multiset(ob, oracle, a, key, 0, msg)
        else:
            ob.check(oracle, True, n=len(a))


def k_order(case, ob, rng, pool=False):
    from rayflare.ray_tracing import rt_structure
    wls = wavelengths(rng, int(rng.integers(2, 9)))
    specs, mats, widths, inc, last = coded_structure(rng, wls)
    ts = tex.many(specs)
    th, ph = float(rng.choice([0, rng.uniform(0, 1.2)])), float(rng.uniform(0, 6.28))
    S0 = tex.ref(ts[0][0])
    xl, yl = rt.limits(rng, S0)
    kw = dict(depth_spacing_bulk=float(sum(widths) / rng.integers(20, 200)), I_thresh=float(rng.choice([1e-9, 1e-3])))

    def calc(ix, **k):
        o = rt.opts(4, 4, 1, th, ph, wl=wls[ix], xl=xl, yl=yl, **dict(kw, **k))
        return rt_structure(ts, mats, widths, inc, last).calculate(o)
    base = calc(np.arange(len(wls)))
    msg = "%d wavelengths, %d layers, %s theta %.3f" % (len(wls), len(widths), [s["kind"] for s in specs], th)
    want = [outcome(base, i) for i in range(len(wls))]
    for i, w in enumerate(want):
        ob.close("power balance", w["R"] + w["T"] + w["A"].sum(), 1.0, 1e-7 + (kw["I_thresh"] if kw["I_thresh"] > 1e-6 else 0), msg=msg)
    if pool:
        r = calc(np.arange(len(wls)), parallel=True, n_jobs=int(rng.choice([2, 3])))
        for i in range(len(wls)):
            same_outcome(ob, "worker pool", outcome(r, i), want[i], msg)
        vs = dict(list(variants(rng, wls).items())[:1])
    else:
        vs = variants(rng, wls)
    for name, ix in vs.items():
        k = dict(parallel=True, n_jobs=2) if pool else {}
        r = calc(ix, **k)
        for a, i in enumerate(ix):
            same_outcome(ob, "worker pool" if pool else name, outcome(r, a), want[i], "%s, position %d of %s: %s" % (name, a, ix.tolist(), msg))
    reps = int(rng.integers(2, 4))
    o = rt.opts(4, 4, reps, th, ph, wl=wls[:1], xl=xl, yl=yl, **kw)
    o.n_rays = 16 * reps - int(rng.integers(16))
    r = rt_structure(ts, mats, widths, inc, last).calculate(o)
    same_outcome(ob, "ray number", outcome(r, 0), want[0], "%d rays on 16 points: %s" % (o.n_rays, msg), reps=reps)
    ob.fp("order", case["seed"], len(wls))


def k_pool(case, ob, rng):
    w = case["what"]
    globals()["k_" + w](case, ob, rng, pool=True)


def k_matrix(case, ob, rng, pool=False):
    from rayflare.ray_tracing.rt import RT
    from rayflare.structure import RTgroup
    wls = wavelengths(rng, int(rng.integers(2, 8)))
    code = rng.random(len(wls)) < 0.5
    n = float(rng.uniform(1, 2))
    inc, trn = Mat(n), Coded(wls, np.where(code, 1.3, n), np.where(code, 1e9, 0.0))
    side = str(rng.choice(["front", "rear"]))
    if side == "rear":
        inc, trn = trn, inc
    s = tex.rand(rng, size=1.0)
    t = tex.make(s)
    sym, caz = float(rng.choice([np.pi / 2, np.pi, 2 * np.pi])), float(rng.choice([0.1, 0.4]))
    nt = int(rng.integers(2, 5))
    h = len(B.bins(nt, sym, caz)[0]) // 2
    single = bool(rng.random() < 0.3)
    reps = int(rng.integers(1, 3))

    def calc(ix, name="a", **k):
        o = rt.opts(3, 3, 1, 0.4, 0.5, wl=wls[ix], n_theta_bins=nt, phi_symmetry=sym, c_azimuth=caz, theta_spacing="sin", only_incidence_angle=single, random_ray_angles=False, depth_spacing=1e-9, **k)
        o.n_rays = 9 * h * k.get("m", reps)
        os.makedirs(ob.dir + "/m", exist_ok=True)
        r = RT(RTgroup(textures=[t]), inc, trn, name, o, ob.dir + "/m", 0, side, 0, None, single, save=bool(rng.random() < 0.5), overwrite=True)
        return np.asarray(r[0].todense())
    base = calc(np.arange(len(wls)))
    msg = "matrix %s of %s, code %s, %d bins" % (side, s["kind"], code.astype(int).tolist(), 2 * h)
    ob.check("power balance", np.all((np.abs(base.sum(1) - 1) < 1e-7) | (base.sum(1) == 0)), "column sums %s: %s" % (np.unique(np.round(base.sum(1), 6))[:6], msg))
    if pool:
        r = calc(np.arange(len(wls)), parallel=True, n_jobs=int(rng.choice([2, 3])))
        ob.close("matrix: worker pool", r, base, 1e-9, msg=msg)
        ix = rng.permutation(len(wls))
        ob.close("matrix: worker pool", calc(ix, parallel=True, n_jobs=2), base[ix], 1e-9, msg="order %s: %s" % (ix.tolist(), msg))
    else:
        for name, ix in variants(rng, wls).items():
            ob.close("matrix: " + name, calc(ix), base[ix], 1e-9, msg="%s: %s" % (ix.tolist(), msg))
        ob.close("matrix: ray number", calc(np.arange(len(wls)), m=reps + 1), base, 1e-9, msg=msg)
    if not code.all() and code.any():
        ob.fp("matrix", case["seed"])


# ---------------------------------------------------------------- film tables
def coded_film(rng, wls):
    n = len(wls)
    k = 10 ** rng.uniform(-3, 0.5, n) * (rng.random(n) < 0.8)
    return Coded(wls, rng.uniform(1.2, 4, n), k), float(rng.uniform(20, 120))


def film_answer(film, d, n0, n1, wls, th, pol, ix, below=False):
    out = []
    for i in ix:
        ns = [n0, film.tn[i] + 1j * film.tk[i], n1]
        if below:
            ns = ns[::-1]
        x = ref_tmm.coherent(np.array(ns, complex), [d], th, wls[i] * 1e9, pol)
        out.append([x["R"], x["T"], x["A_layers"][0]])
    return np.array(out)


def film_profile(ob, P, A, film, d, n0, n1, wl, i, th, pol, msg, worth):
    """The profile (per nm, 1 nm steps) adds up to the absorption and has the shape of this wavelength's."""
    if A < worth:
        return
    z = np.arange(len(P)) * 1.0
    if not ob.check("film profile: wavelength's own", abs(len(P) - d) <= 1.01, "%d depths for %.1f nm: %s" % (len(P), d, msg)):
        return
    ob.close("film profile: wavelength's own", np.trapezoid(P, z), A, 1e-9, 0.03 + 1.5 / d, msg="integral: " + msg)
    ns = np.array([n0, film.tn[i] + 1j * film.tk[i], n1], complex)
    ref = sum(ref_tmm.Coherent(ns, [d], th, wl * 1e9, q).absorption_density(1, z) for q in (pol if pol != "u" else "sp"))
    ref = ref / np.trapezoid(ref, z)
    ob.close("film profile: wavelength's own", P / np.trapezoid(P, z), ref, 0.05 * ref.max(), 0.02, msg="shape: " + msg)


def k_film(case, ob, rng, pool=False):
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    from solcore.structure import Layer
    wls = wavelengths(rng, int(rng.integers(2, 7)))
    film, d = coded_film(rng, wls)
    n0, n1 = 1.0, float(rng.uniform(1.0, 3))
    pol = str(rng.choice(["s", "p", "u"]))
    th = float(rng.choice([0, rng.uniform(0, 1.1)]))
    N = 400 if not case["big"] else 2000
    kw = dict(parallel=True, n_jobs=2) if pool else {}
    given = rng.permutation(len(wls))
    if rng.random() < 0.3:
        given = np.append(given, given[0])
    o = rt.opts(4, 4, N // 16, th, 0.3, pol, wls[given], **kw)
    o.lookuptable_angles = 200
    o.depth_spacing = 1e-9
    prof = bool(rng.random() < 0.5)
    pk = dict(prof_layers=[1]) if prof else {}
    st = rt_structure([tx.planar_surface(interface_layers=[Layer(d * 1e-9, film)], name="film", **pk)], [], [], Mat(n0), Mat(n1), options=o, use_TMM=True, save_location=ob.dir)
    near = np.max([np.abs(film_answer(film, d, n0, n1, wls, abs(th + s), pol, range(len(wls))) - film_answer(film, d, n0, n1, wls, th, pol, range(len(wls)))) for s in (-0.008, 0.008)], 0)
    for name, ix in [("film: wavelength's own", given)] + [("film: table of other wavelengths", rng.permutation(len(wls))[:int(rng.integers(1, len(wls) + 1))]) for _ in range(1 if pool else 2)]:
        o.wavelength = wls[ix]
        r = st.calculate(o)
        want = film_answer(film, d, n0, n1, wls, th, pol, ix)
        got = np.column_stack([np.real(r["R"]), np.real(r["T"]), np.asarray(r["A_per_interface"][0])[:, 0]])
        for a in range(len(ix)):
            for q in range(3):
                rt.zscore(ob, "worker pool" if pool else name, float(got[a, q]), want[a, q], want[a, q] * (1 - want[a, q]), N,
                          "%s at position %d of %s (%d in the table): theta %.3f %s" % ("RTA"[q], a, ix.tolist(), len(wls), th, pol), extra=near[ix[a], q] + 1e-4)
        ob.close("power balance", got.sum(1), np.ones(len(ix)), 1e-6)
        if prof:
            P = np.asarray(r["interface_profiles"][0])
            for a, i in enumerate(ix):
                film_profile(ob, P[a], got[a, 2], film, d, n0, n1, wls[i], i, th, pol, "position %d of %s, theta %.3f %s" % (a, ix.tolist(), th, pol), 0.02)
    ob.fp("film", case["seed"])


def k_filmmatrix(case, ob, rng):
    from rayflare import textures as tx
    from rayflare.ray_tracing.rt import RT
    from rayflare.structure import RTgroup
    from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
    from solcore.structure import Layer
    wls = wavelengths(rng, int(rng.integers(2, 6)))
    film, d = coded_film(rng, wls)
    n0, n1 = 1.0, float(rng.uniform(1.0, 3))
    pol = str(rng.choice(["s", "p", "u"]))
    nt = int(rng.integers(2, 5))
    bs, _ = B.bins(nt, np.pi / 2, 1e-6, "sin")
    N = 160 if not case["big"] else 960
    given = rng.permutation(len(wls))
    if rng.random() < 0.3:
        given = np.append(given, given[0])
    o = rt.opts(4, 4, 1, 0.4, 0.5, pol, wls[given], n_theta_bins=nt, phi_symmetry=np.pi / 2, c_azimuth=1e-6, theta_spacing="sin", only_incidence_angle=False, random_ray_angles=False, depth_spacing=1e-9,
                random_ray_position=bool(rng.random() < 0.5))
    o.n_rays = N * nt
    o.lookuptable_angles = 200
    os.makedirs(ob.dir + "/m", exist_ok=True)
    pl = [1] if rng.random() < 0.5 else None
    make_TMM_lookuptable([Layer(d * 1e-9, film)], Mat(n0), Mat(n1), "f", o, ob.dir + "/m", True, None, pl, [1, -1], True)
    for ix in (given, rng.permutation(len(wls))[:int(rng.integers(1, len(wls) + 1))]):
        o.wavelength = wls[ix]
        m = RT(RTgroup(textures=[tx.planar_surface(size=1)]), Mat(n0), Mat(n1), "f", o, ob.dir + "/m", 1, "front", 1, pl, False, save=False, overwrite=True, widths=[d])
        ds, (m, a) = (m[2] if pl else None), m[:2]
        m, a = np.asarray(m.todense()), np.asarray(a.todense())
        for c in range(nt):
            th = bs[c]["th"]
            want = film_answer(film, d, n0, n1, wls, th, pol, ix)
            near = np.max([np.abs(film_answer(film, d, n0, n1, wls, th + s, pol, ix) - want) for s in (-0.008, 0.008)], 0)
            for i in range(len(ix)):
                got = [m[i, :nt, c].sum(), m[i, nt:, c].sum(), a[i, 0, c]]
                for q in range(3):
                    rt.zscore(ob, "film matrix: wavelength's own", float(got[q]), want[i, q], want[i, q] * (1 - want[i, q]), N, "%s of column %d, wavelength %d of %s, %s" % ("RTA"[q], c, i, ix.tolist(), pol), extra=near[i, q] + 1e-4)
                ob.close("power balance", sum(got), 1.0, 1e-6)
                if pl:
                    p = ds["profile"].isel(wl=i, global_index=c)
                    if got[2] * N < 0.5:
                        continue
                    film_profile(ob, np.asarray(p), float(ds["intgr"].isel(wl=i, global_index=c)), film, d, n0, n1, wls[ix[i]], ix[i], th, pol, "column %d, wavelength %d of %s, %s" % (c, i, ix.tolist(), pol), 0.03)
    ob.fp("filmmatrix", case["seed"])


# ---------------------------------------------------------------- chance
def split_structure(rng):
    nl = int(rng.choice([1, 1, 2]))
    specs = tex.repeat(rng, [tex.rand(rng, kinds=("pyr", "inv", "planar", "V", "heights", "rough_planar"), size=1.0, amax=58) for _ in range(nl + 1)])
    for s in specs:
        s["asp"], s["ox"], s["oy"] = 1.0, 0.0, 0.0
    mats = [Mat(float(rng.uniform(1.3, 3.0)), float(10 ** rng.uniform(-4.2, -3.2))) for _ in range(nl)]
    widths = [float(rng.uniform(4, 40)) * 1e-6 for _ in range(nl)]
    return specs, mats, widths, Mat(1.0), Mat(float(rng.uniform(1, 2)))


def exact(rng, ts, mats, widths, inc, last, th, ph, pol, x, y, randomize=False, wl=1e-6):
    """Expected R, T, A per layer for rays at the given positions, and R and T ray by ray."""
    cum = np.cumsum([0] + [w * 1e6 for w in widths])
    S = [tex.ref(t[0], shift=c) for t, c in zip(ts, cum)]
    rays = rr.start(x, y, abs(S[0].zmax + 1e-8), rr.direction(th, ph))
    nks = [inc.nk(wl)[0]] + [m.nk(wl)[0] for m in mats] + [last.nk(wl)[0]]
    al = np.array([0.0] + [4 * np.pi * m.k(wl) / (wl * 1e6) for m in mats] + [0.0])
    e = rr.stack(S, nks, al, [w * 1e6 for w in widths], rays, pol, wmin=1e-4 / len(x), rng=rng, randomize=randomize, cap=6000)
    N = len(x)
    R, T = np.zeros(N), np.zeros(N)
    if e["out"]:
        o = rr.Rays.cat(e["out"])
        up = o.d[:, 2] > 0
        R = np.bincount(o.orig[up], weights=o.w[up], minlength=N) * N
        T = np.bincount(o.orig[~up], weights=o.w[~up], minlength=N) * N
    return e, R, T


def k_sampling(case, ob, rng, pool=False):
    from rayflare.ray_tracing import rt_structure
    specs, mats, widths, inc, last = split_structure(rng)
    ts = tex.many(specs)
    th, ph = float(rng.choice([0, rng.uniform(0, 1.1)])), float(rng.uniform(0, 6.28))
    pol = str(rng.choice(["s", "p", "u"]))
    msg = "%s n %s theta %.3f pol %s" % ([s["kind"] for s in specs], [round(m.n(1e-6), 2) for m in mats], th, pol)
    S0 = tex.ref(ts[0][0])
    lim = ([S0.x0 + 0.02 * S0.Lx, S0.x0 + 0.98 * S0.Lx], [S0.y0 + 0.02 * S0.Ly, S0.y0 + 0.98 * S0.Ly])
    big = 4 if case["big"] else 1
    modes = ["fixed positions", "random positions", "randomised surface"] if not pool else ["worker pool"]
    for mode in modes:
        nw = 2 if pool else 1
        nx, ny, reps = (6, 6, 12 * big) if mode in ("fixed positions", "worker pool") else (22, 22, big)
        o = rt.opts(nx, ny, reps, th, ph, pol, wl=np.array([1e-6, 1.0004e-6])[:nw], xl=lim[0], yl=lim[1], I_thresh=1e-4, random_ray_position=mode == "random positions", randomize_surface=mode == "randomised surface",
                    parallel=pool, n_jobs=2)
        r = rt_structure(ts, mats, widths, inc, last).calculate(o)
        N = nx * ny * reps
        x, y = rt.grid(o)
        g = 20
        if mode == "random positions":
            # the mean over the surface, with its spread between lines and points
            gx, gy = [np.linspace(a, b, g, endpoint=False) + (b - a) * rng.random() / g for a, b in lim]
            X, Y = np.meshgrid(gx, gy, indexing="ij")
            x, y = X.ravel(), Y.ravel()
        e, R, T = exact(rng, ts, mats, widths, inc, last, th, ph, pol, x, y, randomize=mode == "randomised surface")
        want = np.concatenate([[e["R"], e["T"]], e["A"]])
        slack = e["lost"] + e["amb"] + 2e-4 + 1e-4
        pos = np.zeros(len(want))
        if mode == "random positions":
            for q, f in ((0, R), (1, T)):
                f = f.reshape(g, g)
                vx, vy = f.mean(1).var(), f.mean(0).var()
                vxy = max(f.var() - vx - vy, 0)
                pos[q] = vx / nx + vy / ny + vxy / (nx * ny) + f.var() / g ** 2
            pos[2:] = 2 * (pos[0] + pos[1])
        if mode == "randomised surface":
            pos[:] = np.maximum(want * (1 - want), 0.01) / len(x)
        for i in range(nw):
            got = np.concatenate([[float(np.real(r["R"][i])), float(np.real(r["T"][i]))], np.asarray(r["A_per_layer"][i], float)])
            ob.close("power balance", got.sum(), 1.0, 1e-6 + 1e-4, msg="%s %s" % (mode, msg))
            for q in range(len(want)):
                sd = np.sqrt(max(want[q] * (1 - want[q]), 1e-3) / N + pos[q])
                ob.close(mode, got[q], want[q], 6 * sd + slack, msg="%s: %s" % (["R", "T", "A1", "A2", "A3"][q], msg))
        if 0.02 < want[0] < 0.98:
            ob.fp(mode, case["seed"])


def k_scatter(case, ob, rng):
    """Rays, repetitions, wavelengths and runs are independent of each other: the scatter of results is neither larger nor smaller than that of independent rays."""
    from rayflare.ray_tracing import rt_structure
    from rayflare import textures as tx
    n1 = float(rng.uniform(2, 5))
    th = float(rng.uniform(0, 1.2))
    pol = str(rng.choice(["s", "p", "u"]))
    p = np.mean([ref_tmm.coherent(np.array([1, n1], complex), [], th, 1000, q)["R"] for q in (pol if pol != "u" else "sp")])
    if not 0.05 < p < 0.95:
        n1, th, pol = 6.0, 0.1, "s"
        p = ref_tmm.coherent(np.array([1, n1], complex), [], th, 1000, "s")["R"]
    M, reps = 12, 8
    nx, ny = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    N = nx * ny * reps
    o = rt.opts(nx, ny, reps, th, 0.3, pol, wl=np.linspace(0.8e-6, 1e-6, M))
    st = rt_structure([tx.planar_surface(size=1)], [], [], Mat(1.0), Mat(n1))
    runs = [st.calculate(o) for _ in range(3)]
    R = np.array([np.real(r["R"]) for r in runs])
    up = np.array([[np.cos(np.real(t)) > 0 for t in r["thetas"]] for r in runs]).reshape(3, M, -1)
    msg = "%d x %d points, %d repetitions, %d wavelengths, p = %.3f" % (nx, ny, reps, M, p)
    ob.check("ray count", up.shape[2] == N, "%d rays, expected %d: %s" % (up.shape[2], N, msg))
    df = R.size
    x = float((((R - p) ** 2) * N / (p * (1 - p))).sum())
    ob.check("scatter", 1e-7 < chi2.cdf(x, df) < 1 - 1e-7, "sum of squared deviations %.1f for %d results: %s" % (x, df, msg), n=df)
    # chance is not shared by wavelengths or runs: correlation of outcomes ray by ray
    flat = up.reshape(3 * M, -1).astype(float)
    if N >= 24:
        c = np.corrcoef(flat) if np.all(flat.std(1) > 0) else None
        if c is not None:
            off = c[np.triu_indices(len(c), 1)]
            ob.check("wavelengths independent", off.max() < 7.5 / np.sqrt(N) or off.max() < 0.9, "rays of different wavelengths or runs have the same fate (correlation %.2f): %s" % (off.max(), msg), n=len(off))
    ob.fp("scatter", nx, ny, p)


def k_cut(case, ob, rng):
    """The cut-off decides only about light weaker than itself."""
    from rayflare.ray_tracing import rt_structure
    wls = wavelengths(rng, int(rng.integers(1, 4)))
    specs, mats, widths, inc, last = coded_structure(rng, wls)
    ts = tex.many(specs)
    th = float(rng.uniform(0, 1.0))
    S0 = tex.ref(ts[0][0])
    xl, yl = rt.limits(rng, S0)
    dz = sum(widths) / 50

    def calc(I):
        return rt_structure(ts, mats, widths, inc, last).calculate(rt.opts(4, 4, 1, th, 0.7, wl=wls, xl=xl, yl=yl, I_thresh=I, depth_spacing_bulk=dz))
    a = calc(1e-9)
    I = float(10 ** rng.uniform(-3, -0.7))
    b = calc(I)
    for i in range(len(wls)):
        p, q = outcome(a, i), outcome(b, i)
        msg = "cut-off %.3g, %d layers" % (I, len(widths))
        for k in ("R", "T"):
            ob.between("cut-off", q[k], p[k] - I - 1e-9, p[k] + 1e-9, "%s: %s" % (k, msg))
        ob.check("cut-off", np.all(q["A"] <= p["A"] + I + 1e-9) and np.all(q["A"] >= p["A"] - I - 1e-9), "absorption %s, without cut-off %s: %s" % (q["A"], p["A"], msg))
        lost = 1 - q["R"] - q["T"] - q["A"].sum()
        ob.between("cut-off", lost, -1e-9, I + 1e-9, "power unaccounted for: " + msg)
        gone = np.all(q["rays"][:, :3] == 0, 1)
        ob.check("cut-off", gone.sum() >= np.all(p["rays"][:, :3] == 0, 1).sum(), "fewer rays end in the structure with a higher cut-off: " + msg)
    ob.fp("cut", case["seed"])


def k_numbers(case, ob, rng):
    """Any combination of ray number and points: as many rays as asked for, at least, and results normalised to them."""
    from rayflare.ray_tracing import rt_structure
    specs, mats, widths, inc, last = split_structure(rng)
    ts = tex.many(specs)
    st = rt_structure(ts, mats, widths, inc, last)
    for _ in range(4):
        nx, ny, n = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 60))
        rnd = bool(rng.random() < 0.5)
        o = rt.opts(nx, ny, 1, float(rng.uniform(0, 1)), 0.2, "u", wl=[9e-7, 1e-6], I_thresh=1e-9, random_ray_position=rnd, randomize_surface=bool(rng.random() < 0.5))
        o.n_rays = n
        r = st.calculate(o)
        want = -(-n // (nx * ny)) * nx * ny
        msg = "%d rays on %d x %d points%s" % (n, nx, ny, ", random" if rnd else "")
        ob.check("ray count", np.shape(r["thetas"]) == (2, want) or np.size(r["thetas"]) == 2 * want, "%s rays, expected %d: %s" % (np.shape(r["thetas"]), want, msg))
        ob.close("power balance", np.real(r["R"]) + np.real(r["T"]) + np.sum(r["A_per_layer"], 1), np.ones(2), 1e-7, msg=msg)
        ob.between("power balance", np.concatenate([np.real(r["R"]), np.real(r["T"]), np.ravel(r["A_per_layer"])]), -1e-12, 1 + 1e-9, msg)
        ob.check("ray count", np.all(np.asarray(r["n_passes"]) >= 0) and np.all(np.asarray(r["n_interactions"]) >= 1), "a ray without interactions: " + msg)
    ob.fp("numbers", case["seed"])


def ridges(rng):
    """A surface that is flat along one axis and whose slope says where along the other one it was hit."""
    from rayflare.textures import xyz_texture
    k = int(rng.integers(3, 7))
    Lu, Lv = float(rng.uniform(0.5, 30)), float(rng.uniform(0.5, 30))
    u = np.concatenate([[0], np.cumsum(rng.uniform(0.3, 1.5, k))])
    u = u / u[-1] * Lu
    while True:
        s = np.tan(np.radians(rng.uniform(-12, 12, k - 1)))
        s = np.append(s, -np.sum(s * np.diff(u)[:-1]) / np.diff(u)[-1])
        if np.abs(s[-1]) < np.tan(np.radians(14)) and np.min(np.abs(np.diff(np.sort(np.arctan(s))))) > 0.02:
            break
    z = np.concatenate([[0], np.cumsum(s * np.diff(u))])
    z[-1] = 0.0
    z -= z.max()
    axis = int(rng.integers(2))
    U, V = np.concatenate([u, u]), np.concatenate([np.zeros(k + 1), np.full(k + 1, Lv)])
    off = rng.choice([0.0, 1.0]) * rng.uniform(-20, 20, 2)
    xy = (U, V) if axis == 0 else (V, U)
    t = xyz_texture(xy[0] + off[0], xy[1] + off[1], np.concatenate([z, z]), coverage_height=0)
    return t, u + off[axis], s, axis, off[1 - axis], Lv


def k_positions(case, ob, rng):
    """Where rays start: everywhere within the limits, evenly, and nowhere else."""
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    from rayflare.ray_tracing.rt import RT
    from rayflare.structure import RTgroup
    t, u, s, axis, v0, Lv = ridges(rng)
    Lu = u[-1] - u[0]
    N = 500
    n = float(rng.uniform(1, 3))
    mirror = Mat(n, 1e9)
    normals = np.zeros((len(s), 3))
    normals[:, axis], normals[:, 2] = -s, 1
    normals /= np.linalg.norm(normals, axis=1)[:, None]

    def share(lo, hi):
        f = np.clip(np.minimum(u[1:], hi) - np.maximum(u[:-1], lo), 0, None)
        return f / (hi - lo)

    def judge(oracle, lines, want, n_lines, msg, hard, margin=0):
        got = np.bincount(lines, minlength=len(s)) / len(lines)
        for q in range(len(s)):
            sd = np.sqrt(max(want[q] * (1 - want[q]), 1e-4) / n_lines) if n_lines else 0
            ob.close(oracle, got[q], want[q], 6 * sd + 3 / N + 0.001 + margin, msg="share of rays that hit facet %d (slope %.3f): %s" % (q, s[q], msg))
        if hard:
            ob.check(oracle, not np.any(got[want == 0] > 0), "rays hit a facet outside the limits: shares %s, area %s: %s" % (np.round(got, 4), np.round(want, 4), msg))

    def facet(rows):
        r = np.array([0, 0, -1.0]) - 2 * normals * (-normals[:, 2])[:, None]
        d = np.linalg.norm(rows[:, None, :3] - r[None], axis=2)
        ob.check("fixed positions", np.all(d.min(1) < 1e-5), "a ray is reflected into a direction no facet reflects to: off by %.3g" % d.min(1).max())
        return d.argmin(1)
    for rnd in (False, True):
        for lim in ("default", "given", "randomised"):
            if lim == "randomised" and rnd:
                continue
            o = rt.opts(1, 1, 1, 0.0, 0.0, str(rng.choice(["s", "p", "u"])), wl=[1e-6], random_ray_position=rnd, randomize_surface=lim == "randomised")
            other = int(rng.integers(1, 4))
            o.nx, o.ny = (N, other) if axis == 0 else (other, N)
            o.n_rays = N * other
            msg = "%s positions, %s limits, cell %.2f by %.2f, slopes along %s" % ("random" if rnd else "fixed", lim, *((Lu, Lv) if axis == 0 else (Lv, Lu)), "xy"[axis])
            if lim == "given":
                lo, hi = np.sort(u[0] + Lu * rng.uniform(0.02, 0.98, 2))
                if hi - lo < 0.1 * Lu:
                    lo, hi = u[0] + 0.3 * Lu, u[0] + 0.6 * Lu
                other_lim = sorted(v0 + Lv * rng.uniform(0.05, 0.95, 2))
                o.x_limits, o.y_limits = ([lo, hi], other_lim) if axis == 0 else (other_lim, [lo, hi])
            else:
                lo, hi = u[0], u[-1]
            if lim == "randomised":
                # they all come in at one place, and are spread over the second surface
                o.x_limits, o.y_limits = [0.4, 0.400001], [0.4, 0.400001]
                # several rays from each point are spread independently
                r = rt_structure([tx.planar_surface(size=1), t], [Mat(n)], [1e-5], Mat(n), mirror).calculate(o)
            else:
                r = rt_structure([t], [], [], Mat(n), mirror).calculate(o)
            rows = rt.observed(r, 0)
            judge("randomised surface" if lim == "randomised" else "random positions" if rnd else "fixed positions", facet(rows), share(lo, hi), N if rnd or lim == "randomised" else 0, msg, lim == "given", 0.02 if lim == "default" else 0)
            if lim == "given":
                # the same for matrices: light of one direction only, sorted by where it goes
                nt = int(rng.integers(8, 30))
                o2 = rt.opts(o.nx, o.ny, 1, 0.0, 0.0, "u", wl=[1e-6], random_ray_position=rnd, n_theta_bins=nt, phi_symmetry=2 * np.pi, c_azimuth=1e-6, theta_spacing="linear", only_incidence_angle=True, random_ray_angles=False,
                             depth_spacing=1e-9)
                o2.n_rays = N * other * nt
                full = rng.random() < 0.5
                if not full:
                    o2.x_limits, o2.y_limits = o.x_limits, o.y_limits
                os.makedirs(ob.dir + "/m", exist_ok=True)
                M = np.asarray(RT(RTgroup(textures=[t]), Mat(n), mirror, "ridge", o2, ob.dir + "/m", 0, "front", 0, None, True, save=False, overwrite=True)[0].todense())[0][:, 0]
                bs, edges = B.bins(nt, 2 * np.pi, 1e-6, "linear")
                d = rr.direction(1e-4, 1e-4)
                w = np.diff(u) if full else share(lo, hi)
                w = w * 1.0
                w = w * (normals @ -d) / (normals[:, 2])
                w = w / w.sum()
                out = d[None] - 2 * (normals @ d)[:, None] * normals
                th = np.arccos(out[:, 2])
                slack = 3 / N + 0.002 + (0.02 if full else 2e-4 * Lu / (hi - lo))
                want, fuzzy = np.zeros(nt), np.zeros(nt)
                for q in range(len(s)):
                    j = int(np.clip(np.searchsorted(edges, th[q]) - 1, 0, nt - 1))
                    want[j] += w[q]
                    for e in (j, j + 1):
                        if abs(edges[e] - th[q]) < 1e-6 and 0 < e < nt:
                            fuzzy[[e - 1, e]] += w[q]
                sd = np.sqrt(np.maximum(want * (1 - want), 1e-4) / N) if rnd else 0
                ob.close("matrix: positions", M[:nt], want, 6 * sd + slack + fuzzy, msg="%s, %s limits, %d bins" % (msg, "default" if full else "given", nt))
    ob.fp("positions", case["seed"])
