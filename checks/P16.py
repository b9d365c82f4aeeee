"""P16 redistribution matrices from ray tracing."""
import os
import numpy as np
from scipy.stats import poisson
from rfv import bins as B, ref_rt as rr, ref_tmm, rtrun as rt, tex
from rfv.mats import Mat, mk, rand_mat
from checks import P15

ID = "P16"
CASE_LIMIT = 150
TECHNIQUE = "runtime monitor: every column of every redistribution matrix judged by an exact branching tracer over the same facets (membership of bins, frequencies, film absorption), and conservation of every column"
RULE = ("random textures of every generator, both sides, bare and film-coated, deterministic media (each column compared exactly) and splitting media (z-test per bin), "
        "bin settings, symmetry angles, ray numbers below and above one per bin, fixed incidence; non-trivial: light leaves in at least two bins of a column")
REQUIRED = ["columns sum to one", "unlit columns are zero", "non-negative", "deterministic column", "reachable bins", "bin frequency", "totals", "film absorption", "single incidence", "stored = returned",
            "profile integral", "profile shape", "wavelengths"]


def cases(rng, tier):
    n = 114 if tier == "quick" else 6000
    kinds = ["exact", "split", "film", "single", "balance", "profile"] * 3 + ["shares"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=dict(shares=9, film=3, split=3).get(kinds[i % len(kinds)], 1)) for i in range(n)]


def run(case, ob):
    globals()["k_" + case["kind"]](case, ob, np.random.default_rng(case["seed"]))


def settings(rng, small=False):
    sym = float(rng.choice([np.pi / 4, np.pi / 2, np.pi, 2 * np.pi, np.pi / 3]))
    n = int(rng.integers(2, 4 if small else 7))
    c = float(rng.choice([0.1, 0.25, 0.5] if not small else [0.1, 0.3]))
    sp = str(rng.choice(["sin", "sin", "linear"]))
    bs, edges = B.bins(n, sym, c, sp)
    return dict(n_theta_bins=n, phi_symmetry=sym, c_azimuth=c, theta_spacing=sp), bs, edges


def candidates(bs, edges, d, sym, eps=2e-6):
    """(rays, candidates) bin numbers; repeated where unambiguous."""
    lab = np.array([b["j"] for b in bs])
    first = np.array([int(np.argmax(lab == j)) for j in range(len(edges) - 1)])
    num = np.array([int((lab == j).sum()) for j in range(len(edges) - 1)])
    th, ph = np.arccos(np.clip(d[:, 2], -1, 1)), np.arctan2(d[:, 1], d[:, 0])
    cols = []
    pole = np.hypot(d[:, 0], d[:, 1]) < 1e-4
    for dt in (-eps, eps):
        t = np.clip(th + dt, 1e-9, np.pi - 1e-9)
        # a direction stays in its hemisphere
        t = np.where(d[:, 2] > 0, np.minimum(t, np.pi / 2 - 1e-9), np.maximum(t, np.pi / 2 + 1e-9))
        j = np.clip(np.searchsorted(edges, t) - 1, 0, len(edges) - 2)
        for dp in (-eps, eps):
            p = np.mod(ph + dp / np.maximum(np.hypot(d[:, 0], d[:, 1]), 1e-3), sym)
            k = np.minimum((p / sym * num[j]).astype(int), num[j] - 1)
            cols.append(first[j] + k)
        for extra in range(int(num.max()) if pole.any() else 0):
            cols.append(np.where(pole, first[j] + np.minimum(extra, num[j] - 1), cols[-1]))
    return np.stack(cols, 1)


def bounds(bs, edges, out, sym, ncol, P):
    """Lower and upper bound of the expected column entries (2n, ncol): ambiguous directions count only in the upper one."""
    lo, hi = np.zeros((len(bs), ncol)), np.zeros((len(bs), ncol))
    cand = candidates(bs, edges, out.d, sym)
    col = out.orig // P
    sure = np.all(cand == cand[:, :1], axis=1)
    w = out.w
    np.add.at(lo, (cand[sure, 0], col[sure]), w[sure])
    for i in np.nonzero(~sure)[0]:
        for b in set(cand[i]):
            hi[b, col[i]] += w[i]
    return lo, lo + hi


def options(rng, st, wls, pol, nx, ny, n_ang, ob, **kw):
    o = rt.opts(nx, ny, 1, 0.0, 0.0, pol, wls)
    o.n_rays = n_ang * nx * ny
    for k, v in dict(st, only_incidence_angle=False, random_ray_angles=False, depth_spacing=1e-9, **kw).items():
        o[k] = v
    return o


def build(o, t, inc, trn, side, ob, name="surf", films=None, prof=None, single=False, save=True):
    from rayflare.ray_tracing.rt import RT
    from rayflare.structure import RTgroup
    path = os.path.join(ob.dir, "m")
    os.makedirs(path, exist_ok=True)
    kw = {}
    if films:
        from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
        o.lookuptable_angles = len(P15.GRID)
        make_TMM_lookuptable(P15.layers(films), inc, trn, name, o, path, True, None, prof, [1, -1], True)
        kw = dict(widths=list(films["ds"]))
    r = RT(RTgroup(textures=[t]), inc, trn, name, o, path, 1 if films else 0, side, len(films["ds"]) if films else 0, prof, single, save=save, overwrite=True, **kw)
    if save:
        from sparse import load_npz
        for i, f in enumerate(("RT", "A")):
            a, b = r[i].todense(), load_npz(os.path.join(path, name + side + f + ".npz")).todense()
            ob.check("stored = returned", a.shape == b.shape and np.array_equal(a, b), "stored %s matrix" % f)
    return r


def rays_for(S, o, dirs, side, zref):
    """One ray per (direction, position); the light comes from the given direction."""
    x, y = rt.grid(o)
    P = len(x)
    th, ph = np.repeat([d[0] for d in dirs], P), np.repeat([d[1] for d in dirs], P)
    d = -rt.vecs(th, ph)
    r = np.stack([np.tile(x, len(dirs)), np.tile(y, len(dirs)), np.full(P * len(dirs), zref)], 1)
    z = S.zmax + 1e-6 if side == "front" else S.zmin - 1e-6
    r = r + d * ((z - r[:, 2]) / d[:, 2])[:, None]
    n = len(r)
    return rr.Rays(r=r, d=d, w=np.full(n, 1.0 / P), orig=np.arange(n), amb=np.zeros(n, bool), nint=np.zeros(n, int), npass=np.zeros(n, int),
                   inmat=np.full(n, 0 if side == "front" else 1), q=np.ones(n)), P


def zrefs(t):
    """Height, in coordinates of the front surface, of the plane z = 0 of the surface seen from either side."""
    zf, zr = np.asarray(t[0].Points)[:, 2], np.asarray(t[1].Points)[:, 2]
    return 0.0, float(zf.max() + zr.min())


def surface(rng, amax=65, kinds=("pyr", "inv", "V", "planar", "rough_pyr", "rough_planar", "hemi", "xyz", "heights"), **kw):
    s = tex.rand(rng, kinds=kinds, amax=amax)
    return s, tex.make(s, **kw)


def config(rng, ob, nang=None, small=False, wls=(1e-6,), pol=None, **kw):
    st, bs, edges = settings(rng, small)
    n = len(bs) // 2
    side = str(rng.choice(["front", "rear"]))
    nx, ny = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    o = options(rng, st, wls, pol or str(rng.choice(["s", "p", "u"])), nx, ny, nang or n, ob, **kw)
    return o, st, bs, edges, n, side


WMIN = 1e-5                # weight below which the reference does not follow a branch


def column_dirs(bs, n, side):
    return [(b["th"], b["ph"]) for b in (bs[:n] if side == "front" else bs[n:])]


def limits(rng, t, o):
    S = tex.ref(t[0])
    xl, yl = rt.limits(rng, S)
    o.x_limits, o.y_limits = list(xl), list(yl)
    return S


def balance(ob, M, A, lit, msg):
    M, A = np.asarray(M), np.asarray(A)
    ob.finite("non-negative", M, msg)
    ob.finite("non-negative", A, msg)
    ob.between("non-negative", M, 0, 1 + 1e-12, msg)
    ob.between("non-negative", A, 0, 1 + 1e-12, msg)
    s = M.sum(-2) + A.sum(-2)
    for w in range(len(s)):
        if lit is None:
            ob.check("columns sum to one", np.all((np.abs(s[w] - 1) < 1e-9) | (s[w] == 0)), "%s: column sums %s" % (msg, np.round(s[w], 6)), n=s.shape[1])
            continue
        ob.close("columns sum to one", s[w][lit], np.ones(int(lit.sum())), 1e-9, msg=msg)
        if (~lit).any():
            ob.check("unlit columns are zero", np.all(s[w][~lit] == 0), "%s: sums %s" % (msg, s[w][~lit]), n=int((~lit).sum()))


def illuminated(ob, M, A, n_ang, n, msg):
    """With fewer rays than columns, one column per incidence direction is filled, the others stay empty."""
    lit = (M[0].sum(0) + A[0].sum(0)) > 0
    ob.check("unlit columns are zero", lit.sum() == min(n_ang, n), "%d columns are filled by %d incidence directions: %s" % (lit.sum(), n_ang, msg))
    return lit


def compare(ob, M, lo, hi, n_rays, slack, name, msg, lit, exact=False):
    """Column entries against [lo, hi]; slack: share of undecidable rays per column."""
    for c in np.nonzero(lit)[0]:
        if slack[c] > 0.4:
            continue
        got = M[:, c]
        N = n_rays[c]
        if exact:
            bad = (got < lo[:, c] - slack[c] - 1e-9) | (got > hi[:, c] + slack[c] + 1e-9)
            k = int(np.argmax(bad))
            ob.check(name, not bad.any(), "%s: column %d bin %d holds %.4f, expected %.4f..%.4f" % (msg, c, k, got[k], lo[k, c], hi[k, c]), n=len(got))
        else:
            stray = got[hi[:, c] == 0].sum()
            few = poisson.isf(1e-8, slack[c] * N) if slack[c] > 0 else 0          # rays which took a branch the reference did not follow
            ob.check("reachable bins", stray <= slack[c] + few / N + 1e-9, "%s: column %d: %.4f of the light is in bins which reflection and refraction cannot reach (%s)"
                     % (msg, c, stray, np.nonzero((hi[:, c] == 0) & (got > 0))[0][:5]), n=len(got))
            for k in np.nonzero((hi[:, c] > 0) | (got > 0))[0]:
                if hi[k, c] == 0:
                    continue
                m = min(max(got[k], lo[k, c]), hi[k, c])
                rt.zscore(ob, name, float(got[k]), float(m), float(m * (1 - min(m, 1))), N, "column %d bin %d: %s" % (c, k, msg), extra=slack[c] + 1e-6)


def slack_of(out, lost_cols, ncol, P):
    s = np.zeros(ncol)
    for o in set(out.orig[out.amb]):
        s[o // P] += 1.0 / P
    return s + lost_cols


def trace(S, o, dirs, side, t, n_up, n_dn, pol, wmin, film=None):
    rays, P = rays_for(S, o, dirs, side, zrefs(t)[0 if side == "front" else 1])
    out, ab, lost = rr.interface(S, rays, n_up, n_dn, pol, wmin / P, film)
    ncol = len(dirs)
    acc = np.bincount(out.orig // P, weights=out.w, minlength=ncol)
    A = np.zeros((len(ab[0][0]) if ab else 0, ncol))
    for a in ab:
        A[:, a[3] // P] += a[0]
    miss = np.clip(1 - acc - (A.sum(0) if A.size else 0), 0, 1)
    return out, A, slack_of(out, miss, ncol, P), P, ab


def k_exact(case, ob, rng):
    """Deterministic media: every ray has one fate."""
    s, t = surface(rng, amax=70)
    if rng.random() < 0.25:
        t = [t[1], t[0]]
    o, st, bs, edges, n, side = config(rng, ob)
    n_ang = int(rng.choice([n, n, 2 * n, max(1, n - int(rng.integers(1, n + 1))), n + 1]))
    o.n_rays = n_ang * o.nx * o.ny
    S = limits(rng, t, o)
    n0 = float(rng.uniform(1, 2.5))
    if rng.random() < 0.6:
        a, b = (Mat(n0), Mat(1.3, 1e9))
    else:
        a, b = (Mat(n0), Mat(n0))
    inc, trn = (a, b) if side == "front" else (b, a)
    M, A = build(o, t, inc, trn, side, ob)
    M, A = M.todense(), A.todense()
    msg = "%s %s %s n %s/%s, %d rays for %d columns" % (s, side, st, inc.name, trn.name, n_ang, n)
    lit = illuminated(ob, M, A, n_ang, n, msg)
    ob.check("columns sum to one", M.shape == (1, 2 * n, n) and A.shape == (1, 0, n), "shapes %s %s" % (M.shape, A.shape))
    balance(ob, M, A, lit, msg)
    out, _, slack, P, _ = trace(S, o, column_dirs(bs, n, side), side, t, inc.nk(1e-6)[0], trn.nk(1e-6)[0], o.pol, 1e-9)
    lo, hi = bounds(bs, edges, out, st["phi_symmetry"], n, P)
    compare(ob, M[0], lo, hi, np.ones(n), slack, "deterministic column", msg, lit, exact=True)
    if (M[0] > 0).sum(0).max() > 1:
        ob.fp("exact", case["seed"])


def k_split(case, ob, rng):
    s, t = surface(rng)
    nreps = int(rng.integers(8, 16))
    wls = np.sort(rng.uniform(500, 1500, int(rng.integers(1, 3)))) * 1e-9
    o, st, bs, edges, n, side = config(rng, ob, small=True, wls=wls)
    o.nx = o.ny = 3
    o.n_rays = n * nreps * 9
    S = limits(rng, t, o)
    inc = Mat(float(rng.uniform(1, 3)), 0, float(rng.choice([0, 0.5])))
    trn = Mat(float(rng.uniform(1, 3.6)), float(rng.choice([0, 0, 10 ** rng.uniform(-3, 0)])), float(rng.choice([0, -0.5])))
    if rng.random() < 0.3:
        inc, trn = trn, inc
    M, A = build(o, t, inc, trn, side, ob)
    M = M.todense()
    lit = np.ones(n, bool)
    msg = "%s %s %s n %s/%s pol %s" % (s, side, st, inc.name, trn.name, o.pol)
    balance(ob, M, A.todense(), lit, msg)
    for w, wl in enumerate(wls):
        out, _, slack, P, _ = trace(S, o, column_dirs(bs, n, side), side, t, inc.nk(wl)[0], trn.nk(wl)[0], o.pol, WMIN)
        lo, hi = bounds(bs, edges, out, st["phi_symmetry"], n, P)
        compare(ob, M[w], lo, hi, np.full(n, nreps * P), slack, "bin frequency", msg, lit)
        ok = slack < 0.4
        if ok.any():
            r, e = M[w][:n, ok].sum(), lo[:n, ok].sum() + 0.0
            e2 = hi[:n, ok].sum()
            N = ok.sum() * nreps * P
            m = min(max(r, e), e2) / ok.sum()
            rt.zscore(ob, "totals", float(r / ok.sum()), float(m), m * (1 - min(m, 1)), N, "light sent upwards: " + msg, extra=slack[ok].mean())
    if len(wls) > 1:
        ob.check("wavelengths", True, n=len(wls))
    ob.fp("split", case["seed"])


def k_shares(case, ob, rng):
    """Films in which the share of a layer depends strongly on the local angle."""
    for _ in range(60):
        f = dict(mats=[[float(rng.uniform(1.2, 3)), float(10 ** rng.uniform(-2, 0.4)), 0.0, 0.0] for _ in range(2)], ds=[float(np.round(10 ** rng.uniform(0.8, 2.6), 2)) for _ in range(2)])
        inc, trn = Mat(float(rng.choice([2, 3.5]))), Mat(float(rng.uniform(1.1, 3.6)))
        pol = str(rng.choice(["s", "p"]))
        k = [int(np.argmin(abs(P15.GRID - a))) for a in (0.2, 1.15)]
        ns = [inc.nk(1e-6)[0]] + [mk(m).nk(1e-6)[0] for m in f["mats"]] + [trn.nk(1e-6)[0]]
        A = np.array([ref_tmm.coherent(ns, f["ds"], P15.GRID[i], 1000.0, pol, flip_last=P15.tir(ns, P15.GRID[i]))["A_layers"] for i in k])
        tot = A.sum(1)
        if abs(A.sum(0) - tot.sum() * (tot[:, None] * A).sum(0) / (tot ** 2).sum()).max() > 0.06:
            break
    s = dict(tex.rand(rng, kinds=("V", "pyr")), ang=float(rng.uniform(40, 62)))
    k_film(case, ob, rng, f, s, inc, trn, pol)


def k_film(case, ob, rng, f=None, s=None, inc=None, trn=None, pol=None):
    shares = f is not None
    f = f or P15.film(rng)
    nf = len(f["ds"])
    if s is None:
        s, t = surface(rng, kinds=("pyr", "inv", "V", "planar", "xyz", "hemi"), amax=60)
    else:
        t = tex.make(s)
    wls = np.sort(rng.uniform(500, 1200, int(rng.integers(1, 3)))) * 1e-9
    o, st, bs, edges, n, side = config(rng, ob, small=True, wls=wls)
    o.nx = o.ny = 3
    nreps = int(rng.integers(8, 16))
    if shares:
        wls, o.pol = [1e-6], pol
        o.wavelength = np.array(wls)
        st = dict(n_theta_bins=3, phi_symmetry=2 * np.pi, c_azimuth=0.02, theta_spacing="sin")
        for k, v in st.items():
            o[k] = v
        bs, edges = B.bins(3, 2 * np.pi, 0.02, "sin")
        n, nreps, side = 3, 150, "front"
    o.n_rays = n * nreps * 9
    S = limits(rng, t, o)
    if not shares:
        inc, trn = Mat(float(rng.choice([1, 1.5]))), Mat(float(rng.uniform(1.6, 3.6)))
    M, A = build(o, t, inc, trn, side, ob, films=f)[:2]
    M, A = M.todense(), A.todense()
    lit = np.ones(n, bool)
    msg = "%s %s %s film %s nm n %s on %.2f/%.2f pol %s" % (s, side, st, f["ds"], [np.round(m[:2], 3).tolist() for m in f["mats"]], inc.n(1e-6), trn.n(1e-6), o.pol)
    ob.check("columns sum to one", M.shape == (len(wls), 2 * n, n) and A.shape == (len(wls), nf, n), "shapes %s %s" % (M.shape, A.shape))
    balance(ob, M, A, lit, msg)
    for w, wl in enumerate(wls):
        tab = P15.table(f, inc, trn, wl, o.pol)
        out, Ae, slack, P, ab = trace(S, o, column_dirs(bs, n, side), side, t, inc.nk(wl)[0], trn.nk(wl)[0], o.pol, WMIN, P15.lookup(tab, nf))
        slack = slack + 0.004
        lo, hi = bounds(bs, edges, out, st["phi_symmetry"], n, P)
        compare(ob, M[w], lo, hi, np.full(n, nreps * P), slack, "bin frequency", msg, lit)
        ok = slack < 0.4
        if not ok.any() or not len(Ae):
            continue
        for j in range(nf):
            for c in np.nonzero(ok)[0]:
                e = Ae[j, c]
                rt.zscore(ob, "film absorption", float(A[w, j, c]), e, e * (1 - e), nreps * P, "layer %d column %d of %s" % (j + 1, c, msg), extra=slack[c])
            e = Ae[j, ok].mean()
            rt.zscore(ob, "film absorption", float(A[w, j, ok].mean()), e, e * (1 - e), nreps * P * ok.sum(), "layer %d, mean over the columns, %s" % (j + 1, msg), extra=slack[ok].mean())
    ob.fp("film", case["seed"])


def k_single(case, ob, rng):
    """Only the incidence direction of the options is traced."""
    s, t = surface(rng, amax=65)
    o, st, bs, edges, n, side = config(rng, ob)
    side = "front" if rng.random() < 0.8 else "rear"
    S = limits(rng, t, o)
    n0 = float(rng.uniform(1, 2.5))
    a, b = (Mat(n0), Mat(1.3, 1e9)) if rng.random() < 0.7 else (Mat(n0), Mat(n0))
    inc, trn = (a, b) if side == "front" else (b, a)
    allphi = rng.random() < 0.4
    for _ in range(100):
        th = float(rng.choice([0, rng.uniform(0, 1.5)]))
        ph = float(rng.choice([0, rng.uniform(0, 6.28)]))
        if np.min(np.abs(edges[1:] - th)) > 1e-3:
            break
    o.theta_in, o.phi_in = th, "all" if allphi else ph
    o.n_rays = int(rng.integers(1, 3 * n + 1)) * o.nx * o.ny
    M, A = build(o, t, inc, trn, side, ob, single=True)
    M = M.todense()
    the = max(th, 1e-4)
    if allphi:
        j = int(np.searchsorted(edges, the)) - 1
        dirs = [(b_["th"], b_["ph"]) for b_ in bs[:n] if b_["j"] == j]
        cols = [i for i in range(n) if bs[i]["j"] == j]
        dirs = [(the, d[1]) for d in dirs]
    else:
        phe = ph or 1e-4
        cols = [i for i in B.locate(bs[:n], the, phe, st["phi_symmetry"])]
        dirs = [(the, phe)]
        if len(cols) != 1:
            return
    # columns of the rear matrix are those of the mirrored directions
    msg = "%s %s %s theta %.3f phi %s n %s/%s" % (s, side, st, th, o.phi_in, inc.name, trn.name)
    if side == "rear":
        full = [B.locate(bs, np.pi - d[0], d[1], st["phi_symmetry"]) for d in dirs]
        if any(len(k) != 1 for k in full):
            return
        cols = [k[0] - n for k in full]
        dirs = [(np.pi - d[0], d[1]) for d in dirs]
    lit = np.zeros(n, bool)
    lit[cols] = True
    balance(ob, M, A.todense(), lit, msg)
    ob.check("single incidence", True, n=len(cols))
    out, _, slack, P, _ = trace(S, o, dirs, side, t, inc.nk(1e-6)[0], trn.nk(1e-6)[0], o.pol, 1e-9)
    lo, hi = bounds(bs, edges, out, st["phi_symmetry"], len(dirs), P)
    LO, HI, SL = np.zeros((2 * n, n)), np.zeros((2 * n, n)), np.ones(n)
    LO[:, cols], HI[:, cols], SL[cols] = lo, hi, slack
    compare(ob, M[0], LO, HI, np.ones(n), SL, "single incidence", msg, lit, exact=True)
    ob.fp("single", case["seed"])


def k_balance(case, ob, rng):
    """Conservation over all options, many wavelengths, random positions and angles."""
    f = P15.film(rng) if rng.random() < 0.5 else None
    s, t = surface(rng, amax=75)
    wls = rng.uniform(400, 1500, int(rng.integers(1, 5))) * 1e-9
    if f:
        wls = np.sort(wls)
    o, st, bs, edges, n, side = config(rng, ob, wls=wls)
    o.random_ray_position = bool(rng.random() < 0.5)
    o.random_ray_angles = bool(rng.random() < 0.5)
    n_ang = int(rng.integers(1, 2 * n + 2))
    o.n_rays = n_ang * o.nx * o.ny - int(rng.integers(0, o.nx * o.ny))
    n_ang = int(np.ceil(o.n_rays / (o.nx * o.ny)))
    inc = Mat(float(rng.choice([1, 1.5])))
    trn = mk(rand_mat(rng, kmax=1.0, kzero=0.5, nlo=1.3))
    prof = list(range(1, len(f["ds"]) + 1)) if f and rng.random() < 0.5 else None
    r = build(o, t, inc, trn, side, ob, films=f, prof=prof)
    msg = "%s %s %s film %s n %s/%s" % (s, side, st, f and f["ds"], inc.name, trn.name)
    balance(ob, r[0].todense(), r[1].todense(), None if o.random_ray_angles else illuminated(ob, r[0].todense(), r[1].todense(), n_ang, n, msg), msg)
    if prof:
        p, g = np.asarray(r[2]["profile"].data), np.asarray(r[2]["intgr"].data)
        ob.finite("non-negative", p, "profile " + msg)
        ob.finite("non-negative", g, "intgr " + msg)
        ob.between("non-negative", p, 0, np.inf, "profile " + msg)
        ob.check("profile integral", list(np.asarray(r[2]["profile"].coords["wl"].data).shape) in ([], [len(wls)]) and len(wls) in p.shape + (1,), "profile of all wavelengths: %s" % (p.shape,))
    if len(wls) > 1:
        ob.check("wavelengths", True, n=len(wls))
    ob.fp("balance", case["seed"])


def k_profile(case, ob, rng):
    """Depth profiles of the films behind the matrices."""
    f = P15.film(rng, strong=True)
    f["ds"] = [max(d, 15.0) for d in f["ds"]]
    nf = len(f["ds"])
    prof = sorted(int(v) for v in rng.choice(np.arange(1, nf + 1), int(rng.integers(1, nf + 1)), replace=False))
    dz = float(rng.choice([1.0, 0.5, 0.25]))
    planar = rng.random() < 0.6
    s, t = surface(rng, kinds=("planar",) if planar else ("pyr", "V", "inv"), amax=60)
    wl = float(rng.uniform(450, 1100)) * 1e-9
    o, st, bs, edges, n, side = config(rng, ob, wls=[wl])
    if not planar:           # local angles are binned: many narrow bins, one column each
        st = dict(n_theta_bins=16, phi_symmetry=2 * np.pi, c_azimuth=0.02, theta_spacing="linear")
        for k, v in st.items():
            o[k] = v
        bs, edges = B.bins(16, 2 * np.pi, 0.02, "linear")
        n = len(bs) // 2
    o.depth_spacing = dz * 1e-9
    o.nx = o.ny = 3
    nreps = 6
    o.n_rays = n * nreps * 9
    limits(rng, t, o)
    inc, trn = Mat(float(rng.choice([1, 1.5]))), Mat(float(rng.uniform(1.6, 3.6)))
    M, A, ds = build(o, t, inc, trn, side, ob, films=f, prof=prof)
    A = A.todense()[0]
    msg = "%s %s film %s nm n %s layers %s step %.2f pol %s wl %.0f" % (s["kind"], side, f["ds"], [np.round(m[:2], 3).tolist() for m in f["mats"]], prof, dz, o.pol, wl * 1e9)
    p = ds["profile"].squeeze("wl") if "wl" in ds["profile"].dims else ds["profile"]
    g = np.asarray(ds["intgr"].squeeze("wl") if "wl" in ds["intgr"].dims else ds["intgr"])
    p = np.asarray(p.transpose("global_index", ...).data)
    npts = [len(np.arange(0, d, dz)) for d in f["ds"]]
    want = sum(npts[l - 1] for l in prof)
    if not ob.check("profile integral", p.shape == (n, want) and g.shape == (n,), "shapes %s %s, expected %d columns of %d depths: %s" % (p.shape, g.shape, n, want, msg)):
        return
    dirs = column_dirs(bs, n, side)
    tab = P15.table(f, inc, trn, wl, o.pol)
    sh = tab[1 if side == "front" else -1][:, 2:]
    lit = sh.sum(1) > 1e-9
    vary = np.zeros(nf)
    for e0, e1 in zip(edges[:len(edges) // 2], edges[1:]):
        m = (P15.GRID >= e0 - 0.01) & (P15.GRID <= e1 + 0.01) & lit
        if m.any():
            vary = np.maximum(vary, np.ptp(sh[m] / sh[m].sum(1)[:, None], axis=0))
    for c in range(n):
        if A[:, c].sum() * nreps * 9 < 0.5:
            ob.check("profile integral", np.all(p[c] == 0) or A[:, c].sum() > 0, "profile in column %d although nothing is absorbed: %s" % (c, msg))
            continue
        # the matrix method scales each profile by (absorption / intgr)
        q = p[c] / g[c] * A[:, c].sum()
        k = 0
        for l in prof:
            seg = q[k:k + npts[l - 1]]
            k += npts[l - 1]
            a = np.trapezoid(seg, dx=dz)
            tha = min(dirs[c][0], np.pi - dirs[c][0])
            d = f["ds"][l - 1]
            if planar:
                rest = d - (npts[l - 1] - 1) * dz          # piece of the layer after the last sample
                ob.close("profile integral", a, A[l - 1, c], 1e-6 + (rest * 1.02 + dz * 0.1) * max(seg.max(), 1e-12), 0.01 + P15.spread(tab, tha, 1 if side == "front" else -1)[1 + l] / max(A[l - 1, c], 1e-3), msg="column %d layer %d: %s" % (c, l, msg))
            elif A[:, c].sum() * nreps * 9 > 6:
                # local angles are binned: the share of a layer may change within a bin
                ob.close("profile integral", a, A[l - 1, c], 0.003 + 1.2 * dz * seg.max() + A[:, c].sum() * vary[l - 1], 0.02, msg="column %d layer %d: %s" % (c, l, msg))
        if not planar and len(prof) == nf and A[:, c].sum() * nreps * 9 > 6:
            a = sum(np.trapezoid(v, dx=dz) for v in np.split(q, np.cumsum(npts)[:-1]))
            ob.close("profile integral", a, A[:, c].sum(), 1e-6 + 1.2 * nf * dz * q.max(), 0.02, msg="all layers, column %d: %s" % (c, msg))
        if planar:
            th = min(dirs[c][0], np.pi - dirs[c][0])
            ns = [inc.nk(wl)[0]] + [mk(m).nk(wl)[0] for m in f["mats"]] + [trn.nk(wl)[0]]
            dd = list(f["ds"])
            if side == "rear":
                ns, dd = ns[::-1], dd[::-1]
            flip = P15.tir(ns, th)
            cs = [ref_tmm.Coherent(ns, dd, th, wl * 1e9, pl, flip_last=flip) for pl in (("s", "p") if o.pol == "u" else (o.pol,))]
            dens = []
            for l in prof:
                L = l if side == "front" else nf + 1 - l
                z = np.arange(npts[l - 1]) * dz
                if side == "rear":
                    z = f["ds"][l - 1] - z
                dens.append(np.mean([x.absorption_density(L, z) for x in cs], axis=0))
            grad = max(np.abs(np.diff(x)).max() for x in dens)
            dens = np.concatenate(dens)
            tot = sum(np.mean([x.A_layers for x in cs], axis=0))
            ob.close("profile shape", p[c] / g[c], dens / tot, (0.02 * dens.max() + 1.2 * grad) / tot + dens.max() * P15.spread(tab, th, 1 if side == "front" else -1)[2:].max() / tot ** 2, 0.03, msg="column %d: %s" % (c, msg))
    ob.fp("profile", case["seed"])
