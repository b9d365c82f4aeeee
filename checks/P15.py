"""P15 thin-film interfaces in ray tracing."""
import numpy as np
from rfv import ref_rt as rr, ref_tmm, rtrun as rt, tex
from rfv.mats import Mat, mk, rand_mat

ID = "P15"
TECHNIQUE = "runtime monitor: outcomes of rays at thin-film interfaces judged by an independent thin-film solver and exact ray splitting (binomial tests, pooled chi-square), interface profiles by conservation and shape"
RULE = ("1-3 interfaces carrying 0-3 thin layers each, planar and textured, light from above and below, s/p/u, several wavelengths, absorbing and dispersive films; "
        "non-trivial: at least two of reflection, transmission and film absorption exceed 2 %")
REQUIRED = ["film outcome from above", "film outcome from below", "absorption per film layer", "textured films", "several interfaces", "interface profile integrates", "interface profile shape",
            "interface profile non-negative", "pooled chi-square", "wavelengths"]


def cases(rng, tier):
    n = 63 if tier == "quick" else 3000
    kinds = ["plane", "below", "textured", "stack", "profile", "profile", "grazing"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=2 if kinds[i % len(kinds)] in ("textured", "stack") else 1, big=tier != "quick") for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


def film(rng, nl=None, strong=False):
    nl = nl or int(rng.integers(1, 4))
    return dict(mats=[[float(rng.uniform(1.2, 3)), float(10 ** rng.uniform(-2 if strong else -3.5, 0)) if rng.random() < 0.85 else 0.0, float(rng.choice([0, 0.2])), float(rng.choice([0, 1]))]
                      for _ in range(nl)], ds=[float(np.round(10 ** rng.uniform(0.7, 2.4), 2)) for _ in range(nl)])


def sampled(ds, dz):
    """Widths which the unit conversions do not push over the edge of a whole number of steps."""
    out = []
    for d in ds:
        while len({len(np.arange(0, x, dz)) for x in (d, d * 1e-9 * 1e9, d * (1 + 1e-12), d * (1 - 1e-12))}) > 1 and d != round(d / dz) * dz:
            d += 0.01
        if len({len(np.arange(0, x, dz)) for x in (d, d * 1e-9 * 1e9)}) > 1:
            d += 0.01
        out.append(float(d))
    return out


def layers(f):
    from solcore.structure import Layer
    return [Layer(d * 1e-9, mk(m)) for d, m in zip(f["ds"], f["mats"])]


GRID = np.linspace(0, np.pi / 2 - 1e-3, 300)


def tir(ns, th):
    """Beyond the critical angle of a lossless substrate Solcore (which fills the lookup tables) follows the growing wave: known finding of P02,
    modelled here because this property is about what ray tracing does with the tables."""
    return bool(ns[-1].imag == 0 and np.real(ns[0]) * np.sin(th) > ns[-1].real)


def table(f, up, dn, wl, pol):
    """Reflection, transmission and absorption per layer (front labels) over the local angle, from above (1) and below (-1)."""
    out = {}
    for side in (1, -1):
        ns = [up.nk(wl)[0]] + [mk(m).nk(wl)[0] for m in f["mats"]] + [dn.nk(wl)[0]]
        ds = list(f["ds"])
        if side == -1:
            ns, ds = ns[::-1], ds[::-1]
        ns[0] = ns[0].real
        rows = []
        for th in GRID:
            x = ref_tmm.coherent(ns, ds, th, wl * 1e9, pol, flip_last=tir(ns, th))
            A = x["A_layers"] if side == 1 else x["A_layers"][::-1]
            rows.append(np.concatenate([[x["R"], x["T"]], A]))
        out[side] = np.array(rows)
    return out


def lookup(tab, nf):
    def g(th, side):
        k = np.clip(np.rint(np.asarray(th) / (GRID[1] - GRID[0])).astype(int), 0, len(GRID) - 1)
        v = np.where((np.asarray(side) > 0)[:, None], tab[1][k], tab[-1][k])
        return v[:, 0], v[:, 1], v[:, 2:]
    return g


def spread(tab, th, side, dth=0.006):
    """Change of the film's response over the resolution of a lookup table."""
    m = np.abs(GRID - th) <= dth
    v = tab[side][m]
    return np.ptp(v, axis=0)


def structure(ob, ts, mats, widths, inc, trn, o):
    from rayflare.ray_tracing import rt_structure
    o.lookuptable_angles = len(GRID)
    return rt_structure(ts, mats, widths, inc, trn, options=o, use_TMM=True, save_location=ob.dir)


def note(ob, obs, p, N):
    if N * p * (1 - p) > 30:
        ob.notes.append(float((obs - p) / np.sqrt(p * (1 - p) / N)))


def k_plane(case, ob, rng, below=False):
    from rayflare import textures as tx
    f = film(rng)
    nf = len(f["ds"])
    inc = Mat(float(rng.choice([1, 1, 1.5, 2.2])))
    trn = mk(rand_mat(rng, kmax=1.0, kzero=0.5)) if not below else Mat(float(rng.uniform(1.2, 3.6)))
    pol = str(rng.choice(["s", "p", "u"]))
    wls = np.sort(rng.uniform(400, 1500, int(rng.integers(1, 4)))) * 1e-9
    # an angle of the table, so that its resolution plays no part
    th = float(GRID[int(rng.choice([0, rng.integers(1, 240)]))])
    ph = float(rng.uniform(0, 6.28))
    N = 1600 if not case["big"] else 6000
    kw = dict(initial_material=1, initial_direction=-1) if below else {}
    o = rt.opts(4, 4, N // 16, th, ph, pol, wls, **kw)
    t = tx.planar_surface(interface_layers=layers(f), name="film")
    if below:
        st = structure(ob, [t, tx.planar_surface()], [trn], [float(rng.uniform(1, 20)) * 1e-6], inc, trn, o)
    else:
        st = structure(ob, [t], [], [], inc, trn, o)
    r = st.calculate(o)
    side = -1 if below else 1
    for i, wl in enumerate(wls):
        tab = table(f, inc, trn, wl, pol)
        k = int(np.argmin(abs(GRID - th)))
        want = tab[side][k]
        slop = 2 * spread(tab, th, side, 1e-4).max() + 1e-6
        msg = "film %s nm of n %s %s, n %.2f/%s theta %.4f pol %s wl %.1f nm" % (f["ds"], [m[:2] for m in f["mats"]], "from below" if below else "from above", inc.n(wl), trn.name, th, pol, wl * 1e9)
        R, T = float(np.real(r["R"][i])), float(np.real(r["T"][i]))
        if below:
            R, T = T, R        # reflected light leaves downwards
        name = "film outcome from below" if below else "film outcome from above"
        rt.zscore(ob, name, R, want[0], want[0] * (1 - want[0]), N, "R " + msg, extra=slop)
        rt.zscore(ob, name, T, want[1], want[1] * (1 - want[1]), N, "T " + msg, extra=slop)
        A = np.asarray(r["A_per_interface"][0])[i]
        for j in range(nf):
            tot = want[2:].sum()
            # absorbed rays are shared out in proportion: the variance is at most that of the total
            v = tot * (1 - tot) * (want[2 + j] / max(tot, 1e-12)) ** 2
            rt.zscore(ob, "absorption per film layer", float(A[j]), want[2 + j], v, N, "layer %d %s" % (j + 1, msg), extra=slop + (1.5 / N) * 0)
        note(ob, R, want[0], N)
        note(ob, float(A.sum()), want[2:].sum(), N)
        if sum(v > 0.02 for v in (want[0], want[1], want[2:].sum())) >= 2:
            ob.fp(msg)
        # directions: reflected or refracted
        got = rt.observed(r, i)
        alive = np.abs(got[:, :3]).max(1) > 1e-9
        from checks import P12
        a, b = P12.snell(trn if below else inc, inc if below else trn, th, ph, wl)
        if below:
            a, b = a * [1, 1, -1], b * [1, 1, -1]
        ok = (np.abs(got[:, :3] - a).max(1) < 1e-6) | (np.abs(got[:, :3] - b).max(1) < (1e-6 if trn.k(wl) < 1e-3 else 2))
        ob.check(name, np.all(ok | ~alive), "%s: %d rays leave in a direction neither reflected nor refracted" % (msg, (~ok & alive).sum()), n=len(got))
    if len(wls) > 1:
        ob.check("wavelengths", True, n=len(wls))


def k_below(case, ob, rng):
    k_plane(case, ob, rng, below=True)


def k_textured(case, ob, rng):
    f = film(rng)
    nf = len(f["ds"])
    s = tex.rand(rng, kinds=["pyr", "inv", "V", "rough_pyr", "hemi", "xyz"], amax=60)
    t = tex.make(s, interface_layers=layers(f), name="film")
    inc, trn = Mat(float(rng.choice([1, 1.5]))), Mat(float(rng.uniform(1.7, 3.6)))
    pol = str(rng.choice(["s", "p", "u"]))
    th, ph = float(rng.choice([0, rng.uniform(0, 1.2)])), float(rng.uniform(0, 6.28))
    cell = bool(rng.random() < 0.3)      # one unit cell on its own
    S = tex.ref(t[0], periodic=not cell)
    xl, yl = rt.limits(rng, S)
    wl = 0.8e-6
    reps = 100
    o = rt.opts(3, 3, reps, th, ph, pol, [wl], xl=xl, yl=yl, **(dict(periodic=0) if cell else {}))
    r = structure(ob, [t], [], [], inc, trn, o).calculate(o)
    tab = table(f, inc, trn, wl, pol)
    x, y = rt.grid(o)
    rays = rr.start(x, y, abs(S.zmax + 1e-8), rr.direction(th, ph))
    out, ab, lost = rr.interface(S, rays, inc.n(wl), trn.n(wl), pol, 1e-7, film=lookup(tab, nf))
    slack = len(set(out.orig[out.amb])) / len(x) + lost
    if slack > 0.3:
        return
    N = len(x) * reps
    A = np.zeros(nf)
    for a in ab:
        A += a[0]
    up = out.w[out.d[:, 2] > 0].sum()
    msg = "%s%s with film %s, theta %.3f pol %s" % ("single cell of " if cell else "", s, f, th, pol)
    if cell:
        ob.event("films on a single cell")
    ex = slack + 0.004
    rt.zscore(ob, "textured films", float(np.real(r["R"][0])), up, up * (1 - up), N, "R " + msg, extra=ex)
    rt.zscore(ob, "textured films", float(np.real(r["T"][0])), 1 - up - A.sum(), max((1 - up - A.sum()) * (up + A.sum()), 0), N, "T " + msg, extra=ex)
    for j in range(nf):
        rt.zscore(ob, "absorption per film layer", float(np.asarray(r["A_per_interface"][0])[0, j]), A[j], A[j] * (1 - A[j]), N, "layer %d %s" % (j + 1, msg), extra=ex)
    if sum(v > 0.02 for v in (up, A.sum(), 1 - up - A.sum())) >= 2:
        ob.fp("textured", case["seed"])


def k_stack(case, ob, rng):
    """Several interfaces, films on some of them."""
    from rayflare import textures as tx
    nl = int(rng.integers(1, 3))
    fs = [film(rng) if (i == 0 or rng.random() < 0.75) else None for i in range(nl + 1)]
    textured = rng.random() < 0.5
    ts, S = [], []
    widths = [float(rng.uniform(5, 60)) for _ in range(nl)]
    cum = np.cumsum([0] + widths)
    specs = []
    for i, f in enumerate(fs):
        kw = dict(interface_layers=layers(f), name="f") if f else {}
        if textured:
            s = tex.rand(rng, size=1.0, kinds=["pyr", "inv", "planar", "V"], amax=55)
            specs.append(s["kind"])
            t = tex.make(s, **kw)
        else:
            t = tx.planar_surface(**kw)
        ts.append(t)
        S.append(tex.ref(t[0], shift=cum[i]))
    wl = 0.9e-6
    mats = [Mat(float(rng.uniform(1.5, 3.2)), float(rng.choice([0, 10 ** rng.uniform(-5, -3.5)]))) for _ in range(nl)]
    inc, trn = Mat(1.0), Mat(float(rng.uniform(1.0, 2.5)))
    pol = str(rng.choice(["s", "p", "u"]))
    th, ph = float(rng.choice([0, rng.uniform(0, 1.0)])), float(rng.uniform(0, 6.28))
    reps = 60
    xl, yl = rt.limits(rng, S[0])
    o = rt.opts(3, 3, reps, th, ph, pol, [wl], xl=xl, yl=yl, I_thresh=1e-3)
    r = structure(ob, ts, mats, [w * 1e-6 for w in widths], inc, trn, o).calculate(o)
    allm = [inc] + mats + [trn]
    films = [lookup(table(f, allm[i], allm[i + 1], wl, pol), len(f["ds"])) if f else None for i, f in enumerate(fs)]
    x, y = rt.grid(o)
    rays = rr.start(x, y, abs(S[0].zmax + 1e-8), rr.direction(th, ph))
    nks = [m.nk(wl)[0] for m in allm]
    al = np.array([0] + [4 * np.pi * m.k(wl) / (wl * 1e6) for m in mats] + [0])
    e = rr.stack(S, nks, al, widths, rays, pol, wmin=2e-5, rng=rng, films=films, cap=3000)
    N = len(x) * reps
    # thinning of the branch tree makes the reference itself statistical: allow for it
    ex = 0.006 + e["lost"] + (0.02 if textured else 0)
    msg = "%d layers %s films %s theta %.3f pol %s" % (nl, specs, [len(f["ds"]) if f else 0 for f in fs], th, pol)
    if e["lost"] > 0.08 or e["amb"] > 0.05:
        return
    rt.zscore(ob, "several interfaces", float(np.real(r["R"][0])), e["R"], e["R"] * (1 - e["R"]), N, "R " + msg, extra=ex)
    rt.zscore(ob, "several interfaces", float(np.real(r["T"][0])), e["T"], e["T"] * (1 - e["T"]), N, "T " + msg, extra=ex)
    for j in range(nl):
        rt.zscore(ob, "several interfaces", float(r["A_per_layer"][0, j]), e["A"][j], e["A"][j] * (1 - min(e["A"][j], 1)), N, "layer %d %s" % (j + 1, msg), extra=ex)
    for i, f in enumerate(fs):
        got = np.asarray(r["A_per_interface"][i])
        if f is None:
            ob.check("several interfaces", got.size == 0 or np.all(got == 0), "absorption at a bare interface")
            continue
        A = np.zeros(len(f["ds"]))
        for a in e["Aint"][i]:
            A += a[0]
        for j in range(len(A)):
            rt.zscore(ob, "several interfaces", float(got[0, j]), A[j], A[j] * (1 - min(A[j], 1)), N, "film layer %d of interface %d: %s" % (j + 1, i, msg), extra=ex)
    ob.fp("stack", nl, textured, case["seed"])


def k_grazing(case, ob, rng):
    """Rays absorbed at an angle beyond the last one of the lookup table."""
    k_profile(case, ob, rng, grazing=True)


def k_profile(case, ob, rng, grazing=False):
    from rayflare import textures as tx
    f = film(rng, strong=True)
    if grazing:
        f["mats"][0] = [1.0, float(10 ** rng.uniform(-3, -1.5)), 0.0, 0.0]     # light enters the film although it grazes it
    nf = len(f["ds"])
    prof = sorted(int(v) for v in rng.choice(np.arange(1, nf + 1), int(rng.integers(1, nf + 1)), replace=False))
    dz = float(rng.choice([1.0, 0.5, rng.uniform(0.3, 2)]))
    f["ds"] = sampled(f["ds"], dz)
    inc, trn = Mat(1.0), Mat(float(rng.uniform(1.5, 3.5)))
    pol = str(rng.choice(["s", "p", "u"]))
    wls = np.sort(rng.uniform(400, 1200, int(rng.integers(1, 3)))) * 1e-9
    th, ph = float(rng.choice([0, rng.uniform(0, 1.2)])), float(rng.uniform(0, 6.28))
    if grazing:
        th = float(rng.uniform(np.pi / 2 - 9e-4, np.pi / 2 - 1e-5))      # grazing, beyond the last angle of the table
    below = bool(rng.random() < 0.4) and not grazing
    textured = bool(rng.random() < 0.35) and not grazing
    kw = dict(interface_layers=layers(f), name="film", prof_layers=prof)
    t = tex.make(tex.rand(rng, size=1.0, kinds=["pyr", "inv", "V"], amax=60), **kw) if textured else tx.planar_surface(**kw)
    okw = dict(initial_material=1, initial_direction=-1) if below else {}
    o = rt.opts(4, 4, 25, th, ph, pol, wls, depth_spacing=dz * 1e-9, **okw)
    if below:
        st = structure(ob, [t, tx.planar_surface()], [trn], [9e-6], inc, trn, o)
    else:
        st = structure(ob, [t], [], [], inc, trn, o)
    r = st.calculate(o)
    P = np.asarray(r["interface_profiles"][0])
    A = np.asarray(r["A_per_interface"][0])
    npts = [len(np.arange(0, d, dz)) for d in f["ds"]]
    msg = "film %s nm n %s, layers %s, step %.2f nm, theta %.3f pol %s %s%s" % (f["ds"], [np.round(m[:2], 3).tolist() for m in f["mats"]], prof, dz, th, pol, "from below " if below else "", "textured" if textured else "")
    ob.check("interface profile integrates", P.shape == (len(wls), sum(npts[l - 1] for l in prof)), "shape %s, expected %s points: %s" % (P.shape, [npts[l - 1] for l in prof], msg))
    ob.between("interface profile non-negative", P, -1e-12, np.inf, msg)
    for i, wl in enumerate(wls):
        want = A[i, [l - 1 for l in prof]].sum()
        if A[i].sum() * 400 < (5 if th < 1.5 else 0.5):
            continue
        if th > 1.5:
            ob.event("profiles of grazing rays")
        # the depths of the requested layers follow each other
        seg, k = [], 0
        for l in prof:
            seg.append(P[i, k:k + npts[l - 1]])
            k += npts[l - 1]
        got = [np.trapezoid(s, dx=dz) for s in seg]
        small = dz / min(f["ds"][l - 1] for l in prof)
        # samples end up to one step before the layer does; the joint between layers may count as an interval
        ob.close("interface profile integrates", sum(got), want, 1e-9 + want * 0.002, 2.2 * small * (1 if len(prof) > 1 else 0.02) + (0.03 if textured else 0), msg=msg)
        for s, l, g in zip(seg, prof, got):
            if len(s) > 3:
                ob.close("interface profile integrates", g, A[i, l - 1], 1e-6 + 0.003 * want, 3 * small + (0.02 if textured else 0), msg="layer %d of %s" % (l, msg))
        if textured:
            continue
        ns = [inc.nk(wl)[0]] + [mk(m).nk(wl)[0] for m in f["mats"]] + [trn.nk(wl)[0]]
        ds = list(f["ds"])
        if below:
            ns, ds = ns[::-1], ds[::-1]
        cs = [ref_tmm.Coherent(ns, ds, th, wl * 1e9, q, flip_last=tir(ns, th)) for q in (("s", "p") if pol == "u" else (pol,))]
        dens = []
        for l in prof:
            z = np.arange(npts[l - 1]) * dz
            L = l if not below else nf + 1 - l
            zz = z if not below else f["ds"][l - 1] - z
            dens.append(np.mean([c.absorption_density(L, zz) for c in cs], axis=0))
        dens = np.concatenate(dens)
        atot = sum(np.mean([c.A_layers for c in cs], axis=0))
        dens = dens / atot * A[i].sum()
        grad = max(np.abs(np.diff(dens)).max() if len(dens) > 1 else 0, 1e-12)
        ob.close("interface profile shape", P[i], dens, 0.02 * dens.max() + 2.5 * np.max([np.abs(np.diff(d)).max() if len(d) > 1 else 0 for d in np.split(dens, np.cumsum([npts[l - 1] for l in prof])[:-1])]) + (0.1 * dens.max() if th > 1.5 else 0),
                 3 * small, msg=msg)
    ob.fp("profile", prof, below, textured, case["seed"])


def finish(results, ob):
    from checks import P12
    P12.finish(results, ob)
