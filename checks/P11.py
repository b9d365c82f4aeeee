"""P11 ray tracing conserves power."""
import numpy as np
from rfv import rtrun as rt, tex
from rfv.mats import Mat, mk, rand_mat

ID = "P11"
TECHNIQUE = "runtime monitor: power-balance invariants (offline conservation checker) over every result of randomly generated ray-traced structures, with poisoned numpy buffers"
RULE = ("random structures of 1-5 textured interfaces (every generator, thin-film interfaces in part), absorbing and non-absorbing media, thicknesses from 0.5 um to 5 mm, "
        "all run-control options; non-trivial: at least two of R, T, bulk and interface absorption exceed 1 %")
REQUIRED = ["power balance", "non-negative", "first-pass reflection", "rays account for R and T", "finite", "thin-film interfaces", "non-absorbing layers"]


def cases(rng, tier):
    n = 240 if tier == "quick" else 12000
    kinds = ["fresnel", "fresnel", "films", "inside", "cell"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=3 if kinds[i % len(kinds)] == "films" else 1) for i in range(n)]


def media(rng, nl, wild=True):
    mats, widths = [], []
    for _ in range(nl):
        n = float(rng.uniform(1.0, 4.0))
        k = 0.0 if rng.random() < 0.3 else float(10 ** rng.uniform(-7, -0.5 if wild else -3))
        mats.append(Mat(n, k, float(rng.choice([0, 0.3])), float(rng.choice([0, 2.0]))))
        widths.append(float(10 ** rng.uniform(-6.3, -2.3)))
    return mats, widths


def run(case, ob):
    from rayflare.ray_tracing import rt_structure
    from solcore.structure import Layer
    rng = np.random.default_rng(case["seed"])
    nl = int(rng.choice([0, 1, 1, 2, 3, 4]))
    kind = case["kind"]
    if kind == "inside":
        nl = max(nl, 1)
    specs = tex.repeat(rng, [tex.rand(rng, size=float(rng.choice([1, 5])) if rng.random() < 0.7 else None) for _ in range(nl + 1)])
    mats, widths = media(rng, nl)
    # facets of neighbouring surfaces must not overlap
    inc = Mat(float(rng.choice([1, 1, 1, 1.5, 2.5])))
    trn = mk(rand_mat(rng, kmax=3.0, kzero=0.5))
    ts, films = [], []
    for i, s in enumerate(specs):
        kw = {}
        if kind == "films" and (rng.random() < 0.7 or i == 0):
            m = int(rng.integers(1, 4))
            kw = dict(interface_layers=[Layer(float(10 ** rng.uniform(-8.3, -6.4)), mk(rand_mat(rng, kmax=1.0, kzero=0.3, nlo=1.1))) for _ in range(m)], name="f%d" % i)
            if rng.random() < 0.4:
                kw["prof_layers"] = list(range(1, m + 1))
        films.append(len(kw.get("interface_layers", [])))
        same = [u for j, u in enumerate(ts) if specs[j] is s and not films[i] and not films[j]]
        t = same[0] if same else tex.make(s, **kw)
        if rng.random() < 0.2 and not kw:
            t = [t[1], t[0]]
        ts.append(t)
    depth = [np.ptp(np.asarray(t[0].Points)[:, 2]) for t in ts]
    for i in range(nl):
        need = (depth[i] + depth[i + 1]) * 1.05e-6
        widths[i] = widths[i] + need
    wl = np.sort(rng.uniform(350, 1600, int(rng.integers(1, 4)))) * 1e-9
    side = rng.spawn(1)[0]
    if side.random() < 0.04:
        wl = np.linspace(350e-9, 1600e-9, int(side.integers(30, 80)))
    th = float(rng.choice([0, rng.uniform(0, 1.2), rng.uniform(1.2, 1.55)]))
    if kind == "films":
        th = min(th, 1.4)
    kw = dict(randomize_surface=bool(rng.random() < 0.3), random_ray_position=bool(rng.random() < 0.3), depth_spacing_bulk=float(max(sum(widths), 1e-6) / rng.integers(20, 400)),
              depth_spacing=5e-9)
    if kind == "cell":
        kw["periodic"] = 0
        kw["randomize_surface"] = False
    if kind == "inside":
        kw["initial_material"] = int(rng.integers(1, nl + 1))
        kw["initial_direction"] = int(rng.choice([1, -1]))
    It = float(rng.choice([0.1, 0.01, 1e-3, 1e-9]))
    nx = int(rng.integers(2, 6))
    o = rt.opts(nx, int(rng.integers(2, 6)), 1, th, float(rng.choice([0, rng.uniform(0, 6.28)])), str(rng.choice(["s", "p", "u"])), wl, I_thresh=It, **kw)
    o.n_rays = int(rng.integers(1, 80))
    if sum(films):
        o.lookuptable_angles = 40
        st = rt_structure(ts, mats, widths, inc, trn, options=o, use_TMM=True, save_location=ob.dir)
    else:
        st = rt_structure(ts, mats, widths, inc, trn)
    r = st.calculate(o)
    msg = "%s %s, k %s, th %.3f, I_thresh %g" % (kind, [s["kind"] for s in specs], ["%.1g" % m.k(1e-6) for m in mats], th, It)
    R, T, A = np.asarray(r["R"]), np.asarray(r["T"]), np.asarray(r["A_per_layer"])
    ob.check("finite", R.shape == T.shape == (len(wl),) and A.shape == (len(wl), nl), "shapes %s %s %s" % (R.shape, T.shape, A.shape))
    Ai = [np.asarray(a) for a in r["A_per_interface"]] if sum(films) else []
    for nm, v in [("R", R), ("T", T), ("A_per_layer", A), ("R0", r["R0"]), ("profile", r["profile"])] + [("A_per_interface", a) for a in Ai]:
        ob.finite("finite", v, nm + " " + msg)
        ob.between("non-negative", v, -1e-12, np.inf, nm + " " + msg)
    tot = R + T + A.sum(1) + sum(a.sum(1) for a in Ai)
    ob.between("power balance", tot, 1 - It * 1.0001 - 1e-9, 1 + 1e-9, "R+T+A " + msg)
    if It <= 1e-3:
        ob.event("balances checked to the cut-off %g" % It)
    ob.between("first-pass reflection", r["R0"], 0, R + 1e-12, "R0 <= R " + msg)
    if nl == 0:
        ob.close("first-pass reflection", r["R0"], R, 1e-9, msg="one interface: all reflection is first-pass reflection " + msg)
    # the rays reported one by one make up the totals
    th_o, npass = np.real(np.asarray(r["thetas"], float)), np.asarray(r["n_passes"])
    N = th_o.shape[1]
    ob.check("rays account for R and T", N == int(np.ceil(o.n_rays / (o.nx * o.ny))) * o.nx * o.ny, "%d rays traced" % N)
    # absorbed rays have no direction; in transparent structures every ray keeps its full weight
    up, dn = th_o <= np.pi / 2, th_o > np.pi / 2
    ob.between("rays account for R and T", R, 0, up.mean(1) + 1e-9, "R against the share of rays going up " + msg)
    ob.between("rays account for R and T", T, 0, dn.mean(1) + 1e-9, "T against the share of rays going down " + msg)
    first = (up & (npass == 0)).mean(1)
    ob.close("first-pass reflection", r["R0"], first, 1e-9, msg="R0 against rays that never entered the structure " + msg)
    clear = np.array([np.all(m.k(wl) == 0) for m in mats] + [True])
    if nl and clear[:-1].any():
        ob.close("non-absorbing layers", A[:, clear[:-1]], np.zeros((len(wl), int(clear[:-1].sum()))), 1e-12, msg="absorption where k = 0 " + msg)
    if clear.all() and not sum(films):
        ob.close("rays account for R and T", R, up.mean(1), 1e-9, msg="transparent: R = share of rays " + msg)
    if sum(films):
        ob.check("thin-film interfaces", [a.shape for a in Ai] == [(len(wl), f) for f in films], "A_per_interface shapes %s for films %s" % ([a.shape for a in Ai], films))
        for i, f in enumerate(films):
            if f == 0:
                ob.check("thin-film interfaces", Ai[i].size == 0, "absorption in a bare interface")
    parts = [R.max(), T.max(), A.max() if A.size else 0, max([a.max() for a in Ai if a.size] or [0])]
    if sum(p > 0.01 for p in parts) >= 2:
        ob.fp(kind, nl, [s["kind"] for s in specs], [round(float(p), 6) for p in parts])
