"""P14 Beer-Lambert absorption in ray-traced bulk layers, and its depth profile."""
import numpy as np
from rfv import ref_rt as rr, rtrun as rt, tex
from rfv.mats import Mat

ID = "P14"
TECHNIQUE = "runtime monitor: absorbed power per layer and depth profile of every run judged against exact ray splitting with Beer-Lambert attenuation (offline oracle), and against each other (conservation)"
RULE = ("1-4 bulk layers 3 um to 5 mm thick, deterministic (index-matched, mirror) and Fresnel-splitting stacks, planar and textured surfaces, dispersive absorption, several wavelengths, "
        "any depth spacing, cut-offs; non-trivial: between 1 % and 99 % absorbed")
REQUIRED = ["absorption per layer", "reflected and transmitted remainder", "profile integrates to absorption", "profile shape", "profile non-negative", "statistical absorption",
            "textured absorption", "cut-off", "spacing independence"]


def cases(rng, tier):
    n = 200 if tier == "quick" else 8000
    kinds = ["planar", "planar", "textured", "fresnel", "inside"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31))) for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


def layers(rng, nl, th, n=None):
    mats, widths = [], []
    for _ in range(nl):
        ni = n or float(rng.uniform(1, 3))
        if rng.random() < 0.15:
            k, w = 0.0, float(10 ** rng.uniform(0.5, 3))
        else:
            k = float(10 ** rng.uniform(-5.5, -3.6))
            aw = float(10 ** rng.uniform(-1.7, 0.8))
            w = float(np.clip(aw / (4 * np.pi * k), 3, 5000))
        mats.append(Mat(ni, k, 0.0, float(rng.choice([0, 1.5]))))
        widths.append(w)                      # um
    return mats, widths


def profile_checks(ob, r, o, widths, logs, wls, msg, tol_extra=0.0, shape=True):
    """widths in um; logs: per wavelength the traversals of the reference, or None."""
    A = np.asarray(r["A_per_layer"])
    P = np.asarray(r["profile"])
    dz = o["depth_spacing_bulk"] * 1e6
    total = np.sum(1e6 * np.array([w * 1e-6 for w in widths]))
    cum = np.cumsum([0] + list(widths))
    if P.shape[1] not in (int(np.ceil(total / dz)) - 1, int(np.ceil(total / dz)), int(np.ceil(total / dz)) + 1):
        ob.check("profile shape", False, "%s: %d depths for a thickness of %g um in steps of %g um" % (msg, P.shape[1], total, dz))
        return
    z = np.arange(P.shape[1]) * dz
    ob.between("profile non-negative", P, 0, np.inf, msg)
    for j, w in enumerate(widths):
        lo, hi = cum[j], cum[j + 1]
        m = (z >= lo) & (z < hi)
        # samples within a rounding error of a layer boundary may be counted on either side
        if m.sum() < 3 or (j > 0 and np.abs(z - lo).min() < 1e-6 * dz) or np.abs(z - hi).min() < 1e-6 * dz:
            continue
        for i in range(len(wls)):
            p = P[i, m] * 1e3           # per um
            ob.close("profile integrates to absorption", np.trapezoid(p, z[m]), A[i, j], 1e-9, 1e-7, msg="layer %d of %d, %s, %d samples" % (j + 1, len(widths), msg, m.sum()))
            if logs is None or not shape:
                continue
            want = np.zeros(m.sum())
            zz = z[m] - lo
            steep = 0.0
            for lay, w0, a, down in logs[i]:
                k = lay == j
                for wi, ai, dn in zip(w0[k], a[k], down[k]):
                    loss = wi * (1 - np.exp(-ai * w))
                    f = np.exp(-ai * (zz if dn else w - zz))
                    t = np.trapezoid(f, zz)
                    want += loss * f / t if t > 0 else 0
                    steep = max(steep, ai * dz)
            if want.max() <= 0:
                ob.close("profile shape", p, np.zeros(len(p)), (1e-9 + tol_extra) / w, msg="non-absorbing layer " + msg)
                continue
            # discretisation may be normalised in other ways: allow for one step and the curvature
            rel = 1.5 * dz / w + steep + 1e-6
            if rel < 0.2:
                ob.close("profile shape", p, want, tol_extra / w + 1e-12 + tol_extra * want.max(), rel, msg="layer %d of %d, %s" % (j + 1, len(widths), msg))


def k_planar(case, ob, rng):
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    nl = int(rng.integers(1, 5))
    th, ph = float(rng.choice([0, rng.uniform(0, 1.2)])), float(rng.uniform(0, 2 * np.pi))
    n = float(rng.uniform(1, 3))
    mats, widths = layers(rng, nl, th, n)
    mirror = bool(rng.random() < 0.6)
    last = Mat(1.3, 1e9) if mirror else Mat(n)
    wls = np.sort(rng.uniform(600, 1400, int(rng.integers(1, 4)))) * 1e-9
    It = float(rng.choice([1e-9, 1e-9, 0.01, 0.1]))
    dz = float(sum(widths) / rng.choice([7, 40, 300, 1500]) * rng.uniform(0.9, 1.1))
    o = rt.opts(3, 3, 1, th, ph, str(rng.choice(["s", "p", "u"])), wls, I_thresh=It, depth_spacing_bulk=dz * 1e-6, randomize_surface=bool(rng.random() < 0.3),
                random_ray_position=bool(rng.random() < 0.3))
    st = rt_structure([tx.planar_surface() for _ in range(nl + 1)], mats, [w * 1e-6 for w in widths], Mat(n), last)
    r = st.calculate(o) if rng.random() < 0.6 else st.calculate_profile(o)
    msg = "k %s widths %s um theta %.3f %s I_thresh %g" % (["%.2g" % m.k(wls)[0] for m in mats], np.round(widths, 1).tolist(), th, "mirror" if mirror else "open", It)
    logs = []
    want_A = np.zeros((len(wls), nl))
    rest = np.zeros(len(wls))
    for i, wl in enumerate(wls):
        log = []
        I = 1.0
        a = np.array([4 * np.pi * m.k(wl) / (wl * 1e6) for m in mats]) / np.cos(th)
        for j, dn in [(j, True) for j in range(nl)] + ([(j, False) for j in range(nl)][::-1] if mirror else []):
            log.append((np.array([j]), np.array([I]), np.array([a[j]]), np.array([dn])))
            I2 = I * np.exp(-a[j] * widths[j])
            want_A[i, j] += I - I2
            I = I2
            if I < It:
                I = 0.0
                break
        rest[i] = I
        logs.append(log)
    A = np.asarray(r["A_per_layer"])
    # residual contrast of the small k reflects less than 1e-6 here
    ob.close("absorption per layer", A, want_A, 2e-5 if It > 1e-3 else 1e-5, msg=msg)
    ob.close("reflected and transmitted remainder", r["R"] if mirror else r["T"], rest, 1e-5, msg=msg)
    if It > 1e-3:
        ob.check("cut-off", True)
    profile_checks(ob, r, o, widths, logs, wls, msg, tol_extra=2e-5)
    if 0.01 < want_A.sum(1).max() < 0.99:
        ob.fp("planar", nl, mirror, case["seed"])
    # another depth spacing changes nothing but the sampling
    if rng.random() < 0.4 and not o["randomize_surface"]:
        o2 = rt.opts(3, 3, 1, th, ph, o["pol"], wls, I_thresh=It, depth_spacing_bulk=dz * 1e-6 * float(rng.uniform(0.3, 3)))
        r2 = st.calculate(o2)
        ob.close("spacing independence", r2["A_per_layer"], A, 2e-5, msg=msg)


def k_textured(case, ob, rng):
    from rayflare.ray_tracing import rt_structure
    from checks import P13
    nl = int(rng.integers(1, 4))
    specs, n, _, _ = P13.build_stack(rng, nl)
    th, ph = P13.incidence(rng, lim=1.2)
    mats, widths = layers(rng, nl, th, n)
    widths = [max(w, 4.0) for w in widths]
    ts = tex.many(specs)
    wl = 1e-6
    last = Mat(1.3, 1e9) if rng.random() < 0.75 else Mat(n)
    S0 = tex.ref(ts[0][0])
    xl, yl = rt.limits(rng, S0)
    dz = sum(widths) / float(rng.choice([60.37, 400.37]))
    # steep paths after many bounces are not comparable ray by ray: keep the number of passes small
    o = rt.opts(4, 4, 1, th, ph, xl=xl, yl=yl, I_thresh=1e-6, depth_spacing_bulk=dz * 1e-6)
    r = rt_structure(ts, mats, [w * 1e-6 for w in widths], Mat(n), last).calculate(o)
    cum = np.cumsum([0] + widths)
    S = [tex.ref(t[0], shift=c) for t, c in zip(ts, cum)]
    x, y = rt.grid(o)
    rays = rr.start(x, y, abs(S[0].zmax + 1e-8), rr.direction(th, ph))
    nks = [n + 0j] + [m.nk(wl)[0] for m in mats] + [last.nk(wl)[0]]
    log = []
    e = rr.stack(S, nks, P13.alphas_of(mats), widths, rays, "u", wmin=1e-5 / len(x), rng=rng, log=log)
    out = rr.Rays.cat(e["out"]) if e["out"] else rays.take(slice(0, 0))
    N = len(x)
    _, slack = P13.decisive(out, N)
    if slack > 3 or e["amb"] > 0.2:
        # rays absorbed completely are decided too
        lost = set(range(N)) - set(out.orig.tolist())
        slack -= len(lost)
        if slack > 3 or slack < 0 or e["amb"] > 0.2:
            ob.event("undecidable textured stacks")
            return
    # far rays: lateral drift errors grow with the distance travelled
    tol = slack / N + e["lost"] + 2e-4
    msg = "%s widths %s um theta %.3f" % ([s["kind"] for s in specs], np.round(widths, 1).tolist(), th)
    for j in range(nl):
        ob.between("textured absorption", r["A_per_layer"][0, j], e["A"][j] - tol, e["A"][j] + tol, "layer %d %s" % (j + 1, msg))
    ob.between("textured absorption", r["R"], e["R"] - tol, e["R"] + tol, "R " + msg)
    profile_checks(ob, r, o, widths, [log], [wl], msg, shape=slack == 0 and sum(len(l[0]) for l in log) < 3000, tol_extra=5e-4)
    if 0.01 < e["A"].sum() < 0.99:
        ob.fp("textured", case["seed"])


def k_fresnel(case, ob, rng):
    """Refracting planar stacks: expectation over all reflections from ray splitting."""
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    nl = int(rng.integers(1, 4))
    th, ph = float(rng.choice([0, rng.uniform(0, 1.2)])), float(rng.uniform(0, 2 * np.pi))
    mats, widths = layers(rng, nl, th)
    inc, last = Mat(1.0), Mat(float(rng.uniform(1, 3)), float(rng.choice([0, 0.5])))
    pol = str(rng.choice(["s", "p", "u"]))
    wls = np.array([1e-6])
    reps = 40
    dz = sum(widths) / 499.63
    o = rt.opts(5, 5, reps, th, ph, pol, wls, I_thresh=1e-4, depth_spacing_bulk=dz * 1e-6)
    st = rt_structure([tx.planar_surface() for _ in range(nl + 1)], mats, [w * 1e-6 for w in widths], inc, last)
    r = st.calculate(o) if rng.random() < 0.6 else st.calculate_profile(o)
    N = 25 * reps
    cum = np.cumsum([0] + widths)
    S = [tex.ref(tx.planar_surface()[0], shift=c) for c in cum]
    rays = rr.start(np.array([0.4321]), np.array([0.2345]), 1e-8, rr.direction(th, ph))
    nks = [m.nk(1e-6)[0] for m in [inc] + mats + [last]]
    log = []
    e = rr.stack(S, nks, np.array([0] + [4 * np.pi * m.k(1e-6) for m in mats] + [0]), widths, rays, pol, wmin=1e-5, rng=rng, log=log)
    msg = "%s widths %s theta %.3f pol %s" % ([m.name for m in mats], np.round(widths, 1).tolist(), th, pol)
    ex = e["lost"] + 2e-4
    for j in range(nl):
        rt.zscore(ob, "statistical absorption", float(r["A_per_layer"][0, j]), e["A"][j], e["A"][j] * (1 - e["A"][j]), N, "layer %d %s" % (j + 1, msg), extra=ex)
    rt.zscore(ob, "statistical absorption", float(r["R"][0]), e["R"], e["R"] * (1 - e["R"]), N, "R " + msg, extra=ex)
    rt.zscore(ob, "statistical absorption", float(r["T"][0]), e["T"], e["T"] * (1 - e["T"]), N, "T " + msg, extra=ex)
    profile_checks(ob, r, o, widths, None, wls, msg)
    if 0.01 < e["A"].sum() < 0.99:
        ob.fp("fresnel", case["seed"])


def k_inside(case, ob, rng):
    """Light generated in a layer: attenuation starts at the next surface."""
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    nl = int(rng.integers(2, 5))
    th = float(rng.choice([0, rng.uniform(0, 1.2)]))
    n = float(rng.uniform(1, 3))
    mats, widths = layers(rng, nl, th, n)
    mat, dirn = int(rng.integers(1, nl + 1)), int(rng.choice([1, -1]))
    o = rt.opts(2, 2, 1, th, 0.3, "u", [1e-6], initial_material=mat, initial_direction=dirn, depth_spacing_bulk=sum(widths) * 1e-6 / 299.63)
    r = rt_structure([tx.planar_surface() for _ in range(nl + 1)], mats, [w * 1e-6 for w in widths], Mat(n), Mat(n)).calculate(o)
    a = np.array([4 * np.pi * m.k(1e-6) for m in mats]) / np.cos(th) * np.array(widths)
    idx = list(range(mat, nl)) if dirn == 1 else list(range(mat - 2, -1, -1))
    I, want = 1.0, np.zeros(nl)
    for j in idx:
        want[j] = I * (1 - np.exp(-a[j]))
        I *= np.exp(-a[j])
    msg = "light starts in layer %d of %d going %s, theta %.3f" % (mat, nl, "down" if dirn == 1 else "up", th)
    ob.close("absorption per layer", r["A_per_layer"][0], want, 1e-5, msg=msg)
    ob.close("reflected and transmitted remainder", r["T"] if dirn == 1 else r["R"], [I if I >= 1e-9 else 0], 1e-5, msg=msg)
    profile_checks(ob, r, o, widths, None, [1e-6], msg)
    ob.fp("inside", mat, dirn, nl)
