"""P12 reflection probability and directions at each intersection."""
import numpy as np
from scipy import stats
from rfv import ref_rt as rr, rtrun as rt, tex
from rfv.mats import Mat

ID = "P12"
TECHNIQUE = "runtime monitor: outcomes of traced rays judged by Fresnel's equations and Snell's law (exact membership of every direction, binomial tests per case, pooled chi-square over all cases)"
RULE = ("planar and facetted surfaces, light from above and from below, real and complex indices (dielectrics, weak absorbers, metals), s, p and unpolarised; "
        "deterministic cases (total reflection, Brewster angle, no contrast) decided ray by ray, others by 1,500-6,000 rays; non-trivial: reflectance strictly between 0 and 1, or a total reflection")
REQUIRED = ["direction after one intersection", "reflection probability", "total reflection", "Brewster angle", "no contrast", "facet branches", "pooled chi-square", "facet reflection probability"]


def cases(rng, tier):
    n = 168 if tier == "quick" else 5000
    kinds = ["plane", "plane", "exact", "facets", "below", "metal", "single"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), big=tier != "quick") for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


def index(rng, absorbing=False):
    return Mat(float(rng.uniform(1, 4)), float(10 ** rng.uniform(-4, 0.6)) if absorbing else 0.0)


def trace(n0, n1, th, ph, pol, N, ts=None, **kw):
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    ts = ts or [tx.planar_surface()]
    nx = 5
    o = rt.opts(nx, nx, int(np.ceil(N / nx ** 2)), th, ph, pol, **kw)
    return rt_structure([ts[0]], [], [], n0, n1).calculate(o)


def snell(n0, n1, th, ph, wl=1e-6):
    """Directions after reflection and transmission at a horizontal plane."""
    d = rr.direction(th, ph)
    r = d * [1, 1, -1]
    s = n0.n(wl) / n1.n(wl) * d[:2]
    s2 = (s ** 2).sum()
    nk = n1.nk(wl)[0]
    if s2 < 1:
        t = np.append(s, -np.sqrt(1 - s2))
    else:
        t = np.append(s, -np.real(np.sqrt((nk / nk.real) ** 2 - s2 + 0j)))
    return r, t / np.linalg.norm(t)


def judge_plane(ob, r, n0, n1, th, ph, pol, msg, upward=False, name="reflection probability"):
    got = rt.observed(r)
    a, b = snell(n0, n1, th, ph)
    if upward:
        a, b = a * [1, 1, -1], b * [1, 1, -1]
    isr = np.abs(got[:, :3] - a).max(1) < 1e-6
    ist = np.abs(got[:, :3] - b).max(1) < 1e-6
    bad = int((~(isr | ist)).sum())
    ob.check("direction after one intersection", bad == 0, "%s: %d of %d rays leave neither along the reflected nor along the refracted direction, e.g. %s" %
             (msg, bad, len(got), got[~(isr | ist)][:1, :3]), n=len(got))
    R = float(rr.fresnel(n0.nk(1e-6)[0], n1.nk(1e-6)[0], th, pol))
    N = len(got)
    obs = float(isr.mean()) if not np.allclose(a, b) else float(np.real(r["R"][0]))
    rt.zscore(ob, name, obs, R, R * (1 - R), N, msg)
    if N * R * (1 - R) > 30:
        ob.notes.append(float((obs - R) / np.sqrt(R * (1 - R) / N)))
        ob.fp(msg)
    return R


def k_plane(case, ob, rng):
    ab = rng.random() < 0.4
    n0, n1 = Mat(float(rng.uniform(1, 3.5)), float(rng.choice([0, 0, 10 ** rng.uniform(-5, -2)]))), index(rng, ab)
    th, ph = float(rng.choice([0, rng.uniform(0, 1.5)])), float(rng.uniform(0, 2 * np.pi))
    pol = str(rng.choice(["s", "p", "u"]))
    N = 10000 if case["big"] else 3000
    r = trace(n0, n1, th, ph, pol, N)
    msg = "plane %s -> %s, theta %.4f, pol %s" % (n0.name, n1.name, th, pol)
    judge_plane(ob, r, n0, n1, th, ph, pol, msg)


def k_metal(case, ob, rng):
    n0, n1 = Mat(float(rng.uniform(1, 3.6))), Mat(float(10 ** rng.uniform(-1.0, 0.5)), float(rng.uniform(0.8, 6)))
    th, ph = float(rng.uniform(0, 1.45)), float(rng.uniform(0, 2 * np.pi))
    pol = str(rng.choice(["s", "p", "u"]))
    r = trace(n0, n1, th, ph, pol, 3000)
    judge_plane(ob, r, n0, n1, th, ph, pol, "metal %s -> %s, theta %.4f, pol %s" % (n0.name, n1.name, th, pol))


def k_below(case, ob, rng):
    """Light that comes from below: it starts in the layer and meets the first surface from its rear."""
    from rayflare import textures as tx
    from rayflare.ray_tracing import rt_structure
    n0, n1 = index(rng, rng.random() < 0.25), Mat(float(rng.uniform(1, 4)))
    th, ph = float(rng.choice([0, rng.uniform(0, 1.3)])), float(rng.uniform(0, 2 * np.pi))
    pol = str(rng.choice(["s", "p", "u"]))
    w = float(rng.uniform(1, 30))
    N = 3000
    o = rt.opts(5, 5, N // 25, th, ph, pol, initial_material=1, initial_direction=-1)
    st = rt_structure([tx.planar_surface(), tx.planar_surface()], [n1], [w * 1e-6], n0, n1)
    r = st.calculate(o)
    msg = "from below %s -> %s, theta %.4f, pol %s" % (n1.name, n0.name, th, pol)
    got = rt.observed(r)
    up = got[:, 2] > 0
    # light reflected at the first surface goes down and leaves through the second, which has no contrast
    d = rr.direction(th, ph)
    _, t = snell(n1, n0, th, ph)
    R = float(rr.fresnel(n1.nk(1e-6)[0], n0.nk(1e-6)[0], th, pol))
    if up.any():
        ob.close("direction after one intersection", got[up][:, :3], np.tile(t * [1, 1, -1], (int(up.sum()), 1)), 1e-6, msg=msg)
    if (~up).any():
        ob.close("direction after one intersection", got[~up][:, :3], np.tile(d, (int((~up).sum()), 1)), 1e-6, msg=msg)
    obs = float((~up).mean())
    rt.zscore(ob, "reflection probability", obs, R, R * (1 - R), len(got), msg)
    if len(got) * R * (1 - R) > 30:
        ob.notes.append(float((obs - R) / np.sqrt(R * (1 - R) / len(got))))
        ob.fp(msg)


def k_exact(case, ob, rng):
    """Cases in which chance plays no part."""
    what = str(rng.choice(["tir", "brewster", "match"]))
    ph = float(rng.uniform(0, 2 * np.pi))
    N = 200
    if what == "tir":
        n1 = float(rng.uniform(1, 2.5))
        n0 = n1 * float(rng.uniform(1.05, 2))
        thc = np.arcsin(n1 / n0)
        th = float(thc + (1.52 - thc) * rng.choice([1e-6, rng.uniform(0.01, 1)]))
        pol = str(rng.choice(["s", "p", "u"]))
        r = trace(Mat(n0), Mat(n1), th, ph, pol, N)
        ob.close("total reflection", r["R"], np.ones(1), 1e-12, msg="theta %.6f beyond critical angle %.6f (n %.4f -> %.4f, %s)" % (th, thc, n0, n1, pol))
        a, _ = snell(Mat(n0), Mat(n1), th, ph)
        ob.close("direction after one intersection", rt.observed(r)[:, :3], np.tile(a, (len(r["thetas"][0]), 1)), 1e-6, msg="total reflection")
    elif what == "brewster":
        n0, n1 = float(rng.uniform(1, 3)), float(rng.uniform(1, 3))
        th = float(np.arctan(n1 / n0))
        if abs(n0 - n1) < 0.2:
            return
        r = trace(Mat(n0), Mat(n1), th, ph, "p", N)
        ob.close("Brewster angle", r["R"], np.zeros(1), 1e-12, msg="n %.4f -> %.4f" % (n0, n1))
        r = trace(Mat(n0), Mat(n1), th, ph, "s", 2000)
        R = ((n0 ** 2 - n1 ** 2) / (n0 ** 2 + n1 ** 2)) ** 2
        rt.zscore(ob, "reflection probability", float(r["R"][0]), R, R * (1 - R), 2000, "s at Brewster's angle")
    else:
        n0 = float(rng.uniform(1, 4))
        s = tex.rand(rng, amax=60)
        th = float(rng.uniform(0, 1.3))
        r = trace(Mat(n0), Mat(n0), th, ph, str(rng.choice(["s", "p", "u"])), N, ts=[tex.make(s)])
        ob.close("no contrast", r["T"], np.ones(1), 1e-12, msg="%s theta %.3f" % (s, th))
        ob.close("no contrast", rt.observed(r)[:, :3], np.tile(rr.direction(th, ph), (len(r["thetas"][0]), 1)), 1e-6, msg="direction %s theta %.3f" % (s, th))
    ob.fp(what, ph)


def k_single(case, ob, rng):
    """Gentle facets met once: local angle and plane of incidence of tilted facets."""
    from rayflare import textures as tx
    ang = float(rng.uniform(2, 12))
    t = tx.V_grooves(elevation_angle=ang, direction=str(rng.choice(["x", "y"]))) if rng.random() < 0.4 else tx.regular_pyramids(ang, upright=bool(rng.random() < 0.5))
    S = tex.ref(t[0])
    n0, n1 = Mat(1.0), Mat(float(rng.uniform(1.4, 4)), float(rng.choice([0, 0, 10 ** rng.uniform(-2, 0.5)])))
    th, ph = float(rng.uniform(0, 0.7)), float(rng.uniform(0, 2 * np.pi))
    pol = str(rng.choice(["s", "p", "u"]))
    x, y = float(rng.uniform(0.05, 0.95)), float(rng.uniform(0.05, 0.95))
    N = 1500
    r = trace(n0, n1, th, ph, pol, N, ts=[t], xl=[x, x], yl=[y, y])
    rays = rr.start(np.array([x]), np.array([y]), abs(S.zmax + 1e-8), rr.direction(th, ph))
    out, _, lost = rr.interface(S, rays, n0.nk(1e-6)[0], n1.nk(1e-6)[0], pol, 1e-9)
    if out.amb.any() or out.nint.max() > 1:
        return
    msg = "facet of %.2f deg, %s -> %s, theta %.3f phi %.3f pol %s" % (ang, n0.name, n1.name, th, ph, pol)
    want = rt.expected(out)
    got = rt.observed(r)
    from scipy.spatial import cKDTree
    d, j = cKDTree(want * rt.SCALE).query(got * rt.SCALE)
    ob.check("facet branches", (d < 1e-5).all(), "%s: %d of %d rays leave in a direction that is neither reflected nor refracted" % (msg, (d > 1e-5).sum(), len(got)), n=len(got))
    R = out.w[out.inmat == 0].sum()
    obs = float((out.inmat[j] == 0)[d < 1e-5].mean())
    rt.zscore(ob, "facet reflection probability", obs, R, R * (1 - R), len(got), msg)
    if len(got) * R * (1 - R) > 30:
        ob.notes.append(float((obs - R) / np.sqrt(R * (1 - R) / len(got))))
        ob.fp(msg)


def k_facets(case, ob, rng):
    """Textures: every observed direction is one of the exact branch tree."""
    from checks import P13
    for _ in range(2):
        c = dict(kind="branch", seed=int(rng.integers(1 << 31)))
        n = ob.oracles.get("branch outcome", 0)
        P13.k_branch(c, ob, np.random.default_rng(c["seed"]))
        ob.check("facet branches", True, n=ob.oracles.get("branch outcome", 0) - n)


def finish(results, ob):
    z = np.array([v for r in results for v in r.get("notes", [])])
    if len(z) < 10:
        return
    c = float((z ** 2).sum())
    p = stats.chi2.sf(c, len(z))
    ob.check("pooled chi-square", p > 1e-7, "%d reflectances, chi-square %.1f, p = %.2g: reflection probabilities deviate systematically" % (len(z), c, p), n=len(z))
    m = float(z.sum() / np.sqrt(len(z)))
    ob.check("pooled chi-square", abs(m) < 5.5, "%d reflectances deviate in one direction by %.1f standard deviations" % (len(z), m))
