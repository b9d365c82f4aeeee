"""Driving rt_structure and comparing ray outcomes with the reference tracer."""
import numpy as np
from scipy.spatial import cKDTree
from rfv import ref_rt as rr
from rfv.mats import Mat


def opts(nx=6, ny=6, reps=1, th=0.0, ph=0.0, pol="u", wl=(1e-6,), xl=None, yl=None, I_thresh=1e-9, **kw):
    from rayflare.options import default_options
    o = default_options()
    o.wavelength = np.asarray(wl, float)
    o.nx, o.ny, o.n_rays = nx, ny, nx * ny * reps
    o.theta_in, o.phi_in, o.pol = th, ph, pol
    o.parallel = False
    o.random_ray_position = False
    o.randomize_surface = False
    o.I_thresh = I_thresh
    o.depth_spacing_bulk = 1e-6
    o.project_name = "p"
    if xl is not None:
        o.x_limits, o.y_limits = list(xl), list(yl)
    for k, v in kw.items():
        o[k] = v
    return o


def grid(o):
    xs, ys = np.linspace(*o["x_limits"], o["nx"]), np.linspace(*o["y_limits"], o["ny"])
    X, Y = np.meshgrid(xs, ys, indexing="ij")
    return X.ravel(), Y.ravel()


def limits(rng, S):
    a, b = np.sort(rng.uniform(0, 0.12, 2)), np.sort(rng.uniform(0, 0.12, 2))
    return [S.x0 + S.Lx * a[0], S.x0 + S.Lx * (1 - a[1])], [S.y0 + S.Ly * b[0], S.y0 + S.Ly * (1 - b[1])]


def vecs(theta, phi):
    theta, phi = np.asarray(theta, float), np.asarray(phi, float)
    return np.stack([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)], -1)


def observed(r, i=0):
    """One row per ray: direction, interactions, passes (absorbed rays: direction zero)."""
    v = vecs(np.real(r["thetas"][i]), np.real(r["phis"][i]))
    v = np.where(np.isfinite(v), v, 0)
    return np.concatenate([v, np.asarray(r["n_interactions"][i], float)[:, None], np.asarray(r["n_passes"][i], float)[:, None]], 1)


def expected(out):
    return np.concatenate([out.d, out.nint[:, None].astype(float), out.npass[:, None].astype(float)], 1)


SCALE = np.array([1, 1, 1, 0.1, 0.1])


def clusters(rows, tol=3e-6):
    """Indices of representatives and the cluster of each row."""
    if len(rows) == 0:
        return np.zeros((0, 5)), np.zeros(0, int)
    t = cKDTree(rows * SCALE)
    lab = np.full(len(rows), -1)
    reps = []
    for i in range(len(rows)):
        if lab[i] < 0:
            near = [j for j in t.query_ball_point(rows[i] * SCALE, tol) if lab[j] < 0]
            lab[near] = len(reps)
            reps.append(rows[i])
    return np.array(reps), lab


def same_multiset(ob, name, got, want, slack, msg, key=None):
    """Every expected outcome observed as often as it should be, `slack` of them being undecidable (edge hits)."""
    reps, lab = clusters(want)
    cnt = np.bincount(lab, minlength=len(reps)).astype(float)
    seen = np.zeros(len(reps))
    un = 0
    if len(reps):
        d, j = cKDTree(reps * SCALE).query(got * SCALE)
        for dd, jj in zip(d, j):
            if dd < 1e-5:
                seen[jj] += 1
            else:
                un += 1
                bad = dd
    else:
        un = len(got)
    ob.check(name, un <= slack, "%s: %d of %d rays end in a way that tracing the facets exactly never gives (%d ambiguous)" % (msg, un, len(got), slack), key, n=len(got))
    if len(reps):
        k = int(np.argmax(np.abs(seen - cnt)))
        ob.check(name, np.abs(seen - cnt).max() <= slack, "%s: outcome direction %s, %d interactions, %d passes: %d rays, expected %d"
                 % (msg, np.round(reps[k][:3], 6), reps[k][3], reps[k][4], seen[k], cnt[k]), key)
    return un == 0


def zscore(ob, name, got, want, var, n, msg, lim=6.0, key=None, extra=0.0):
    """got, want: fractions; var: variance of a single ray's contribution; n rays."""
    sd = np.sqrt(max(var, 0) / n) + 1.5 / n
    z = max(abs(got - want) - extra, 0) / sd
    ob.worst[name] = max(ob.worst.get(name, 0), z / lim)
    return ob.check(name, z <= lim, "%s: observed %.5f, expected %.5f (%d rays, %.1f standard deviations)" % (msg, got, want, n, z), key, n=n)
