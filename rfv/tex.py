"""Random surface textures, built through RayFlare's public generators, from JSON-able descriptions."""
import numpy as np


def rand(rng, kinds=("pyr", "pyr", "inv", "V", "planar", "rough_pyr", "rough_planar", "hemi", "xyz", "heights"), size=None, amax=72):
    k = str(rng.choice(kinds))
    return dict(kind=k, ang=float(rng.uniform(8, amax)), size=float(size or rng.choice([1.0, 1.0, float(rng.uniform(0.3, 20))])), seed=int(rng.integers(1 << 30)),
                up=bool(rng.random() < 0.5), dir=str(rng.choice(["x", "y"])), grid=bool(rng.random() < 0.5), ox=float(rng.choice([0, 0, rng.uniform(-3, 3)])),
                oy=float(rng.choice([0, 0, rng.uniform(-3, 3)])), asp=float(rng.choice([1, rng.uniform(0.5, 2)])))


def grid_heights(s):
    """Periodic height map on a grid: rows are y, columns are x."""
    r = np.random.default_rng(s["seed"])
    ny, nx = int(r.integers(4, 7)), int(r.integers(4, 7))
    z = r.random((ny, nx)) * s["size"] / 4 * np.tan(np.radians(s["ang"])) / 1.5
    z[-1, :] = z[0, :]
    z[:, -1] = z[:, 0]
    return z


def make(s, **kw):
    from rayflare import textures as tx
    r = np.random.RandomState(s["seed"] % (2 ** 32))
    st = np.random.get_state()
    np.random.set_state(r.get_state())
    try:
        k, L = s["kind"], s["size"]
        if k == "pyr" or k == "inv":
            return tx.regular_pyramids(elevation_angle=s["ang"], upright=(k == "pyr"), size=L, **kw)
        if k == "planar":
            return tx.planar_surface(size=L, **kw)
        if k == "V":
            return tx.V_grooves(elevation_angle=s["ang"], width=1, direction=s["dir"], **kw)
        if k == "rough_pyr":
            return tx.rough_pyramids(elevation_angle=min(s["ang"], 60), upright=s["up"], size=L, noise_angle=s.get("noise", 0.12), n_points=s.get("npts", 16 if s["grid"] else 14), regular_grid=s["grid"], **kw)
        if k == "rough_planar":
            return tx.rough_planar_surface(size=L, noise_angle=s.get("noise", 0.5), n_points=s.get("npts", 16 if s["grid"] else 14), regular_grid=s["grid"], **kw)
        if k == "hemi":
            return tx.hemisphere_surface(size=L, n_per_side=s.get("side", 7), radius=s.get("rad", 0.42) * L, offset=s.get("off", 0.1) * L, noise_angle=s.get("noise", 0.1) if s["grid"] else 0, upright=s["up"],
                                         **dict({"stretch": s["stretch"]} if "stretch" in s else {}, **kw))
        if k == "heights":
            z = grid_heights(s)
            if z.shape[0] != z.shape[1]:
                pass
            return tx.heights_texture(z, L, L * s["asp"], **kw)
        if k == "xyz":
            g = np.random.default_rng(s["seed"])
            n = int(g.integers(3, 9))
            x, y = g.uniform(0.1, 0.9, n) * L, g.uniform(0.1, 0.9, n) * L * s["asp"]
            z = g.uniform(-1, 1, n) * L * 0.25 * np.tan(np.radians(s["ang"])) / 1.5
            b = np.array([[0, 0], [0, 1], [1, 0], [1, 1]], float) * [L, L * s["asp"]]
            return tx.xyz_texture(np.r_[x, b[:, 0]] + s["ox"], np.r_[y, b[:, 1]] + s["oy"], np.r_[z, np.zeros(4)], **kw)
        raise KeyError(k)
    finally:
        np.random.set_state(st)


def repeat(rng, specs):
    """Sometimes the same texture at two of the surfaces; leaves the other draws as they are."""
    side = rng.spawn(1)[0]
    if len(specs) > 1 and side.random() < 0.25:
        i, j = side.choice(len(specs), 2, replace=False)
        specs[int(i)] = specs[int(j)]
    return specs


def many(specs):
    """Surfaces of the same description are one and the same object."""
    done = {}
    for s in specs:
        if id(s) not in done:
            done[id(s)] = make(s)
    return [done[id(s)] for s in specs]


def ref(surface, shift=0.0, periodic=True):
    from rfv.ref_rt import Surf
    s = Surf(np.array(surface.Points), np.array(surface.simplices), shift)
    s.periodic = periodic
    return s


def tiles(surface):
    """The triangulation fills the whole rectangular cell."""
    p, t = np.asarray(surface.Points)[:, :2], np.asarray(surface.simplices)
    a, b = p[t[:, 1]] - p[t[:, 0]], p[t[:, 2]] - p[t[:, 0]]
    area = 0.5 * np.abs(a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]).sum()
    full = np.ptp(p[:, 0]) * np.ptp(p[:, 1])
    return abs(area - full) < 1e-9 * full
