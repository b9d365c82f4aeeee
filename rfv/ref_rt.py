"""Independent periodic ray tracer: rays are split at every interface (no random numbers) and followed exactly.

Cell-by-cell marching through the infinite periodic surface; interaction by Fresnel/Snell in the plane of
incidence (refraction with the real parts of the indices, reflectance with the complex ones, as RayFlare documents).
"""
import numpy as np


class Surf:
    periodic = True

    def __init__(self, points, simplices, shift=0.0, orient=True):
        p = np.array(points, dtype=float)
        p[:, 2] -= shift
        self.x0, self.y0 = p[:, 0].min(), p[:, 1].min()
        self.Lx, self.Ly = p[:, 0].max() - self.x0, p[:, 1].max() - self.y0
        a, b, c = p[simplices[:, 0]], p[simplices[:, 1]], p[simplices[:, 2]]
        cr = np.cross(b - a, c - a)
        ok = np.linalg.norm(cr, axis=1) > 1e-14
        a, b, c, cr = a[ok], b[ok], c[ok], cr[ok]
        if orient:
            s = np.where(cr[:, 2] < 0, -1.0, 1.0)[:, None]
        else:
            s = 1.0
        self.a, self.e1, self.e2 = a, b - a, c - a
        self.N = s * cr / np.linalg.norm(cr, axis=1)[:, None]
        self.zmin, self.zmax = p[:, 2].min(), p[:, 2].max()

    def wrap(self, r):
        r = r.copy()
        r[:, 0] = self.x0 + np.mod(r[:, 0] - self.x0, self.Lx)
        r[:, 1] = self.y0 + np.mod(r[:, 1] - self.y0, self.Ly)
        return r

    def cell_hit(self, r, d):
        """Nearest intersection inside the cell: t (inf if none), triangle, distance to the nearest edge (barycentric)."""
        n = len(r)
        best = np.full(n, np.inf)
        tri = np.full(n, -1)
        edge = np.full(n, np.inf)
        for k in range(len(self.a)):
            h = np.cross(d, self.e2[k])
            det = h @ self.e1[k]
            with np.errstate(all="ignore"):
                inv = 1 / det
                s = r - self.a[k]
                u = inv * np.sum(s * h, 1)
                q = np.cross(s, self.e1[k])
                v = inv * np.sum(d * q, 1)
                t = inv * (q @ self.e2[k])
                m = np.minimum(np.minimum(u, v), 1 - u - v)
            near = np.isfinite(t) & (t > 1e-9) & (m > -1e-9)
            band = np.isfinite(t) & (t > 1e-9) & (np.abs(m) < 1e-6)
            edge = np.where(band, np.minimum(edge, np.abs(m)), edge)
            w = near & (t < best)
            best = np.where(w, t, best)
            tri = np.where(w, k, tri)
        return best, tri, edge

    def first_hit(self, r, d, max_cells=3000):
        """-> (hit?, position, triangle, edge ambiguous?)."""
        n = len(r)
        if not self.periodic:
            t, k, e = self.cell_hit(r, d)
            h = np.isfinite(t)
            r = np.where(h[:, None], r + np.where(h, t, 0)[:, None] * d, r)
            return h, r, k, e < 1e-6
        r = self.wrap(r)
        hit = np.zeros(n, bool)
        tri = np.full(n, -1)
        amb = np.zeros(n, bool)
        gone = np.zeros(n, bool)
        live = np.arange(n)
        for _ in range(max_cells):
            if len(live) == 0:
                break
            rl, dl = r[live], d[live]
            away = ((dl[:, 2] > 0) & (rl[:, 2] > self.zmax + 1e-12)) | ((dl[:, 2] < 0) & (rl[:, 2] < self.zmin - 1e-12)) | (dl[:, 2] == 0)
            gone[live[away]] = True
            live, rl, dl = live[~away], rl[~away], dl[~away]
            if len(live) == 0:
                break
            with np.errstate(all="ignore"):
                tx = np.where(dl[:, 0] > 0, (self.x0 + self.Lx - rl[:, 0]) / dl[:, 0], np.where(dl[:, 0] < 0, (self.x0 - rl[:, 0]) / dl[:, 0], np.inf))
                ty = np.where(dl[:, 1] > 0, (self.y0 + self.Ly - rl[:, 1]) / dl[:, 1], np.where(dl[:, 1] < 0, (self.y0 - rl[:, 1]) / dl[:, 1], np.inf))
                tz = np.where(dl[:, 2] > 0, (self.zmax - rl[:, 2] + 1e-6 + 1e-6 * abs(self.zmax)) / dl[:, 2], (self.zmin - rl[:, 2] - 1e-6 - 1e-6 * abs(self.zmin)) / dl[:, 2])
            te = np.maximum(np.minimum(tx, ty), 0)
            t, k, e = self.cell_hit(rl, dl)
            h = t <= np.minimum(te, tz) + 1e-9
            amb[live] |= e < 1e-6
            idx = live[h]
            r[idx] = rl[h] + t[h][:, None] * dl[h]
            tri[idx] = k[h]
            hit[idx] = True
            m = ~h
            out = m & (tz <= te)
            r[live[out]] = rl[out] + tz[out][:, None] * dl[out]
            gone[live[out]] = True
            mv = m & ~out
            rn = rl[mv] + te[mv][:, None] * dl[mv]
            # step over the boundary that was reached
            sx = tx[mv] <= ty[mv] + 1e-15
            sy = ty[mv] <= tx[mv] + 1e-15
            rn[:, 0] = np.where(sx, np.where(dl[mv, 0] > 0, self.x0, self.x0 + self.Lx), np.clip(rn[:, 0], self.x0, self.x0 + self.Lx))
            rn[:, 1] = np.where(sy, np.where(dl[mv, 1] > 0, self.y0, self.y0 + self.Ly), np.clip(rn[:, 1], self.y0, self.y0 + self.Ly))
            r[live[mv]] = rn
            live = live[mv]
        lost = np.zeros(n, bool)
        lost[live] = True
        return hit, r, tri, amb | lost


def fresnel(n1, n2, th, pol):
    """Power reflectance for real angle th, complex indices."""
    s = n1 * np.sin(th) / n2
    ct = np.sqrt(1 - s * s + 0j)
    c = np.cos(th)
    rs = np.abs((n1 * c - n2 * ct) / (n1 * c + n2 * ct)) ** 2
    rp = np.abs((n1 * ct - n2 * c) / (n1 * ct + n2 * c)) ** 2
    R = {"s": rs, "p": rp, "u": (rs + rp) / 2}[pol]
    return np.where((np.real(n1) * np.sin(th) >= np.real(n2)) & (np.imag(n2) == 0), 1.0, R)


class Rays:
    F = ("r", "d", "w", "orig", "amb", "nint", "npass", "inmat", "q")      # q: probability of the choices made so far

    def __init__(self, **k):
        self.__dict__.update(k)

    def __len__(self):
        return len(self.w)

    def take(self, i):
        return Rays(**{f: getattr(self, f)[i] for f in self.F})

    @staticmethod
    def cat(a):
        return Rays(**{f: np.concatenate([getattr(x, f) for x in a]) for f in Rays.F})


def interface(surf, rays, n_up, n_dn, pol, wmin, film=None, max_events=60):
    """Rays arriving at one surface (inmat: 0 above, 1 below) -> rays that leave it, and absorbed weight events.

    film(theta, side(1 from above, -1 from below)) -> R, T, A(layers): replaces Fresnel."""
    out, absorbed = [], []
    lost = 0.0
    live = rays
    for _ in range(max_events):
        if len(live) == 0:
            break
        hit, r, tri, amb = surf.first_hit(live.r, live.d)
        live.amb = live.amb | amb
        live.r = r
        done = live.take(~hit)
        if len(done):
            out.append(done)
        live, tri = live.take(hit), tri[hit]
        if len(live) == 0:
            break
        live.nint = live.nint + 1
        N = surf.N[tri]
        below = live.inmat == 1
        side = np.where(below, -1.0, 1.0)
        Ni = N * side[:, None]
        c = -np.sum(live.d * Ni, 1)
        wrong = c <= 0
        live.amb = live.amb | wrong
        c = np.clip(np.abs(c), 1e-12, 1)
        th = np.arccos(c)
        n1 = np.where(below, n_dn, n_up)
        n2 = np.where(below, n_up, n_dn)
        if film is None:
            R = np.array(fresnel(n1, n2, th, pol), dtype=float)
            T = 1 - R
        else:
            R, T, A = film(th, side)
            for j in range(len(live)):
                if live.w[j] * A[j].sum() > 0:
                    absorbed.append((live.w[j] * A[j], th[j], side[j], live.orig[j]))
        dr = live.d - 2 * np.sum(live.d * Ni, 1)[:, None] * Ni
        eta = (np.real(n1) / np.real(n2))[:, None]
        par = eta * (live.d + c[:, None] * Ni)
        p2 = np.sum(par ** 2, 1)
        c2 = np.where(p2 < 1, 1 - p2, (n2 / np.real(n2)) ** 2 - p2)      # inhomogeneous wave in an absorbing medium
        dt = par - np.real(np.sqrt(c2 + 0j))[:, None] * Ni
        T = np.where((p2 >= 1) & (np.imag(n2) == 0), 0.0, T)
        a, b = live.take(slice(None)), live.take(slice(None))
        a.d, a.w = dr / np.linalg.norm(dr, axis=1)[:, None], live.w * R
        a.q, b.q = live.q * R, live.q * T
        with np.errstate(all="ignore"):
            b.d, b.w = dt / np.linalg.norm(dt, axis=1)[:, None], live.w * T
        b.inmat = 1 - live.inmat
        nxt = Rays.cat([a, b])
        keep = nxt.w > wmin
        lost += nxt.w[~keep].sum()
        live = nxt.take(keep)
    if len(live):
        lost += live.w.sum()
    return (Rays.cat(out) if out else rays.take(slice(0, 0))), absorbed, lost


def start(x, y, z, d, w=None):
    n = len(x)
    r = np.stack([x, y, np.full(n, z)], 1).astype(float)
    return Rays(r=r, d=np.tile(np.asarray(d, float), (n, 1)), w=np.ones(n) / n if w is None else w, orig=np.arange(n),
                amb=np.zeros(n, bool), nint=np.zeros(n, int), npass=np.zeros(n, int), inmat=np.zeros(n, int), q=np.ones(n))


def direction(theta, phi):
    """Travelling direction of light that comes in from (theta, phi), downwards."""
    return np.array([-np.sin(theta) * np.cos(phi), -np.sin(theta) * np.sin(phi), -np.cos(theta)])


def stack(surfs, nks, alphas, widths, rays, pol, wmin=1e-6, I_thresh=0.0, films=None, max_gen=4000, rng=None, cap=20000, randomize=False, first=(0, 1), log=None):
    """Full structure. -> dict of R, T, A per layer, R0, outgoing rays, interface absorption, weight not followed."""
    m = len(surfs)
    films = films or [None] * m
    queue = {first: [rays]}                   # (surface, direction of travel)
    res = dict(R=0.0, T=0.0, R0=0.0, A=np.zeros(max(m - 1, 0)), lost=0.0, out=[], Aint=[[] for _ in range(m)], amb=0.0)
    for _ in range(max_gen):
        if not queue:
            break
        key = max(queue, key=lambda k: sum(x.w.sum() for x in queue[k]))
        s, dirn = key
        live = Rays.cat(queue.pop(key))
        if len(live) == 0:
            continue
        if len(live) > cap:                   # unbiased thinning
            p = np.minimum(1, live.w * cap / live.w.sum())
            k = rng.random(len(live)) < p
            live = live.take(k)
            live.w = live.w / p[k]
        live.inmat = np.full(len(live), 0 if dirn == 1 else 1)
        zin = surfs[s].zmax + 1e-6 if dirn == 1 else surfs[s].zmin - 1e-6
        live.r = live.r + live.d * ((zin - live.r[:, 2]) / live.d[:, 2])[:, None]
        if randomize:
            live.r[:, 0] = surfs[s].x0 + rng.random(len(live)) * surfs[s].Lx
            live.r[:, 1] = surfs[s].y0 + rng.random(len(live)) * surfs[s].Ly
        o, ab, lost = interface(surfs[s], live, nks[s], nks[s + 1], pol, wmin, films[s])
        res["lost"] += lost
        res["Aint"][s] += ab
        for side, new in ((0, o.take(o.inmat == 0)), (1, o.take(o.inmat == 1))):
            if len(new) == 0:
                continue
            mat = s if side == 0 else s + 1
            if mat == 0:
                res["R"] += new.w.sum()
                res["R0"] += new.w[new.npass == 0].sum()
                res["out"].append(new)
                continue
            if mat == m:
                res["T"] += new.w.sum()
                res["out"].append(new)
                continue
            path = np.exp(-alphas[mat] * widths[mat - 1] / np.abs(new.d[:, 2]))
            res["A"][mat - 1] += np.sum(new.w * (1 - path))
            if log is not None:                    # layer, weight entering, attenuation per length, travelling down?
                log.append((np.full(len(new), mat - 1), new.w.copy(), alphas[mat] / np.abs(new.d[:, 2]), np.full(len(new), side == 1)))
            new.w = new.w * path
            new.npass = new.npass + 1
            keep = new.w > wmin
            res["lost"] += new.w[~keep].sum()
            new = new.take(keep)
            nk = (s - 1, -1) if side == 0 else (s + 1, 1)
            if len(new):
                queue.setdefault(nk, []).append(new)
    for v in queue.values():
        res["lost"] += sum(x.w.sum() for x in v)
    res["amb"] = sum(o.w[o.amb].sum() for o in res["out"])
    return res
