"""Crafted redistribution matrices for the matrix method, and the exact answer of the method."""
import os
import numpy as np
from . import bins as B
from .mats import mk


def flip_map(bs, sym):
    """For every bin: the bins a ray leaving in it may arrive in, as an incoming direction at the next interface."""
    out = []
    for b in bs:
        out.append(B.locate(bs, np.pi - b["th"], b["ph"] + np.pi, sym))
    return out


def unambiguous(bs, sym):
    return all(len(x) == 1 for x in flip_map(bs, sym))


def flips(bs, sym):
    """(down2in, up2in): (n, n) permutations taking outgoing bins of the lower (upper) hemisphere to incidence bins."""
    n = len(bs) // 2
    fm = flip_map(bs, sym)
    dn, up = np.zeros((n, n)), np.zeros((n, n))
    for i in range(n):
        dn[fm[n + i][0], i] = 1
        up[fm[i][0] - n, i] = 1
    return dn, up


def stochastic(rng, nwl, n, nlay, rmax=1.0, tmax=1.0, amax=1.0, sparse=0.5):
    """Random matrices (nwl, 2n, n) and (nwl, nlay, n) with unit column sums and chosen R/T/A shares."""
    m = np.zeros((nwl, 2 * n, n))
    a = np.zeros((nwl, nlay, n))
    for w in range(nwl):
        for c in range(n):
            share = np.array([rmax * rng.random(), tmax * rng.random(), (amax * rng.random() if nlay else 0)])
            if share.sum() == 0:
                share[0] = 1.0
            share /= share.sum()
            for s, sl in ((share[0], slice(0, n)), (share[1], slice(n, 2 * n))):
                x = rng.random(n) * (rng.random(n) < sparse)
                if x.sum() == 0:
                    x[int(rng.integers(n))] = 1.0
                m[w, sl, c] = s * x / x.sum()
            if nlay:
                y = rng.random(nlay) + 1e-3
                a[w, :, c] = share[2] * y / y.sum()
    return m, a


def swap_halves(m):
    n = m.shape[-1]
    return np.concatenate([m[..., n:, :], m[..., :n, :]], axis=-2)


def write(path, name, side, m, a):
    from sparse import COO, save_npz
    os.makedirs(path, exist_ok=True)
    save_npz(os.path.join(path, name + side + "RT.npz"), COO.from_numpy(m))
    save_npz(os.path.join(path, name + side + "A.npz"), COO.from_numpy(a))


def at(m, w):
    return m[w] if m.ndim == 3 else m


def incidence_vector(bs, th, ph, sym):
    """List of acceptable incidence vectors for a direction (several when it lies on a bin edge)."""
    n = len(bs) // 2
    if ph == "all":
        js = sorted({b["j"] for b in bs[:n] if b["th0"] - 1e-9 <= th <= b["th1"] + 1e-9})
        res = []
        for j in js:
            v = np.array([1.0 if b["j"] == j else 0.0 for b in bs[:n]])
            res.append(v / v.sum())
        return res
    res = []
    for i in B.locate(bs, th, ph, sym, 1e-9):
        if i < n:
            v = np.zeros(n)
            v[i] = 1
            res.append(v)
    return res


def solve(f0, a0, b0, ab0, f1, a1, alpha, d, bs, sym, v0):
    """Exact response of Interface | bulk | Interface at one wavelength.
    f0/a0: front matrices of interface 0; b0/ab0: its rear matrices; f1/a1: front matrices of interface 1."""
    n = len(bs) // 2
    dn, up = flips(bs, sym)
    th = np.array([b["th"] for b in bs[:n]])
    D = np.exp(-alpha * d / np.cos(th))
    Rf0, Tf0 = f0[:n], f0[n:]
    Rb0, Tb0 = b0[n:], b0[:n]
    Rf1, Tf1 = f1[:n], f1[n:]
    down0 = dn @ (Tf0 @ v0)                     # incoming at the top of the bulk, first pass
    M = dn @ Rb0 @ up @ np.diag(D) @ Rf1 @ np.diag(D)
    down = np.linalg.solve(np.eye(n) - M, down0)   # all passes, at the top of the bulk
    u = D * down                                # at interface 1
    upb = Rf1 @ u                               # leaving interface 1 upwards
    z = up @ (D * upb)                          # at interface 0 from below
    return dict(R=(Rf0 @ v0).sum() + (Tb0 @ z).sum(), T=(Tf1 @ u).sum(), A0=a0 @ v0 + ab0 @ z, A1=a1 @ u,
                A_bulk=(down - u).sum() + (upb - D * upb).sum(), down=down, up=upb, th=th, r0=(Rf0 @ v0), D=D, M=M,
                rho=float(np.max(np.abs(np.linalg.eigvals(M)))))


def passes(f0, a0, b0, ab0, f1, a1, alpha, d, bs, sym, v0, thresh):
    """The same, pass by pass, until the remaining power is below the threshold."""
    n = len(bs) // 2
    dn, up = flips(bs, sym)
    th = np.array([b["th"] for b in bs[:n]])
    D = np.exp(-alpha * d / np.cos(th))
    r, t, A, s0, s1 = [f0[:n] @ v0], [], [], [a0 @ v0], []
    v = f0[n:] @ v0
    k = 0
    downs, ups = [], []
    while v.sum() > thresh and k < 100000:
        v = dn @ v
        downs.append(v)
        u = D * v
        A.append((v - u).sum())
        w = f1[:n] @ u
        t.append(f1[n:] @ u)
        s1.append(a1 @ u)
        ups.append(w)
        z = D * w
        A.append((w - z).sum())
        z = up @ z
        r.append(b0[:n] @ z)
        s0.append(ab0 @ z)
        v = b0[n:] @ z
        k += 1
    return dict(r=r, t=t, A=A, s0=s0, s1=s1, n=k, left=v.sum(), downs=downs, ups=ups, th=th)


def bulk_profile(res, alpha, d, z):
    """Local absorption in the bulk (per m) at depth z for the light distribution of solve()."""
    c = np.cos(res["th"])
    return (alpha / c * res["down"] * np.exp(-alpha * z[:, None] / c) + alpha / c * res["up"] * np.exp(-alpha * (d - z[:, None]) / c)).sum(1)


def structure(names, nlayers, alpha_mat, d, prof=None):
    from solcore.structure import Layer
    from rayflare.structure import Interface, BulkLayer, Structure
    els = []
    for i, nm in enumerate(names):
        els.append(Interface("TMM", layers=[Layer(50e-9, mk([1.5, 0.1, 0, 0])) for _ in range(nlayers[i])], name=nm, prof_layers=(prof or {}).get(i)))
    return Structure([els[0], BulkLayer(d, alpha_mat, name="bulk"), els[1]], incidence=mk([1.0, 0, 0, 0]), transmission=mk([1.0, 0, 0, 0]))
