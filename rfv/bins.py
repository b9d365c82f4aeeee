"""Independent model of RayFlare's angular bins."""
import numpy as np


def bins(n, phi_sym, c_az, spacing="sin"):
    """List of dicts (theta range, phi range, centre) in the documented order: theta bins from 0 to
    pi, r-th bin from the pole split into ceil(c_az*r) equal azimuth bins of [0, phi_sym]."""
    if spacing == "sin":
        e = np.arcsin(np.arange(n + 1) / n)
    else:
        e = np.linspace(0, np.pi / 2, n + 1)
    edges = np.concatenate([e, np.pi - e[:-1][::-1]])
    out = []
    for j in range(2 * n):
        r = j + 1 if j < n else 2 * n - j
        m = int(np.ceil(c_az * r))
        for a in range(m):
            out.append(dict(j=j, th0=edges[j], th1=edges[j + 1], ph0=phi_sym * a / m, ph1=phi_sym * (a + 1) / m,
                            th=(edges[j] + edges[j + 1]) / 2, ph=phi_sym * (a + 0.5) / m))
    return out, edges


def locate(bs, theta, phi, phi_sym, eps=1e-7):
    """Indices of every bin whose closure (widened by eps) contains the direction."""
    phi = np.mod(phi, phi_sym)
    res = []
    for i, b in enumerate(bs):
        if b["th0"] - eps <= theta <= b["th1"] + eps:
            for p in (phi, phi - phi_sym, phi + phi_sym):
                if b["ph0"] - eps <= p <= b["ph1"] + eps:
                    res.append(i)
                    break
    return res
