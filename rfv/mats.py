"""Materials with known optical constants, and generators of random media and stacks."""
import numpy as np


class Mat:
    """A material accepted by RayFlare and Solcore: n(wl), k(wl), wl in m (scalar or array)."""

    def __init__(self, n, k=0.0, disp=0.0, kdisp=0.0, edge=None, name=None):
        self._n, self._k, self._d, self._kd = float(n), float(k), float(disp), float(kdisp)
        self._e = edge          # transparent beyond this wavelength (nm)
        self.name = name or "m%.6g_%.6g_%.3g_%.3g" % (n, k, disp, kdisp) + ("" if edge is None else "_%.6g" % edge)
        self.material_string = self.name

    def n(self, wl, *a, **kw):
        w = np.asarray(wl, dtype=float)
        r = self._n + self._d * ((w * 1e9 - 900.0) / 1000.0)
        return r if w.ndim else float(r)

    def k(self, wl, *a, **kw):
        w = np.asarray(wl, dtype=float)
        r = self._k * np.exp(-self._kd * (w * 1e9 - 900.0) / 1000.0) + 0 * w
        if self._e is not None:
            r = np.where(w * 1e9 > self._e, 0.0, r)
        return r if w.ndim else float(r)

    def alpha(self, wl, *a, **kw):
        return 4 * np.pi * self.k(wl) / np.asarray(wl, dtype=float)

    def nk(self, wl):
        return np.asarray(self.n(np.atleast_1d(wl))) + 1j * np.asarray(self.k(np.atleast_1d(wl)))

    def __str__(self):
        return self.name


def mk(spec):
    return Mat(*spec)


def rand_mat(rng, kmax=2.0, kzero=0.35, nlo=1.0, nhi=4.5, weak=None):
    """A [n, k, dn/dwl, k-dispersion] specification."""
    n = float(np.round(rng.uniform(nlo + 0.12, nhi), 4))
    if rng.random() < kzero:
        k = 0.0
    else:
        k = float(10 ** rng.uniform(-5, np.log10(kmax)))
    if weak is not None and k > weak:
        k = float(10 ** rng.uniform(-6, np.log10(weak)))
    d = float(rng.uniform(-0.1, 0.1)) if rng.random() < 0.6 else 0.0
    kd = float(rng.uniform(-1, 2)) if rng.random() < 0.6 else 0.0
    return [n, k, d, kd]


def rand_wl(rng, n=None):
    n = int(n or rng.integers(1, 5))
    return np.sort(rng.uniform(320, 1750, n)) * 1e-9
