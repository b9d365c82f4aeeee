"""Independent reference for planar stacks: admittance recursion (coherent), intensity network
(incoherent), Poynting-flux bookkeeping for absorption and depth profiles.  Shares no code with
RayFlare, Solcore or tmm.  Lengths in nm."""
import numpy as np


def _kz(n, n0, theta):
    """k_z / k0, on the decaying / forward branch."""
    s = n0 * np.sin(theta)
    kz = np.sqrt(np.asarray(n, dtype=complex) ** 2 - s ** 2)
    kz = np.where((kz.imag < 0) | ((kz.imag == 0) & (kz.real < 0)), -kz, kz)
    return kz


class Coherent:
    """ns: list of complex indices (incidence, layers..., transmission) at ONE wavelength."""

    def __init__(self, ns, ds, theta, wl, pol, beta=None, flip_last=False):
        ns = np.asarray(ns, dtype=complex)
        self.ns, self.ds, self.wl, self.pol = ns, list(ds), wl, pol
        self.k0 = 2 * np.pi / wl
        self.beta = ns[0] * np.sin(theta) if beta is None else beta
        kz = np.sqrt(ns ** 2 - self.beta ** 2)
        kz = np.where((kz.imag < -1e-14) | ((abs(kz.imag) <= 1e-14) & (kz.real < 0)), -kz, kz)
        if flip_last:     # model of a known defect of the dependency: growing wave in the substrate
            kz[-1] = -kz[-1]
        self.kz = kz
        self.eta = kz if pol == "s" else ns ** 2 / kz
        N = len(ns)
        d = [0.0] + list(ds) + [0.0]
        e2 = [np.exp(2j * self.k0 * kz[j] * d[j]) for j in range(N)]
        r = [(self.eta[j] - self.eta[j + 1]) / (self.eta[j] + self.eta[j + 1]) for j in range(N - 1)]
        rho = [0j] * (N - 1)
        rho[N - 2] = r[N - 2]
        for j in range(N - 3, -1, -1):
            q = rho[j + 1] * e2[j + 1]
            rho[j] = (r[j] + q) / (1 + r[j] * q)
        self.rho = rho
        self.R = abs(rho[0]) ** 2
        # forward amplitudes at the top of each medium
        a_bottom = 1.0 + 0j
        self.a_top = [None] * N
        S0 = self.eta[0].real
        self.S0 = S0
        flux = [self._flux(self.eta[0], 1.0, rho[0]) / S0]
        flux_bottom = []
        for j in range(1, N):
            q = rho[j] * e2[j] if j < N - 1 else 0.0
            at = a_bottom * (1 + rho[j - 1]) / (1 + q)
            self.a_top[j] = at
            flux.append(self._flux(self.eta[j], at, q) / S0)
            if j < N - 1:
                a_bottom = at * np.exp(1j * self.k0 * kz[j] * d[j])
                flux_bottom.append(self._flux(self.eta[j], a_bottom, rho[j]) / S0)
        self.T = flux[-1]
        self.A_layers = np.array([flux[j] - flux_bottom[j - 1] for j in range(1, N - 1)])
        self.flux_top = flux[1:-1]

    @staticmethod
    def _flux(eta, a, q):
        return float((abs(a) ** 2 * (1 + q) * np.conj(eta * (1 - q))).real)

    def fields(self, layer, z):
        """Tangential E and H at depth z (nm) below the top of layer (1-based)."""
        j = layer
        z = np.asarray(z, dtype=float)
        up = np.exp(1j * self.k0 * self.kz[j] * z)
        if j < len(self.ns) - 1:
            back = self.rho[j] * np.exp(1j * self.k0 * self.kz[j] * (2 * self.ds[j - 1] - z))
        else:
            back = 0
        f = self.a_top[j] * up
        b = self.a_top[j] * back
        return f + b, self.eta[j] * (f - b)

    def flux_at(self, layer, z):
        U, H = self.fields(layer, z)
        return (U * np.conj(H)).real / self.S0

    def absorption_density(self, layer, z):
        """Absorbed fraction of the incident power per nm at depth z."""
        U, H = self.fields(layer, z)
        eps = self.ns[layer] ** 2
        e2 = np.abs(U) ** 2
        if self.pol == "p":
            e2 = e2 + np.abs(self.beta / eps * H) ** 2
        return self.k0 * eps.imag * e2 / self.S0


def coherent(ns, ds, theta, wl, pol, flip_last=False):
    if pol == "u":
        s, p = coherent(ns, ds, theta, wl, "s", flip_last), coherent(ns, ds, theta, wl, "p", flip_last)
        return {"R": (s["R"] + p["R"]) / 2, "T": (s["T"] + p["T"]) / 2, "A_layers": (s["A_layers"] + p["A_layers"]) / 2}
    c = Coherent(ns, ds, theta, wl, pol, flip_last=flip_last)
    return {"R": c.R, "T": c.T, "A_layers": c.A_layers}


def incoherent(ns, ds, clist, theta, wl, pol):
    """Intensity network; clist entries 'c'/'i' for the layers.  Returns R, T and the net power
    absorbed in every layer (in order)."""
    if pol == "u":
        s, p = (incoherent(ns, ds, clist, theta, wl, q) for q in "sp")
        return {k: (s[k] + p[k]) / 2 for k in ("R", "T", "A_layers")}
    ns = np.asarray(ns, dtype=complex)
    beta = ns[0] * np.sin(theta)
    N = len(ns)
    inc = [0] + [i for i in range(1, N - 1) if clist[i - 1] == "i"] + [N - 1]
    m = len(inc)
    kz = np.sqrt(ns ** 2 - beta ** 2)
    kz = np.where(kz.imag < 0, -kz, kz)
    P = [1.0] * m
    for a in range(1, m - 1):
        i = inc[a]
        P[a] = float(np.exp(-4 * np.pi * ds[i - 1] * kz[i].imag / wl))
    fw, bw = [], []
    for a in range(m - 1):
        i, j = inc[a], inc[a + 1]
        fw.append(Coherent(ns[i:j + 1], ds[i:j - 1], None, wl, pol, beta=beta))
        bw.append(Coherent(ns[i:j + 1][::-1], ds[i:j - 1][::-1], None, wl, pol, beta=beta))
    # unknowns: D[a] (down at top of medium a, a=1..m-1), U[a] (up at the bottom of medium a, a=0..m-2)
    # D[a+1] = T_f[a] * P[a] D[a] + R_b[a] * P[a+1] U[a+1]   (P[0] D[0] = 1)
    # U[a]   = R_f[a] * P[a] D[a] + T_b[a] * P[a+1] U[a+1]   (U[m-1] = 0)
    n = 2 * (m - 1)
    A = np.eye(n)
    b = np.zeros(n)
    iD = lambda a: a - 1
    iU = lambda a: (m - 1) + a
    for a in range(m - 1):
        for row, cf, cb in ((iD(a + 1), fw[a].T, bw[a].R), (iU(a), fw[a].R, bw[a].T)):
            if a == 0:
                b[row] += cf
            else:
                A[row, iD(a)] -= cf * P[a]
            if a + 1 < m - 1:
                A[row, iU(a + 1)] -= cb * P[a + 1]
    x = np.linalg.solve(A, b)
    D = lambda a: x[iD(a)]
    U = lambda a: x[iU(a)] if a < m - 1 else 0.0
    out = np.zeros(N - 2)
    for a in range(m - 1):
        i, j = inc[a], inc[a + 1]
        f = 1.0 if a == 0 else P[a] * D(a)
        bk = P[a + 1] * U(a + 1) if a + 1 < m - 1 else 0.0
        if j - i > 1:
            out[i:j - 1] += f * fw[a].A_layers + bk * bw[a].A_layers[::-1]
        if a > 0:
            out[i - 1] += D(a) * (1 - P[a]) + U(a) * (1 - P[a])
    return {"R": U(0), "T": D(m - 1), "A_layers": out, "D": D, "U": U, "P": P, "inc": inc, "fw": fw, "bw": bw, "kz": kz}
