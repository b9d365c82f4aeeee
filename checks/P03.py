"""P03 depth-resolved absorption of planar stacks agrees with the absorption it resolves."""
import numpy as np
from rfv import stacks, ref_tmm
from rfv.mats import mk

ID = "P03"
RULE = ("random planar stacks with depth profiles requested for random subsets of layers and random depth spacings; every "
        "sample is compared with an independent local-field solution (coherent layers) or with an exponential carrying the "
        "layer's absorption (incoherent layers), and the returned profile coefficients with the sampled profile; non-trivial: "
        "a profiled layer absorbs more than 1e-4")
REQUIRED = ["samples: number", "coherent profile value", "incoherent profile shape", "profile integral", "coefficients reproduce profile",
            "coefficients: u is mean of s and p", "non-negative", "same as calculate", "profile does not change R, A, T", "coefficients integral (partly coherent)", "explicit depths",
            "coefficients: incoherent layer scale"]


def cases(rng, tier):
    n = 320 if tier == "quick" else 6000
    return [dict(kind=["coherent", "partly", "partly", "coeff"][i % 4], seed=int(rng.integers(1 << 31)), n=8) for i in range(n)]


def grid(s, spacing_nm, layers):
    total = sum(s["ds"])
    full = np.arange(0, total, spacing_nm)
    edges = np.concatenate([[0], np.cumsum(s["ds"])])
    pos, lay = [], []
    for l in layers:
        m = (full >= edges[l - 1]) & (full < edges[l])
        pos.append(full[m] - edges[l - 1])
        lay.append(np.full(m.sum(), l))
    return np.concatenate(pos), np.concatenate(lay)


def density(s, w, layer, z):
    ns = stacks.indices(s, w)
    if s["coh"]:
        return ref_tmm.Coherent(ns, s["ds"], s["th"], w, s["pol"]).absorption_density(layer, z)
    q = ref_tmm.incoherent(ns, s["ds"], s["cl"], s["th"], w, s["pol"])
    for a in range(len(q["inc"]) - 1):
        i, j = q["inc"][a], q["inc"][a + 1]
        if i < layer < j:
            f = 1.0 if a == 0 else q["P"][a] * q["D"](a)
            b = q["P"][a + 1] * q["U"](a + 1) if a + 1 < len(q["inc"]) - 1 else 0.0
            return f * q["fw"][a].absorption_density(layer - i, z) + \
                b * q["bw"][a].absorption_density(j - layer, s["ds"][layer - 1] - np.asarray(z))


def opaque(s):
    for w in s["wl"]:
        ns = stacks.indices(s, w)
        b = ns[0] * np.sin(s["th"])
        for n, d, c in zip(ns[1:-1], s["ds"], s["cl"]):
            if 2 * np.pi * d / w * np.sqrt(n ** 2 - b ** 2).imag > 12:
                return True
    return False


def usable(s):
    if stacks.degenerate(s) or stacks.evanescent_incoherent(s) or opaque(s):
        return False
    for w in s["wl"]:      # no totally reflecting substrate (see P02)
        ns = stacks.indices(s, w)
        if ns[-1].real < (ns[0] * np.sin(s["th"])).real * 1.01:
            return False
    return True


INCOMP = "partly coherent profile: forward and backward decay constants differ by rounding at every wavelength (ValueError in the dependency)"


def coeff_eval(c, z):
    A1, A2, Ar, Ai, a1, a3 = c
    return (A1 * np.exp(a1 * z) + A2 * np.exp(-a1 * z) + 2 * np.real((Ar + 1j * Ai) * np.exp(1j * a3 * z))).real


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    done = 0
    while done < case["n"]:
        s = stacks.rand_stack(rng, coherent=(case["kind"] != "partly"), kmax=1.0, force_profile=True, nmax=5)
        if case["kind"] == "coeff":
            s["pol"] = "u"
        if not usable(s):
            continue
        done += 1
        nl = len(s["ds"])
        layers = [l for l in range(1, nl + 1) if rng.random() < 0.7] or [nl]
        if rng.random() < 0.25:
            layers = list(range(1, nl + 1))
        arg = None if (layers == list(range(1, nl + 1)) and rng.random() < 0.5) else list(layers)
        dmin = min(s["ds"][l - 1] for l in layers)
        spacing = float(max(sum(s["ds"]) / 3999.7, min(dmin / rng.uniform(4, 60), 20.0)))
        z, lay = grid(s, spacing, layers)
        st = stacks.build(s)
        o = stacks.opts(s, depth_spacing=spacing * 1e-9)
        try:
            r = st.calculate(o, profile=True, layers=arg)
            cs, cp = [None, None]
            if s["pol"] == "u":
                cs, cp = (np.asarray(stacks.build(s).calculate(dict(o, pol=q), profile=True, layers=arg)["profile_coeff"]) for q in "sp")
        except ValueError as e:
            if "Incompatible absorption analytical functions" in str(e) and not s["coh"]:
                ob.fail("completes", "profile of a partly coherent stack: %s" % e, INCOMP)
                continue
            raise
        P = np.asarray(r["profile"])
        ob.event("profiles observed", len(s["wl"]))
        if not ob.check("samples: number", P.shape == (len(s["wl"]), len(z)), "profile has shape %s, expected %s wavelengths x %d depths" % (P.shape, len(s["wl"]), len(z))):
            continue
        if P.size == 0:
            continue
        ob.check("non-negative", P.min() >= 0 and np.all(np.isfinite(P)), "profile minimum %g" % P.min())
        r0 = stacks.build(s).calculate(o)
        for k in ("R", "T", "A", "A_per_layer"):
            ob.close("profile does not change R, A, T", r[k], r0[k], 1e-12, msg=k)
        rp = st.calculate_profile(o, layers=arg)
        ob.close("same as calculate", rp["profile"], P, 1e-15, rtol=1e-12, msg="calculate_profile")
        Al = np.asarray(r["A_per_layer"])
        C = np.asarray(r["profile_coeff"])
        if not ob.check("coefficients: shape", C.shape == (6, len(layers), len(s["wl"])), "profile_coeff has shape %s" % (C.shape,)):
            continue
        inc_k = max([mk(m).k(w * 1e-9) for m, c in zip(s["layers"], s["cl"]) if c == "i" for w in s["wl"]] + [0.0])
        for i, w in enumerate(s["wl"]):
            reaching = 1 - float(np.real(r["R"][i]))
            for l in range(1, nl + 1):
                A_l = float(Al[i, l - 1])
                if l in layers:
                    m = lay == l
                    zz, p = z[m], P[i, m]
                    d = s["ds"][l - 1]
                    if A_l > 1e-4:
                        ob.fp(s["layers"], s["ds"], s["th"], s["pol"], l)
                    cl = C[:, layers.index(l), i]
                    if s["cl"][l - 1] == "c":
                        if s["pol"] == "u":
                            want = sum(density(dict(s, pol=q), w, l, zz) for q in "sp") / 2
                            dense = sum(density(dict(s, pol=q), w, l, np.linspace(0, d, 201)) for q in "sp") / 2
                        else:
                            want = density(s, w, l, zz)
                            dense = density(s, w, l, np.linspace(0, d, 201))
                        top = float(np.max(np.abs(dense)))
                        # solvers agree to O(k) in absorbing incoherent surroundings
                        tol = 1e-6 * top + 1e-12 + (3 * inc_k * top if inc_k else 0)
                        keep = np.ones(len(zz), bool)
                        if not s["coh"]:
                            # the dependency blanks profiles where (almost) nothing arrives
                            keep = p != 0 if np.all(p == 0) and reaching - Al[i, :l - 1].sum() < 1e-4 else keep
                        if 1e-6 < reaching:
                            ob.close("coherent profile value", p[keep], want[keep], tol, msg="profile in coherent layer %d" % l)
                            ob.close("coefficients reproduce profile", np.maximum(coeff_eval(cl, zz), 0)[keep], p[keep], 1e-7 * top + 1e-12 + 1e-6 * tol, msg="profile_coeff of coherent layer %d" % l)
                        if not s["coh"]:
                            zf = np.linspace(0, d, 4001)
                            ob.close("coefficients integral (partly coherent)", np.trapz(coeff_eval(cl, zf), zf), A_l, 1e-6 + 2e-3 * A_l + 3 * inc_k, msg="integral of profile_coeff in coherent layer %d" % l)
                            if d / spacing > 25:
                                est = np.trapz(p, zz) + p[-1] * (d - zz[-1]) + p[0] * zz[0]
                                ob.close("profile integral", est, A_l, 2e-2 * A_l + spacing * np.max(p) + 3 * inc_k + 1e-6, msg="integral over coherent layer %d" % l)
                        else:
                            zf = np.linspace(0, d, 4001)
                            ob.close("profile integral", np.trapz(coeff_eval(cl, zf), zf), A_l, 1e-6 + 1e-3 * A_l, msg="coherent layer %d" % l)
                    elif A_l > 1e-7 and len(zz) > 3:
                        alpha = 4 * np.pi * mk(s["layers"][l - 1]).k(w * 1e-9) / w
                        if np.any(p > 0):
                            ob.close("incoherent profile shape", p / p[0], np.exp(-alpha * (zz - zz[0])), 1e-6, msg="profile in incoherent layer %d" % l)
                        est = np.trapz(p, zz) + p[-1] * (d - zz[-1]) + p[0] * zz[0]
                        if reaching > 1e-4 and 1 - np.cumsum(Al[i])[-1] - float(r["R"][i]) > 1e-4:
                            ob.close("profile integral", est, A_l, A_l * (2.5 * spacing / d + alpha * spacing) + 4 * inc_k + 1e-6, msg="integral over incoherent layer %d" % l)
                        # the exponential starts from the power that reaches the layer
                        if s["pol"] != "u" or True:
                            reach = reaching - Al[i, :l - 1].sum()
                            ob.close("coefficients: incoherent layer scale", cl[1].real, alpha * reach, alpha * (1e-6 + 8 * inc_k),
                                     msg="leading coefficient of incoherent layer %d" % l)
        if s["pol"] == "u":
            for j, l in enumerate(layers):
                tops = np.max(np.abs(C[:4, j])) + 1e-12
                ob.close("coefficients: u is mean of s and p", C[:4, j], (cs[:4, j] + cp[:4, j]) / 2, 1e-6 * tops, msg="profile_coeff of layer %d (%s)" % (l, s["cl"][l - 1]))
                ob.close("coefficients: u is mean of s and p", C[4:, j], cs[4:, j], 1e-12, rtol=1e-6, msg="decay constants of layer %d" % l)
        # depths chosen by the caller
        if case["kind"] == "coherent":
            l = int(rng.choice(layers))
            zz = np.sort(rng.uniform(0.001, 0.999, 5)) * s["ds"][l - 1]
            e = st.calculate(o, profile=True, layers=[l], dist=zz + sum(s["ds"][:l - 1]))
            for i, w in enumerate(s["wl"]):
                want = sum(density(dict(s, pol=q), w, l, zz) for q in ("sp" if s["pol"] == "u" else s["pol"])) / (2 if s["pol"] == "u" else 1)
                ob.close("explicit depths", np.asarray(e["profile"])[i], want, 1e-6 * np.max(np.abs(want)) + 1e-12, msg="profile at explicit depths")
