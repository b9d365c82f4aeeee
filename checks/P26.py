"""P26 different methods agree on structures they can all describe."""
import os
import numpy as np
from rfv import bins as B, grating as gr, matsys, ref_tmm
from rfv.core import seed_all
from rfv.mats import mk, rand_mat
from checks.P20 import expected_orders, grazing

ID = "P26"
TECHNIQUE = ("differential runtime monitor: the same structure handed to every method that can describe it (planar optics, matrix method with every assignment of methods to interfaces, ray tracing, wave optics), "
             "all judged by one independent exact answer, with the sampling error of ray-traced parts propagated through the combination of interfaces")
RULE = ("random planar film stacks, film-bulk-film devices, devices with an ideal, textured or diffracting surface; every combination of methods for the interfaces; s, p and u polarisation, several wavelengths, dispersive media; "
        "non-trivial: at least three of R, T, bulk and film absorption exceed 1 %")
REQUIRED = ["film stack: TMM", "film stack: RCWA", "film stack: matrices", "film stack: profiles", "device: TMM", "device: ray tracing", "device: matrices", "assignment totals", "assignment film layers", "assignment conserves power",
            "interface profile belongs to its layer", "grating device totals", "grating device film layers", "textured device", "textured conserves power", "order of layers"]
CASE_LIMIT = 250


def cases(rng, tier):
    n = 63 if tier == "quick" else 5000
    kinds = ["assign", "stack", "assign", "device", "grating", "assign", "ideal", "textured", "exact"]
    cost = dict(assign=3, textured=6, device=3)
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31)), cost=cost.get(kinds[i % len(kinds)], 1), big=tier != "quick") for i in range(n)]


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    seed_all(case["seed"])
    globals()["k_" + case["kind"]](case, ob, rng)


# ---------------------------------------------------------------- descriptions
def films(rng, n=None, lossless=False):
    n = n or int(rng.integers(1, 4))
    return dict(mats=[[float(rng.uniform(1.25, 3.3)), 0.0 if lossless or rng.random() < 0.25 else float(10 ** rng.uniform(-2.5, -0.3)), float(rng.choice([0, 0.15])), float(rng.choice([0, 1]))] for _ in range(n)],
                ds=[float(np.round(10 ** rng.uniform(1, 2.2), 1)) for _ in range(n)])


def layers(f):
    from solcore.structure import Layer
    return [Layer(d * 1e-9, mk(m)) for d, m in zip(f["ds"], f["mats"])]


def device(rng, lossless=False, none=True):
    nb = float(rng.uniform(1.4, 3.6))
    d = dict(inc=[float(rng.choice([1.0, 1.0, 1.3])), 0, 0, 0], f=films(rng, lossless=lossless), bulk=[nb, 10 ** rng.uniform(-5.5, -4), float(rng.choice([0, 0.1])), float(rng.choice([0, 1]))], r=films(rng, lossless=lossless),
             tr=[float(rng.uniform(1.0, 1.5)), 0, 0, 0], wl=np.sort(rng.uniform(450, 1300, int(rng.integers(1, 4)))) * 1e-9, pol=str(rng.choice(["s", "p", "u"])))
    d["tr"][0] = max(d["tr"][0], d["inc"][0])
    d["w"] = float(10 ** rng.uniform(-1.5, 0.5) / (4 * np.pi * d["bulk"][1] / 8e-7))
    d["w"] = float(np.clip(d["w"], 3e-6, 2e-3))
    return d


def options(d, **kw):
    from rayflare.options import default_options
    o = default_options()
    o.wavelength, o.pol, o.parallel, o.project_name = np.array(d["wl"]), d["pol"], False, "p"
    o.bulk_profile, o.I_thresh, o.RCWA_method = False, 1e-9, "Inkstone"
    o.depth_spacing, o.depth_spacing_bulk = 1e-9, d.get("w", 1e-5) / 60
    o.only_incidence_angle, o.random_ray_position, o.randomize_surface = False, True, False
    for k, v in kw.items():
        o[k] = v
    return o


def planar(f, up, dn, w, pol, th, rear=False):
    """R, T, A per layer in front order; th inside the medium of incidence."""
    ns = [up] + [mk(m).nk(w)[0] for m in f["mats"]] + [dn]
    ds = list(f["ds"])
    if rear:
        ns, ds = ns[::-1], ds[::-1]
    ns[0] = ns[0].real
    tir = bool(ns[-1].imag == 0 and np.real(ns[0]) * np.sin(th) > ns[-1].real)
    x = ref_tmm.coherent(ns, ds, th, w * 1e9, pol, flip_last=tir)
    return np.concatenate([[x["R"], x["T"]], x["A_layers"][::-1] if rear else x["A_layers"]])


NONE = dict(mats=[], ds=[])


def interface(name, method, f, rng, texture=None, prof=None):
    from rayflare.structure import Interface
    from rayflare import textures as tx
    q = dict(name=name)
    if method in ("TMM", "RT_TMM", "RCWA"):
        q["layers"] = layers(f)
        q["prof_layers"] = prof
    else:
        q["layers"] = []
    if method.startswith("RT"):
        q["texture"] = texture or tx.planar_surface(size=1)
    if method == "RCWA":
        a, b = float(rng.uniform(200, 500)), float(rng.uniform(200, 500))
        q.update(d_vectors=((a, 0), (0, b)), rcwa_orders=int(rng.integers(2, 6)))
    return Interface(method, **q)


def solve1(p, D):
    """R, T, A_bulk, front layers, rear layers for a single direction in the bulk."""
    (F, Bk, Rr) = p
    g = 1 / (1 - Bk[0] * Rr[0] * D * D)
    down = F[1] * g
    up = down * D * Rr[0] * D
    R, T = F[0] + up * Bk[1], down * D * Rr[1]
    Ab = down * (1 - D) + down * D * Rr[0] * (1 - D)
    return np.concatenate([[R, T, Ab], F[2:] + up * Bk[2:], down * D * Rr[2:]])


def multinomial(p, N):
    return (np.diag(p) - np.outer(p, p)) / N


def answers(res, i, nf, nr):
    rat, pp = res[0], res[1]
    v = [float(np.asarray(rat[k].isel(bulk_index=0, wl=i))) if k in rat else 0.0 for k in ("R", "T", "A_bulk")]
    lay = []
    for k, n in ((0, nf), (1, nr)):
        a = np.asarray(pp["a"][k])
        a = a[:, i, :].sum(0) if a.size else np.zeros(n)
        lay.append(a if n else np.zeros(0))
        if n == 0 and np.any(np.abs(a) > 1e-12):
            lay[-1] = a
    return v, lay[0], lay[1]


def draw_rings(rng, d, tries=60):
    """A ring for the incident light such that the ring refracted light falls into is beyond doubt at every wavelength."""
    for _ in range(tries):
        n = int(rng.integers(3, 6))
        sp = str(rng.choice(["sin", "linear"]))
        bs, edges = B.bins(n, np.pi / 2, 1e-6, sp)
        j = int(rng.integers(max(1, n - 1)))
        th = bs[j]["th"]
        tb = []
        for w in d["wl"]:
            t = np.arcsin(d["inc"][0] * np.sin(th) / float(mk(d["bulk"]).n(w)))
            k = [b["j"] for b in bs[:n] if b["th0"] - 1e-3 <= t <= b["th1"] + 1e-3]
            tb.append(bs[k[0]]["th"] if len(k) == 1 else None)
        if None in tb:
            continue
        # total reflection and grazing exits make the answer hang on the exact angle
        if all(abs(mk(d["bulk"]).n(w) * np.sin(t) / n2 - 1) > 0.03 and mk(d["bulk"]).n(w) * np.sin(t) < 0.97 * n2 for w, t in zip(d["wl"], tb) for n2 in (d["inc"][0], d["tr"][0])):
            return n, sp, j, bs[j], tb
    return None


def k_exact(case, ob, rng):
    k_assign(case, ob, rng, ["TMM", "RCWA"])


def k_assign(case, ob, rng, methods=("TMM", "RT_Fresnel", "RT_TMM", "RCWA")):
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import BulkLayer, Structure
    while True:
        d = device(rng)
        x = draw_rings(rng, d)
        if x:
            break
    n, sp, j, b, tb = x
    ms = [str(rng.choice(methods)) for _ in range(2)]
    if rng.random() < 0.15:
        ms[1] = "Mirror"
    F = NONE if ms[0] == "RT_Fresnel" else d["f"]
    Rr = NONE if ms[1] in ("RT_Fresnel", "Mirror") else d["r"]
    N = 300 if not case["big"] else 3000           # rays per column
    sym, caz = float(rng.choice([np.pi / 2, np.pi, np.pi / 4])), float(rng.choice([1e-6, 0.2]))
    cols = len(B.bins(n, sym, caz, sp)[0]) // 2
    prof = [None, None]
    for k, m in enumerate(ms):
        if m in ("TMM", "RCWA") and rng.random() < 0.6:
            nl = len((F, Rr)[k]["ds"])
            prof[k] = sorted(int(v) + 1 for v in rng.permutation(nl)[:int(rng.integers(1, nl + 1))])
    o = options(d, n_theta_bins=n, theta_spacing=sp, phi_symmetry=sym, c_azimuth=caz, theta_in=float(b["th0"] + rng.uniform(0.05, 0.95) * (b["th1"] - b["th0"])), phi_in=float(rng.uniform(0.01, 6.2)), nx=10, ny=10, n_rays=N * cols,
                lookuptable_angles=400, only_incidence_angle=bool(rng.random() < 0.5), bulk_profile=bool(rng.random() < 0.3))
    sc = Structure([interface("front", ms[0], F, rng, prof=prof[0]), BulkLayer(d["w"], mk(d["bulk"]), name="b"), interface("rear", ms[1], Rr, rng, prof=prof[1])], incidence=mk(d["inc"]), transmission=mk(d["tr"]))
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    msg = "%s | %.3g um bulk | %s, %d rings (%s), ring %d, pol %s" % (ms[0], d["w"] * 1e6, ms[1], n, sp, j, d["pol"])
    ob.event("assignment " + "/".join(ms))
    exact = not any(m.startswith("RT") for m in ms)
    for i, w in enumerate(d["wl"]):
        nb = mk(d["bulk"]).nk(w)[0]
        D = float(np.exp(-4 * np.pi * nb.imag / w * d["w"] / np.cos(tb[i])))

        def params(dt=0.0):
            p = [planar(F, d["inc"][0] + 0j, nb, w, d["pol"], b["th"] + dt), planar(F, d["inc"][0] + 0j, nb, w, d["pol"], tb[i] + dt, rear=True)]
            p.append(np.array([1.0, 0.0]) if ms[1] == "Mirror" else planar(Rr, nb, d["tr"][0] + 0j, w, d["pol"], tb[i] + dt))
            return p
        p = params()
        want = solve1(p, D)
        v, a0, a1 = answers(res, i, len(F["ds"]), len(Rr["ds"]))
        got = np.concatenate([v, a0, a1])
        if not ob.check("assignment film layers", len(got) == len(want), "%d numbers for %d layers: %s" % (len(got), len(want), msg)):
            return
        tol = np.full(len(want), 2e-4)
        if not exact:
            var = np.zeros(len(want))
            J = []
            for k in range(3):
                if not (ms[0] if k < 2 else ms[1]).startswith("RT"):
                    continue
                Jk = np.zeros((len(want), len(p[k])))
                for q in range(len(p[k])):
                    h = 1e-6
                    pq = [x.copy() for x in p]
                    pq[k][q] += h
                    Jk[:, q] = (solve1(pq, D) - want) / h
                C = multinomial(np.clip(p[k], 0, 1), N)
                var += np.einsum("iq,qr,ir->i", Jk, C, Jk)
                J.append(np.abs(Jk).max(1))
            shift = np.max([np.abs(solve1(params(s), D) - want) for s in (-0.004, 0.004)], 0)
            tol = 6.5 * np.sqrt(np.maximum(var, 0)) + 10 / N * np.max(J, 0) + shift + 1e-3
        lab = ["R", "T", "A_bulk"] + ["front layer %d" % (k + 1) for k in range(len(a0))] + ["rear layer %d" % (k + 1) for k in range(len(a1))]
        for k in range(len(want)):
            ob.close("assignment totals" if k < 3 else "assignment film layers", got[k], want[k], tol[k], msg="%s, wl %.1f nm: %s" % (lab[k], w * 1e9, msg))
        ob.close("assignment conserves power", got.sum(), 1.0, 1e-6, msg=msg)
        if (np.array(v) > 0.01).sum() + (got[3:].sum() > 0.01) >= 3:
            ob.fp(ms, n, j, i, np.round(want, 6).tolist())
    if any(prof) and len(res) > 2:
        profiles(ob, d, o, res, prof, [F, Rr], msg)


def profiles(ob, d, o, res, prof, fs, msg):
    """Every film's profile lies at its depths and adds up to its absorption; layers not asked for have none."""
    k = [i for i in (0, 1) if prof[i]]
    if not ob.check("interface profile belongs to its layer", len(res[2]) == len(k), "%d profiles for %d interfaces: %s" % (len(res[2]), len(k), msg)):
        return
    dz = o["depth_spacing"] * 1e9
    for p, q in zip(res[2], k):
        P = np.asarray(p)
        edges = np.concatenate([[0], np.cumsum(fs[q]["ds"])])
        z = np.arange(0, edges[-1], dz)
        # only depths in the layers asked for are stored
        z = np.concatenate([z[(z >= edges[l - 1] - 1e-6) & (z < edges[l] - 1e-6)] for l in prof[q]])
        if not ob.check("interface profile belongs to its layer", abs(P.shape[1] - len(z)) <= (1 if len(prof[q]) == 1 else 0), "%d depths, expected %d for layers %s of %s nm: %s" % (P.shape[1], len(z), prof[q], fs[q]["ds"], msg)):
            continue
        z, P = z[:P.shape[1]], P[:, :len(z)]
        for i in range(P.shape[0]):
            a = answers(res, i, len(fs[0]["ds"]), len(fs[1]["ds"]))[1 + q]
            for l in range(len(fs[q]["ds"])):
                m = (z > edges[l] + 1e-6) & (z < edges[l + 1] - 1e-6)
                if l + 1 not in prof[q] or m.sum() < 3:
                    continue
                got = P[i, m].sum() * dz
                ends = dz * (abs(P[i, m][0]) + abs(P[i, m][-1]))
                ob.close("interface profile belongs to its layer", got, a[l], 1e-5 + 1.1 * ends, 0.03, msg="interface %d layer %d of %s: %s" % (q + 1, l + 1, fs[q]["ds"], msg))


def k_ideal(case, ob, rng):
    """Planar front (any exact method), bulk, ideal rear: a ring model of the whole device."""
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import BulkLayer, Structure
    d = device(rng, lossless=True)
    d["bulk"][0] = float(rng.uniform(1.4, 2.5))
    n = int(rng.integers(2, 8))
    sp = str(rng.choice(["sin", "linear"]))
    bs, edges = B.bins(n, 2 * np.pi, 1e-6, sp)
    bulk = mk(d["bulk"])

    def ring(t):
        return sorted({b["j"] for b in bs if b["th0"] - 1e-6 <= t <= b["th1"] + 1e-6})
    front = str(rng.choice(["TMM", "RCWA", "TMM"]))
    j = int(rng.integers(n))
    o = options(d, n_theta_bins=n, theta_spacing=sp, phi_symmetry=float(rng.choice([np.pi / 2, np.pi, np.pi / 4])), c_azimuth=float(rng.choice([1e-6, 0.2, 0.5])),
                theta_in=float(bs[j]["th0"] + rng.uniform(0.05, 0.95) * (bs[j]["th1"] - bs[j]["th0"])), phi_in=float(rng.uniform(0.01, 6.2)), I_thresh=1e-8)
    sc = Structure([interface("front", front, d["f"], rng), BulkLayer(d["w"], bulk, name="b"), interface("rear", "Lambertian", NONE, rng)], incidence=mk(d["inc"]), transmission=mk(d["tr"]))
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    msg = "%s | %.3g um | Lambertian, %d rings (%s) ring %d pol %s" % (front, d["w"] * 1e6, n, sp, j, d["pol"])
    lam = np.array([np.sin(b["th1"]) ** 2 - np.sin(b["th0"]) ** 2 for b in bs[:n]])
    b1 = np.zeros((2 * n, n))
    b1[:n] = lam[:, None]
    for i, w in enumerate(d["wl"]):
        nb = bulk.nk(w)[0]
        ni = d["inc"][0]
        f0, g0 = np.zeros((2 * n, n)), np.zeros((2 * n, n))
        a0, ag = np.zeros((len(d["f"]["ds"]), n)), np.zeros((len(d["f"]["ds"]), n))
        ok = True
        for c in range(n):
            th = bs[c]["th"]            # c counts rings from the pole, columns of rear matrices from the horizon
            p = planar(d["f"], ni + 0j, nb, w, d["pol"], th)
            k = ring(np.pi - np.arcsin(ni * np.sin(th) / nb.real))
            ok &= c != j or len(k) == 1
            f0[c, c], f0[k[0], c], a0[:, c] = p[0], p[1], p[2:]
            p = planar(d["f"], ni + 0j, nb, w, d["pol"], th, rear=True)
            cc = n - 1 - c
            g0[n + cc, cc], ag[:, cc] = p[0], p[2:]
            s = nb.real * np.sin(th) / ni
            if s < 1:
                g0[ring(np.arcsin(s))[0], cc] = p[1]
            ok &= abs(s - 1) > 0.01
        if not ok:
            continue
        x = matsys.solve(f0, a0, g0, ag, b1, np.zeros((1, n)), 4 * np.pi * nb.imag / w, d["w"], bs, 2 * np.pi, np.eye(n)[j])
        v, al, _ = answers(res, i, len(d["f"]["ds"]), 0)
        tol = 5e-4 + 1e-8 / (1 - x["rho"])
        if x["rho"] > 0.9999:
            continue
        for k, q in (("R", 0), ("T", 1), ("A_bulk", 2)):
            ob.close("assignment totals", v[q], x[k], tol, msg="%s, wl %.1f nm: %s" % (k, w * 1e9, msg))
        ob.close("assignment conserves power", sum(v) + al.sum(), 1.0, tol, msg=msg)
        ob.fp("ideal", n, i, np.round([x["R"], x["A_bulk"]], 6).tolist())


def k_stack(case, ob, rng):
    """Coherent films without a bulk: TMM, RCWA, and both matrix generators."""
    from rayflare.transfer_matrix_method import tmm_structure, TMM
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure, RCWA
    from solcore.solar_cell import SolarCell
    f = films(rng, int(rng.integers(1, 5)))
    d = dict(wl=np.sort(rng.uniform(400, 1300, int(rng.integers(1, 4)))) * 1e-9, pol=str(rng.choice(["s", "p", "u"])))
    inc, tr = [1.0, 0, 0, 0], [float(rng.uniform(1.0, 3.5)), float(rng.choice([0, 0.01, 0.3])), 0, 0]
    n = int(rng.integers(2, 6))
    bs, _ = B.bins(n, np.pi, 1e-6, "sin")
    c = int(rng.integers(n))
    th, ph = bs[c]["th"], float(rng.uniform(0, 6.2))
    size = ((float(rng.uniform(200, 500)), 0), (float(rng.choice([0, 60])), float(rng.uniform(200, 500))))
    o = options(d, n_theta_bins=n, theta_spacing="sin", phi_symmetry=np.pi, c_azimuth=1e-6, theta_in=th, phi_in=ph, orders=3, depth_spacing=1e-9)
    msg = "%s nm of %s on %s theta %.3f pol %s" % (f["ds"], [m[:2] for m in f["mats"]], tr[:2], th, d["pol"])
    t = tmm_structure(layers(f), incidence=mk(inc), transmission=mk(tr))
    rt_ = t.calculate(o, profile=True)
    g = rcwa_structure(layers(f), size, o, mk(inc), mk(tr))
    rg = g.calculate(o)
    want = np.array([planar(f, 1 + 0j, mk(tr).nk(w)[0], w, d["pol"], th) for w in d["wl"]])
    for name, r in (("film stack: TMM", rt_), ("film stack: RCWA", rg)):
        got = np.column_stack([np.asarray(r["R"]), np.asarray(r["T"]), np.asarray(r["A_per_layer"])])
        ob.close(name, got, want, 2e-5, msg=msg)
        ob.close("order of layers", got[:, 2:], want[:, 2:], 2e-5, msg=msg)
    try:
        pg = g.calculate_profile(o)
        a, b = np.asarray(rt_["profile"]), np.asarray(pg["profile"])
        edges = np.concatenate([[0], np.cumsum(f["ds"])])
        m = min(a.shape[1], b.shape[1])
        z = np.arange(m) * 1.0
        inner = np.min(np.abs(z[:, None] - edges[None]), 1) > 1e-6
        inner &= z < edges[-1]
        for i in range(len(d["wl"])):
            ob.close("film stack: profiles", b[i, :m][inner], a[i, :m][inner], 3e-3 * a[i].max() + 1e-6, msg=msg)
    except np.linalg.LinAlgError:
        pass
    for name, rear in (("front", False), ("rear", True)):
        if rear and tr[1] > 0:
            continue
        if rear and tr[0] * np.sin(th) > 0.97:
            continue
        ref = np.array([planar(f, 1 + 0j, mk(tr).nk(w)[0], w, d["pol"], th, rear=rear) for w in d["wl"]])
        for how in ("TMM", "RCWA"):
            if how == "TMM":
                M, A = TMM(layers(f), mk(inc), mk(tr), "s" + name, o, ob.dir, front_or_rear=name, save=False)[:2]
            else:
                M, A = RCWA(layers(f), size, 3, o, ob.dir, mk(inc), mk(tr), front_or_rear=name, surf_name="g" + name, save=False)[:2]
            M, A = np.asarray(M.todense()), np.asarray(A.todense())
            # the column of ring c is the innermost-first one from both sides
            col = c if not rear else n - 1 - c
            up, dn = M[:, :n, col].sum(1), M[:, n:, col].sum(1)
            R, T = (dn, up) if rear else (up, dn)
            ob.close("film stack: matrices", np.column_stack([R, T]), ref[:, :2], 2e-5, msg="%s from the %s: %s" % (how, name, msg))
            ob.close("order of layers", A[:, :, col], ref[:, 2:], 2e-5, msg="%s from the %s: %s" % (how, name, msg))
    ob.fp("stack", f["ds"], th, d["pol"])


def k_device(case, ob, rng):
    """Films, incoherent bulk, films: planar optics, ray tracing of the whole device, and the matrix method with narrow rings."""
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import BulkLayer, Structure
    from rayflare.transfer_matrix_method import tmm_structure
    from rayflare.ray_tracing import rt_structure
    from rayflare import textures as tx
    from solcore.structure import Layer
    d = device(rng)
    normal = bool(rng.random() < 0.3)
    if not normal:
        d["pol"] = str(rng.choice(["s", "p"]))      # ray tracing forgets the polarisation between surfaces
    th = 0.0 if normal else float(rng.uniform(0.05, 1.1))
    two = bool(rng.random() < 0.35)                 # a second bulk layer, with films in between (not in the matrix method)
    mid, b2, w2 = films(rng), [float(rng.uniform(1.4, 3)), float(10 ** rng.uniform(-5.5, -4)), 0, 0], float(10 ** rng.uniform(-5.3, -3.7))
    bulks = [(d["bulk"], d["w"])] + ([(b2, w2)] if two else [])
    fs = [d["f"]] + ([mid] if two else []) + [d["r"]]
    ls, clist, where = [], [], []
    for k, f in enumerate(fs):
        ls += layers(f)
        clist += ["c"] * len(f["ds"])
        where += ["f%d" % k] * len(f["ds"])
        if k < len(bulks):
            ls.append(Layer(bulks[k][1], mk(bulks[k][0])))
            clist.append("i")
            where.append("b%d" % k)
    where = np.array(where)
    o = options(d, theta_in=th, phi_in=float(rng.uniform(0, 6.2)), coherent=False, coherency_list=clist, I_thresh=1e-4, nx=10, ny=10, n_rays=2000 if not case["big"] else 8000, lookuptable_angles=300)
    t = tmm_structure(ls, incidence=mk(d["inc"]), transmission=mk(d["tr"])).calculate(o)
    want = []
    for w in d["wl"]:
        ns = [mk(d["inc"]).nk(w)[0]] + [x.material.nk(w)[0] for x in ls] + [mk(d["tr"]).nk(w)[0]]
        x = ref_tmm.incoherent(ns, [y.width * 1e9 for y in ls], clist, th, w * 1e9, d["pol"])
        want.append(np.concatenate([[x["R"], x["T"]], x["A_layers"]]))
    want = np.array(want)
    msg = "%s, theta %.3f pol %s, bulk %.3g um" % (where.tolist(), th, d["pol"], d["w"] * 1e6)
    ob.close("device: TMM", np.column_stack([t["R"], t["T"], t["A_per_layer"]]), want, 2e-3, msg=msg)
    ob.event("two bulks" if two else "one bulk")
    # ray tracing
    ts = [tx.planar_surface(interface_layers=layers(f), name="i%d" % k) for k, f in enumerate(fs)]
    st = rt_structure(ts, [mk(b) for b, _ in bulks], [w for _, w in bulks], mk(d["inc"]), mk(d["tr"]), options=o, use_TMM=True, save_location=ob.dir)
    r = st.calculate(o)
    N = 2000 if not case["big"] else 8000
    for i in range(len(d["wl"])):
        v = want[i]
        AI = [np.ravel(np.asarray(x[i])) for x in r["A_per_interface"]] if "A_per_interface" in r else None
        got = [float(np.real(r["R"][i])), float(np.real(r["T"][i]))] + [float(x) for x in np.ravel(r["A_per_layer"][i])]
        ref = [v[0], v[1]] + [v[2:][where == "b%d" % k].sum() for k in range(len(bulks))]
        for k in range(len(fs)):
            if AI is not None:
                got += list(np.atleast_1d(AI[k]))
                ref += list(v[2:][where == "f%d" % k])
        if not ob.check("device: ray tracing", len(got) == len(ref), "%d numbers for %d layers: %s" % (len(got), len(ref), msg)):
            return
        for k in range(len(ref)):
            sd = np.sqrt(max(ref[k] * (1 - ref[k]), 1e-4) / N)
            ob.close("device: ray tracing", got[k], ref[k], 6 * sd + 6e-3 + 3 / N, msg="quantity %d of %s: %s" % (k, np.round(ref, 4).tolist(), msg))
        if sum(x > 0.01 for x in ref[:3]) == 3:
            ob.fp("device", i, np.round(v, 6).tolist())
    if two:
        return
    # the matrix method with rings so narrow that their middle is the direction of the light
    n = 60
    bs, _ = B.bins(n, np.pi, 1e-6, "linear")
    o2 = options(d, n_theta_bins=n, theta_spacing="linear", phi_symmetry=np.pi, c_azimuth=1e-6, theta_in=max(th, 1e-3), phi_in=0.3)
    from rayflare.structure import Interface
    sc = Structure([Interface("TMM", layers=layers(d["f"]), name="f"), BulkLayer(d["w"], mk(d["bulk"]), name="b"), Interface("TMM", layers=layers(d["r"]), name="r")], incidence=mk(d["inc"]), transmission=mk(d["tr"]))
    process_structure(sc, o2, save_location=ob.dir)
    res = calculate_RAT(sc, o2, save_location=ob.dir)
    h = np.pi / 2 / n
    for i, w in enumerate(d["wl"]):
        v, a0, a1 = answers(res, i, len(d["f"]["ds"]), len(d["r"]["ds"]))
        got = np.concatenate([v[:2], a0, [v[2]], a1])
        ns = [mk(d["inc"]).nk(w)[0]] + [x.material.nk(w)[0] for x in ls] + [mk(d["tr"]).nk(w)[0]]
        bulkn = ns[1 + len(a0)]
        near = []
        # averaged over polarisation at every interface for 'u' (exact at normal incidence up to the width of a ring)
        for s in (th - h, th, th + h):
            tb0 = np.arcsin(np.sin(abs(s)) * d["inc"][0] / bulkn.real)
            for q in (-h / 2, 0, h / 2):
                tb = abs(tb0 + q)
                D = float(np.exp(-4 * np.pi * bulkn.imag / w * d["w"] / np.cos(tb)))
                if bulkn.real * np.sin(tb) > 0.99 * d["inc"][0]:
                    continue
                near.append(solve1([planar(d["f"], ns[0], bulkn, w, d["pol"], abs(s)), planar(d["f"], ns[0], bulkn, w, d["pol"], tb, rear=True), planar(d["r"], bulkn, ns[-1], w, d["pol"], tb)], D))
        if not near:
            continue
        near = np.array(near)
        near = np.concatenate([near[:, :2], near[:, 3:3 + len(a0)], near[:, 2:3], near[:, 3 + len(a0):]], 1)
        c = near[len(near) // 2]
        wide = np.abs(near - want[i]).max(0)
        ob.close("device: matrices", got, want[i], 2 * wide + 3e-3, msg="wl %.1f nm: %s" % (w * 1e9, msg))


def k_grating(case, ob, rng):
    """A diffracting surface at the front or rear of a device."""
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import Interface, BulkLayer, Structure
    while True:
        n = int(rng.integers(2, 4))
        sym = 2 * np.pi
        caz = float(rng.choice([0.3, 0.5, 1.0]))
        sp = str(rng.choice(["sin", "linear"]))
        bs, _ = B.bins(n, sym, caz, sp)
        if matsys.unambiguous(bs, sym):
            break
    h = len(bs) // 2
    g = gr.rand(rng, nl=int(rng.integers(1, 3)), orders=int(rng.integers(3, 8)))
    g["wl"] = g["wl"][:2]
    g["pol"] = str(rng.choice(["s", "p", "u"]))
    first = bool(rng.random() < 0.5)
    nb, kb = float(rng.uniform(1.4, 2.6)), float(10 ** rng.uniform(-5, -4))
    bulk = mk([nb, kb, 0, 0])
    kk = 4 * np.pi * kb / (np.mean(g["wl"]) * 1e-9)
    w_b = float(np.clip(10 ** rng.uniform(-1.3, 0) / kk, 3e-6, 1e-2))
    other = films(rng, lossless=True)
    # the solver ignores absorption in the medium light comes from; take it out of the grating's media altogether (kb is tiny)
    if first:
        g["inc"], g["tr"] = [1.0, 0, 0, 0], [nb, kb, 0, 0]
    else:
        g["inc"], g["tr"] = [nb, kb, 0, 0], [float(rng.uniform(1, 1.6)), 0, 0, 0]
    wls = np.array(g["wl"]) * 1e-9
    d = dict(wl=wls, pol=g["pol"], w=w_b)
    inc, tr = [1.0, 0, 0, 0], ([float(rng.uniform(1, 1.5)), 0, 0, 0] if first else g["tr"])
    G = Interface("RCWA", layers=gr.layers(g), name="g", d_vectors=g["size"], rcwa_orders=g["orders"])
    P = Interface("TMM", layers=layers(other), name="t")
    sc = Structure([G, BulkLayer(w_b, bulk, name="b"), P] if first else [P, BulkLayer(w_b, bulk, name="b"), G], incidence=mk(inc), transmission=mk(tr))
    b0 = bs[int(rng.integers(h))]
    kw = {k: v for k, v in gr.options(g).items() if k not in ("wavelength", "pol", "theta_in", "phi_in")}
    kw.update(n_theta_bins=n, theta_spacing=sp, phi_symmetry=sym, c_azimuth=caz, theta_in=b0["th"], phi_in=b0["ph"], I_thresh=1e-9, project_name="p", bulk_profile=False, parallel=False)
    o = options(d, **kw)
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    msg = "grating at the %s, %d bins, %d layers, pol %s, %.3g um bulk" % ("front" if first else "rear", 2 * h, len(g["layers"]), g["pol"], w_b * 1e6)

    def put(M, c, power, t, f, normal, scale=1.0):
        k = B.locate(bs, t, f, sym, 1e-5) if not normal else [i for i in B.locate(bs, t, f, sym, 1e-5)]
        if normal:      # azimuth undefined: any bin of the first ring
            return None if len({bs[i]["j"] for i in k}) != 1 or len([b for b in bs if b["j"] == bs[k[0]]["j"]]) > 1 else M.__setitem__((k[0], c), M[k[0], c] + power)
        if len(k) != 1:
            return None
        M[k[0], c] += power

    def grating(w, rear):
        M, A = np.zeros((2 * h, h)), np.zeros((len(g["layers"]), h))
        doubt = np.zeros(h, bool)
        for c in range(h):
            b = bs[h + c if rear else c]
            th = np.pi - b["th"] if rear else b["th"]
            if grazing(g, w, th, b["ph"] + np.pi, rear, 0.01):
                doubt[c] = True
            x, orders = expected_orders(g, w, b, rear)
            A[:, c] = np.maximum(x["A"][::-1] if rear else x["A"], 0)
            r = sum(q for q, t, f, z in orders if t != np.pi / 2 and (t < np.pi / 2) != rear)
            for q, t, f, z in orders:
                up = (t < np.pi / 2) != rear
                if t == np.pi / 2:
                    doubt[c] |= q > 1e-5
                    continue
                q = q * x["R"] / max(r, 1e-300) if up else q
                k = B.locate(bs, t, f, sym, 1e-5)
                k = [i for i in k if (bs[i]["th"] < np.pi / 2) == (t < np.pi / 2)]
                ring = {bs[i]["j"] for i in k}
                if z and len([1 for y in bs if y["j"] == bs[k[0]]["j"]]) > 1:
                    doubt[c] |= q > 1e-6
                elif len(k) != 1 and not (z and len(ring) == 1):
                    doubt[c] |= q > 1e-6
                M[k[0], c] += q
        return M, A, doubt

    def film(w, up, dn, rear):
        M, A = np.zeros((2 * h, h)), np.zeros((len(other["ds"]), h))
        doubt = np.zeros(h, bool)
        for c in range(h):
            b = bs[h + c if rear else c]
            th = np.pi - b["th"] if rear else b["th"]
            p = planar(other, up, dn, w, g["pol"], th, rear=rear)
            A[:, c] = p[2:]
            k = B.locate(bs, b["th"], b["ph"] + np.pi, sym, 1e-6)
            doubt[c] |= len(k) != 1
            M[k[0], c] += p[0]
            s = (dn if rear else up).real * np.sin(th) / (up if rear else dn).real
            doubt[c] |= abs(s - 1) < 0.01
            if s < 1:
                t = np.arcsin(s)
                k = [i for i in B.locate(bs, t if rear else np.pi - t, b["ph"] + np.pi, sym, 1e-5)]
                if len(k) != 1:
                    doubt[c] |= p[1] > 1e-6
                M[k[0], c] += p[1]
        return M, A, doubt
    for i, w in enumerate(wls):
        nbw = bulk.nk(w)[0]
        if first:
            parts = [grating(g["wl"][i], False), grating(g["wl"][i], True), film(w, nbw, mk(tr).nk(w)[0], False)]
        else:
            parts = [film(w, mk(inc).nk(w)[0], nbw, False), film(w, mk(inc).nk(w)[0], nbw, True), grating(g["wl"][i], False)]
        (f0, a0, q0), (g0, ag, qg), (b1, a1, q1) = parts
        v0 = matsys.incidence_vector(bs, o["theta_in"], o["phi_in"], sym)[0]
        x = rear_order(f0, a0, g0, ag, b1, a1, 4 * np.pi * nbw.imag / w, w_b, bs, sym, v0)
        # columns in doubt matter only if light gets there
        lit = [v0 > 0, x["up_in"] > 1e-7, x["down"] > 1e-7]
        if x["rho"] > 0.9995 or any(np.any(q & l) for q, l in zip((q0, qg, q1), lit)):
            ob.event("undecided bins")
            continue
        v, l0, l1 = answers(res, i, a0.shape[0], a1.shape[0])
        tol = 1e-5 + 2e-9 / (1 - x["rho"]) + (3e-3 if kb > 3e-5 else 1e-3)
        for k, q in (("R", 0), ("T", 1), ("A_bulk", 2)):
            ob.close("grating device totals", v[q], x[k], tol, msg="%s, wl %.1f nm: %s" % (k, w * 1e9, msg))
        ob.close("grating device film layers", np.concatenate([l0, l1]), np.concatenate([x["A0"], x["A1"]]), tol, msg=msg)
        ob.fp("grating", n, i, np.round([x["R"], x["T"]], 6).tolist())


def rear_order(f0, a0, g0, ag, b1, a1, alpha, d, bs, sym, v0):
    """matsys.solve, with the incidence of rear matrices' columns by bin (they are numbered like the bins below the horizon)."""
    h = len(bs) // 2
    x = matsys.solve(f0, a0, g0, ag, b1, a1, alpha, d, bs, sym, v0)
    _, up = matsys.flips(bs, sym)
    x["up_in"] = up @ (x["D"] * x["up"])
    return x


def k_textured(case, ob, rng):
    """A textured device: the matrix method with rays at the texture against ray tracing of the whole device."""
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.ray_tracing import rt_structure
    from rayflare import textures as tx
    front = bool(rng.random() < 0.5)
    coat = bool(rng.random() < 0.5)
    ang = float(rng.uniform(20, 58))
    upright = bool(rng.random() < 0.6)
    nb, kb = float(rng.uniform(1.5, 3.6)), float(10 ** rng.uniform(-4.6, -3.8))
    wl = np.array([float(rng.uniform(600, 1100))]) * 1e-9
    w = float(np.clip(10 ** rng.uniform(-1, 0) / (4 * np.pi * kb / wl[0]), 1e-5, 1e-2))
    d = dict(wl=wl, pol="u", w=w)
    f = films(rng, int(rng.integers(1, 3))) if coat else NONE
    inc, tr = [1.0, 0, 0, 0], [float(rng.uniform(1, 1.6)), 0, 0, 0]
    n, N0 = 12, 128 if not case["big"] else 640
    cols = len(B.bins(n, np.pi / 2, 0.25, "sin")[0]) // 2
    o = options(d, n_theta_bins=n, phi_symmetry=np.pi / 2, c_azimuth=0.25, theta_spacing="sin", theta_in=float(np.arcsin(1.0 / n) / 2), phi_in=0.4, I_thresh=1e-3, nx=8, ny=8, n_rays=N0 * cols, lookuptable_angles=200,
                only_incidence_angle=False)
    kw = dict(elevation_angle=ang, upright=upright, size=1)
    t0 = tx.regular_pyramids(**kw)
    m = "RT_TMM" if coat else "RT_Fresnel"
    T = Interface(m, texture=t0, layers=layers(f) if coat else [], name="tex")
    flat = Interface("RT_Fresnel", texture=tx.planar_surface(size=1), layers=[], name="flat")
    sc = Structure([T, BulkLayer(w, mk([nb, kb, 0, 0]), name="b"), flat] if front else [flat, BulkLayer(w, mk([nb, kb, 0, 0]), name="b"), T], incidence=mk(inc), transmission=mk(tr))
    process_structure(sc, o, save_location=ob.dir)
    res = calculate_RAT(sc, o, save_location=ob.dir)
    v, a0, a1 = answers(res, 0, len(f["ds"]) if front else 0, 0 if front else len(f["ds"]))
    got = np.concatenate([v, a0, a1])
    o2 = options(d, theta_in=o["theta_in"], phi_in=0.4, nx=20, ny=20, n_rays=4000 if not case["big"] else 20000, lookuptable_angles=200, I_thresh=1e-3)
    kc = dict(interface_layers=layers(f), name="tex") if coat else {}
    t1, p1 = tx.regular_pyramids(**kw, **kc), tx.planar_surface(size=1)
    st = rt_structure([t1, p1] if front else [p1, t1], [mk([nb, kb, 0, 0])], [w], mk(inc), mk(tr), options=o2, use_TMM=coat, save_location=ob.dir)
    r = st.calculate(o2)
    N = o2["n_rays"]
    ref = [float(np.real(r["R"][0])), float(np.real(r["T"][0])), float(np.ravel(r["A_per_layer"])[0])]
    if coat:
        ref += list(np.ravel(r["A_per_interface"][0 if front else 1]))
    msg = "%.1f deg %s pyramids at the %s%s, n %.2f, %.3g um" % (ang, "upright" if upright else "inverted", "front" if front else "rear", ", %s nm coating" % f["ds"] if coat else "", nb, w * 1e6)
    ob.close("textured conserves power", got.sum(), 1.0, 2e-3, msg=msg)
    ob.close("textured conserves power", float(np.sum(ref)), 1.0, 2e-2 if coat else 2e-3, msg=msg)
    if not ob.check("textured device", len(got) == len(ref), "%d against %d numbers: %s" % (len(got), len(ref), msg)):
        return
    for k in range(len(ref)):
        sd = np.sqrt(max(ref[k] * (1 - ref[k]), 0.002) / N) + np.sqrt(max(ref[k] * (1 - ref[k]), 0.002) / N0)
        ob.close("textured device", got[k], ref[k], 5 * sd + 0.03, msg="quantity %d of %s: %s" % (k, np.round(ref, 3).tolist(), msg))
    ob.fp("textured", ang, front, coat)
