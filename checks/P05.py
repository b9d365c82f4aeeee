"""P05 TMM redistribution matrices."""
import os
import numpy as np
from rfv import stacks, ref_tmm, bins
from rfv.mats import mk, Mat

ID = "P05"
RULE = ("random interface stacks turned into redistribution matrices by the real TMM function, front and rear, every "
        "polarisation, random numbers of polar and azimuthal bins and symmetry; every column is compared with a direct "
        "planar calculation and with specular/Snell directions located in an independent model of the bins; non-trivial: "
        "column with reflection and transmission both above 1e-3")
REQUIRED = ["column = direct calculation", "specular bin", "Snell bin", "column sum", "absorption per layer", "profile samples front",
            "profile samples rear", "integrated absorption", "saved = returned", "nothing saved when asked not to", "rear column", "partly coherent rear"]


def cases(rng, tier):
    n = 288 if tier == "quick" else 4000
    return [dict(kind=["front", "rear", "profile", "rear partly"][i % 4], seed=int(rng.integers(1 << 31))) for i in range(n)]


def run(case, ob):
    from sparse import load_npz
    from rayflare.transfer_matrix_method import TMM
    from rayflare.options import default_options
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    side = "rear" if kind.startswith("rear") else ("rear" if kind == "profile" and rng.random() < 0.5 else "front")
    while True:
        s = stacks.rand_stack(rng, coherent=(kind != "rear partly" and (kind != "front" or rng.random() < 0.6)), nmax=5,
                              inc_choices=(1.0, 1.0, 1.5, 3.5), kmax=0.5, force_profile=(kind == "profile"))
        if not s["coh"]:
            s["layers"] = [[max(m[0], 1.2), min(m[1], 1e-3 if c == "i" else 0.5), m[2], 0.0] for m, c in zip(s["layers"], s["cl"])]
            s["inc"] = [1.0, 0, 0, 0]
            s["tr"][0] = float(rng.uniform(1.0, 1.19))
            s["tr"][1] = 0.0
            if kind == "rear partly" and len(set(s["cl"])) == 1:
                continue
        break
    s["tr"][1] = 0.0 if rng.random() < 0.7 else 1e-4
    nl = len(s["ds"])
    o = default_options()
    o.wavelength = np.array(s["wl"][:3]) * 1e-9
    s["wl"] = s["wl"][:3]
    o.pol = s["pol"]
    o.n_theta_bins = int(rng.integers(3, 12))
    o.c_azimuth = float(rng.choice([0.05, 0.25, 0.5, 1.0]))
    if rng.random() < 0.1:
        o.n_theta_bins, o.c_azimuth = int(rng.integers(30, 101)), 0.01
    o.phi_symmetry = float(rng.choice([np.pi / 2, np.pi / 4, np.pi, 2 * np.pi, np.pi / 3]))
    spacing = str(rng.choice(["sin", "linear"]))
    if spacing == "linear" or rng.random() < 0.3:
        o.theta_spacing = spacing
    else:
        spacing = "sin"
    prof = None
    if kind == "profile":
        prof = sorted(int(l) for l in rng.choice(np.arange(1, nl + 1), rng.integers(1, nl + 1), replace=False))
        s["ds"] = [max(d, 20.0) + 0.123 for d in s["ds"]]
        o.depth_spacing = float(min(s["ds"][l - 1] for l in prof) / rng.uniform(5, 30)) * 1e-9
    save = bool(rng.random() < 0.6)
    res = TMM(stacks.solcore_layers(s), mk(s["inc"]), mk(s["tr"]), "sf", o, ob.dir, coherent=s["coh"],
              coherency_list=None if s["coh"] else list(s["cl"]), prof_layers=prof, front_or_rear=side, save=save, overwrite=False)
    ob.event("matrices built")
    M, A = res[0].todense(), res[1].todense()
    bs, edges = bins.bins(o.n_theta_bins, o.phi_symmetry, o.c_azimuth, spacing)
    N = len(bs)
    h = N // 2
    if not ob.check("shape", M.shape == (len(s["wl"]), N, h) and A.shape == (len(s["wl"]), nl, h), "matrix shapes %s %s" % (M.shape, A.shape)):
        return
    f = s if side == "front" else dict(s, layers=s["layers"][::-1], ds=s["ds"][::-1], cl=s["cl"][::-1], inc=s["tr"], tr=s["inc"])
    ob.between("bounds", M, -1e-12, 1 + 1e-9, "matrix entries")
    cols = rng.choice(h, min(h, 8), replace=False)
    for c in cols:
        b = bs[c] if side == "front" else bs[h + c]
        th = b["th"] if side == "front" else np.pi - b["th"]
        q = dict(f, th=float(th))
        if stacks.evanescent_incoherent(q):
            continue
        d = stacks.build(q).calculate(stacks.opts(q))
        Rd, Td = np.maximum(np.real(d["R"]), 0), np.maximum(np.real(d["T"]), 0)
        Al = np.asarray(d["A_per_layer"])
        Al = np.maximum(Al if side == "front" else Al[:, ::-1], 0)
        for i, w in enumerate(s["wl"]):
            col = M[i, :, c]
            rr = np.arange(h) if side == "front" else np.arange(h, N)
            tt = np.arange(h, N) if side == "front" else np.arange(h)
            ob.close("column = direct calculation", col[rr].sum(), Rd[i], 1e-9, msg="%s reflection of column %d" % (side, c))
            ns = stacks.indices(q, w)
            tir = ns[0].real * np.sin(th) / ns[-1].real
            ob.close("column = direct calculation", col[tt].sum(), Td[i], 1e-7, msg="%s transmission of column %d" % (side, c))
            ob.close("rear column" if side == "rear" else "absorption per layer", A[i, :, c], Al[i], 1e-9, msg="%s absorption of column %d" % (side, c))
            if side == "front" or prof:
                ob.check("absorption per layer", True)
            if kind == "rear partly" and side == "rear":
                x = ref_tmm.incoherent(ns, q["ds"], q["cl"], th, w, s["pol"]) if not s["coh"] else None
                if x and tir < 0.99:
                    ob.close("partly coherent rear", [col[rr].sum(), col[tt].sum()], [x["R"], x["T"]], 1e-6, msg="column %d vs independent solver" % c)
            ob.close("column sum", col.sum() + A[i, :, c].sum(), 1.0, 2e-7, msg="%s column %d" % (side, c))
            # specular reflection
            want = bins.locate(bs, b["th"], b["ph"] + np.pi, o.phi_symmetry)
            if Rd[i] > 1e-9:
                nz = rr[col[rr] > 1e-12]
                ob.check("specular bin", len(nz) == 1 and nz[0] in want, "reflection of column %d is in bins %s, expected one of %s" % (c, nz, want))
            if Td[i] > 1e-7 and abs(tir - 1) > 1e-3:
                nz = tt[col[tt] > 1e-12]
                if tir < 1:
                    tht = np.arcsin(tir)
                    tht = np.pi - tht if side == "front" else tht
                    want = bins.locate(bs, tht, b["ph"] + np.pi, o.phi_symmetry)
                    ob.check("Snell bin", len(nz) == 1 and nz[0] in want, "transmission of column %d is in bins %s, expected one of %s (theta %g)" % (c, nz, want, tht))
            if Rd[i] > 1e-3 and Td[i] > 1e-3:
                ob.fp(s["layers"], s["ds"], side, int(c), s["pol"], w)
            if prof:
                P = np.asarray(res[2]["profile"].transpose("wl", "z", "global_index"))
                I = np.asarray(res[2]["intgr"].transpose("wl", "global_index"))
                ob.close("integrated absorption", I[i, c], A[i, :, c].sum(), 1e-12, msg="column %d" % c)
                pos, lay = grid(s, o.depth_spacing * 1e9, prof)
                if not ob.check("profile samples " + side, P.shape[1] == len(pos), "%d samples, expected %d" % (P.shape[1], len(pos))):
                    continue
                if opaque(q, w) or stacks.degenerate(q) or ns[-1].real < ns[0].real * np.sin(th) * 1.01 or ns[0].imag != 0:
                    continue
                want = np.zeros(len(pos))
                for pol in ("sp" if s["pol"] == "u" else s["pol"]):
                    cc = ref_tmm.Coherent(ns, q["ds"], th, w, pol)
                    for l in prof:
                        m = lay == l
                        if side == "front":
                            want[m] += cc.absorption_density(l, pos[m])
                        else:
                            want[m] += cc.absorption_density(nl + 1 - l, s["ds"][l - 1] - pos[m])
                want /= 2 if s["pol"] == "u" else 1
                got = P[i, :, c]
                keep = np.ones(len(pos), bool)
                if side == "rear":
                    keep = pos > 1e-6       # the sample on the far boundary itself belongs to the next medium
                ob.close("profile samples " + side, got[keep], want[keep], 1e-6 * np.max(np.abs(want)) + 1e-12, msg="profile of column %d" % c)
    names = [os.path.join(ob.dir, "sf" + side + x) for x in ("RT.npz", "A.npz")]
    if save:
        ob.close("saved = returned", load_npz(names[0]).todense(), M, 0.0, msg="RT matrix on disk")
        ob.close("saved = returned", load_npz(names[1]).todense(), A, 0.0, msg="A matrix on disk")
        again = TMM(stacks.solcore_layers(s), mk(s["inc"]), mk(s["tr"]), "sf", o, ob.dir, coherent=s["coh"],
                    coherency_list=None if s["coh"] else list(s["cl"]), prof_layers=prof, front_or_rear=side, save=save, overwrite=False)
        ob.check("saved = returned", len(again) == len(res), "a reloaded result has %d parts, a fresh one %d" % (len(again), len(res)))
        ob.close("saved = returned", again[0].todense(), M, 0.0, msg="RT matrix reloaded")
        if prof:
            ob.close("saved = returned", np.asarray(again[2]["profile"]), np.asarray(res[2]["profile"]), 1e-15, msg="profile reloaded")
    else:
        ob.check("nothing saved when asked not to", not os.listdir(ob.dir), "files %s" % os.listdir(ob.dir))


def grid(s, spacing_nm, layers):
    from checks.P03 import grid as g
    return g(s, spacing_nm, layers)


def opaque(s, w):
    ns = stacks.indices(s, w)
    b = ns[0] * np.sin(s["th"])
    return any(2 * np.pi * d / w * np.sqrt(n ** 2 - b ** 2).imag > 12 for n, d in zip(ns[1:-1], s["ds"]))
