"""P04 lookup tables hold what a direct planar calculation gives, for both sides, and survive storage."""
import os
import numpy as np
from rfv import stacks, ref_tmm
from rfv.mats import mk

ID = "P04"
RULE = ("random interface stacks (1-4 layers) tabulated by the real make_TMM_lookuptable; every entry (side, polarisation, "
        "wavelength, angle, layer) is compared with a direct calculation of the stack as seen from that side and, away from "
        "total reflection, with an independent solver; non-trivial: the table holds reflectances in (0.001, 0.999)")
REQUIRED = ["entry = direct calculation", "entry = independent solver", "rear layers keep front labels", "u is the mean of s and p",
            "power balance", "angle grid", "profile coefficients front", "profile coefficients rear", "reload equals fresh",
            "stale table replaced on request", "existing table reused", "requested sides only"]


def cases(rng, tier):
    n = 216 if tier == "quick" else 3000
    return [dict(kind=["table", "profile", "storage"][i % 3], seed=int(rng.integers(1 << 31))) for i in range(n)]


def flip(s, th=None):
    return dict(s, layers=s["layers"][::-1], ds=s["ds"][::-1], cl=s["cl"][::-1], inc=s["tr"], tr=s["inc"])


def run(case, ob):
    import xarray as xr
    from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
    from rayflare.options import default_options
    rng = np.random.default_rng(case["seed"])
    s = stacks.rand_stack(rng, coherent=bool(case["kind"] != "table" or rng.random() < 0.6), nmax=5, inc_choices=(1.0, 1.0, 1.5), kmax=0.8,
                          force_profile=True)
    if not s["coh"]:
        # keep the partly coherent model inside its range of validity
        s["layers"] = [[max(m[0], 1.2), min(m[1], 1e-3 if c == "i" else 0.5), m[2], 0.0] for m, c in zip(s["layers"], s["cl"])]
    s["tr"] = [float(rng.uniform(1.6, 4.0)), float(rng.choice([0, 0, 1e-4])), 0.0, 0.0]
    nl = len(s["ds"])
    na = int(rng.integers(4, 14))
    o = default_options()
    o.wavelength = np.array(s["wl"]) * 1e-9
    o.lookuptable_angles = na
    o.pol = s["pol"]
    prof = sorted(int(l) for l in rng.choice(np.arange(1, nl + 1), rng.integers(1, nl + 1), replace=False)) if case["kind"] == "profile" else None
    kw = dict(coherent=s["coh"], coherency_list=None if s["coh"] else list(s["cl"]), prof_layers=prof)
    sides = [1, -1]
    if case["kind"] == "storage" and rng.random() < 0.7:
        sides = [[1], [-1], [-1, 1], [1, -1]][int(rng.integers(4))]
        kw["sides"] = list(sides)
    try:
        tab = make_TMM_lookuptable(stacks.solcore_layers(s), mk(s["inc"]), mk(s["tr"]), "surf", o, ob.dir, **kw)
    except ValueError as e:
        if "Incompatible absorption" in str(e):
            return
        raise
    ob.event("tables built")
    ang = np.asarray(tab.angle)
    ob.check("angle grid", len(ang) == na and abs(ang[0]) < 1e-12 and np.pi / 2 - 3e-3 < ang[-1] < np.pi / 2 and np.all(np.diff(ang) > 0)
             and np.allclose(np.diff(ang), np.diff(ang)[0]), "angle coordinate %s" % ang)
    ob.close("angle grid", np.asarray(tab.wl), np.array(s["wl"]), 1e-6, msg="wavelength coordinate (nm)")
    ob.check("angle grid", sorted(np.asarray(tab.side).tolist()) == sorted(sides) and set(np.asarray(tab.pol).tolist()) == {"s", "p", "u"}, "sides %s" % tab.side.values)
    if kw.get("sides"):
        ob.check("requested sides only", True)
    kmax = 0.0 if s["coh"] else 1e-3
    for side in sides:
        f = s if side == 1 else flip(s)
        for a in ang[rng.choice(len(ang), min(5, len(ang)), replace=False)]:
            if stacks.evanescent_incoherent(dict(f, th=float(a))):
                continue        # see P01: the intensity model is undefined there
            got = {}
            for pol in "spu":
                sub = tab.sel(side=side, pol=pol).sel(angle=a)
                got[pol] = {k: np.asarray(sub[k].transpose(..., *(["layer"] if k == "Alayer" else []))).reshape(len(s["wl"]), -1) for k in ("R", "T", "Alayer")}
            ob.close("u is the mean of s and p", np.hstack([got["u"][k] for k in got["u"]]),
                     np.hstack([(got["s"][k] + got["p"][k]) / 2 for k in got["u"]]), 1e-9, msg="side %d angle %g" % (side, a))
            for pol in "sp":
                q = dict(f, th=float(a), pol=pol)
                d = stacks.build(q).calculate(stacks.opts(q))
                Al = np.asarray(d["A_per_layer"])
                Al = np.maximum(Al if side == 1 else Al[:, ::-1], 0)
                ob.close("entry = direct calculation", got[pol]["R"][:, 0], np.maximum(np.real(d["R"]), 0), 1e-9, msg="R side %d pol %s" % (side, pol))
                ob.close("entry = direct calculation", got[pol]["T"][:, 0], np.maximum(np.real(d["T"]), 0), 1e-9, msg="T side %d pol %s" % (side, pol))
                ob.close("entry = direct calculation", got[pol]["Alayer"], Al, 1e-9, msg="Alayer side %d pol %s" % (side, pol))
                ob.close("power balance", got[pol]["R"][:, 0] + got[pol]["T"][:, 0] + got[pol]["Alayer"].sum(1), np.ones(len(s["wl"])), 1e-6, msg="side %d" % side)
                if np.any((got[pol]["R"] > 1e-3) & (got[pol]["R"] < 0.999)):
                    ob.fp(s["layers"], s["ds"], side, float(a), pol)
                if stacks.degenerate(q) or stacks.evanescent_incoherent(q):
                    continue
                for i, w in enumerate(s["wl"]):
                    ns = stacks.indices(q, w)
                    if ns[-1].real < ns[0].real * np.sin(a) * 1.01 or ns[0].imag > 0:
                        continue
                    x = ref_tmm.coherent(ns, q["ds"], a, w, pol) if s["coh"] else ref_tmm.incoherent(ns, q["ds"], q["cl"], a, w, pol)
                    xa = x["A_layers"] if side == 1 else x["A_layers"][::-1]
                    ob.close("entry = independent solver", [got[pol]["R"][i, 0], got[pol]["T"][i, 0]], [x["R"], x["T"]], 1e-6, msg="side %d" % side)
                    ob.close("rear layers keep front labels" if side == -1 else "entry = independent solver", got[pol]["Alayer"][i], xa,
                             1e-6 + 3 * kmax, msg="Alayer side %d" % side)
                    if prof and s["coh"]:
                        c = ref_tmm.Coherent(ns, q["ds"], a, w, pol)
                        for l in prof:
                            ll = l if side == 1 else nl + 1 - l
                            d_l = q["ds"][ll - 1]
                            if 2 * np.pi * d_l / w * c.kz[ll].imag > 12:
                                continue
                            z = np.linspace(0, d_l, 9)
                            co = tab["Aprof"].sel(side=side, pol=pol, layer=l).sel(angle=a).isel(wl=i)
                            C = {n: float(co.sel(coeff=n)) for n in ("A1", "A2", "A3_r", "A3_i", "a1", "a3")}
                            val = C["A1"] * np.exp(C["a1"] * z) + C["A2"] * np.exp(-C["a1"] * z) + 2 * np.real((C["A3_r"] + 1j * C["A3_i"]) * np.exp(1j * C["a3"] * z))
                            want = c.absorption_density(ll, z)
                            ob.close("profile coefficients " + ("front" if side == 1 else "rear"), val, want, 1e-5 * np.max(np.abs(want)) + 1e-10,
                                     msg="layer %d seen from side %d" % (l, side))
    if case["kind"] == "storage":
        path = os.path.join(ob.dir, "surf.nc")
        ob.check("reload equals fresh", os.path.isfile(path), "no stored table")
        fresh = {k: np.asarray(tab[k]) for k in ("R", "T", "Alayer")}
        tab.close()
        with xr.open_dataset(path) as t2:
            for k in fresh:
                ob.close("reload equals fresh", np.asarray(t2[k]), fresh[k], 0.0, msg=k)
        # another stack under the same name: reused without overwrite, replaced with overwrite
        s3 = dict(s, ds=[d * 1.7 for d in s["ds"]])
        t3 = make_TMM_lookuptable(stacks.solcore_layers(s3), mk(s["inc"]), mk(s["tr"]), "surf", o, ob.dir, **kw)
        for k in fresh:
            ob.close("existing table reused", np.asarray(t3[k]), fresh[k], 0.0, msg=k)
        t3.close()
        t4 = make_TMM_lookuptable(stacks.solcore_layers(s3), mk(s["inc"]), mk(s["tr"]), "surf", o, ob.dir, overwrite=True, **kw)
        os.makedirs(os.path.join(ob.dir, "b"))
        t5 = make_TMM_lookuptable(stacks.solcore_layers(s3), mk(s["inc"]), mk(s["tr"]), "surf", o, os.path.join(ob.dir, "b"), **kw)
        for k in fresh:
            ob.close("stale table replaced on request", np.asarray(t4[k]), np.asarray(t5[k]), 0.0, msg=k)
        t4.close()
        t5.close()
