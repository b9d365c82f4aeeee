"""P02 planar multilayer results are the physical ones (independent reference + invariances)."""
import numpy as np
from rfv import stacks, ref_tmm
from rfv.mats import mk

ID = "P02"
RULE = ("random planar stacks as for P01; R, T and every layer's absorption are compared with an independent admittance / "
        "intensity-network solver per wavelength, and with re-arranged but equivalent problems (split layers, index-matched "
        "and zero-thickness insertions, reversed stack, scaled lengths, wavelengths one by one, s/p averaging); non-trivial: "
        "reference R in (0.001, 0.999)")
REQUIRED = ["reference R", "reference T", "reference A per layer", "split layer", "u is the mean of s and p",
            "wavelength independence", "reciprocity", "normal incidence s=p", "scaling", "index-matched insertion",
            "incoherent lossless thickness"]


def cases(rng, tier):
    n = 640 if tier == "quick" else 8000
    return [dict(kind=["coherent", "partly", "invariance", "tir"][i % 4], seed=int(rng.integers(1 << 31)), n=14) for i in range(n)]


def calc(s, **kw):
    return stacks.build(s).calculate(stacks.opts(s, **kw))


EVAN = "totally reflecting lossless substrate behind absorbing layers: growing instead of decaying wave"


def evanescent_substrate(s):
    for w in s["wl"]:
        ns = stacks.indices(s, w)
        if ns[-1].imag == 0 and ns[-1].real < (ns[0] * np.sin(s["th"])).real:
            return True
    return False


def ref(s, flip=False):
    out = []
    for w in s["wl"]:
        ns = stacks.indices(s, w)
        out.append(ref_tmm.coherent(ns, s["ds"], s["th"], w, s["pol"], flip and ns[-1].real < (ns[0] * np.sin(s["th"])).real) if s["coh"]
                   else ref_tmm.incoherent(ns, s["ds"], s["cl"], s["th"], w, s["pol"]))
    return {k: np.array([o[k] for o in out]) for k in ("R", "T", "A_layers")}


def sample(rng, kind):
    while True:
        s = stacks.rand_stack(rng, coherent={"coherent": True, "partly": False, "tir": True}.get(kind),
                              many=True, inc_choices=(3.5, 2.2) if kind == "tir" else (1.0, 1.0, 1.5))
        if not (stacks.degenerate(s) or stacks.evanescent_incoherent(s)):
            return s


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["n"]):
        s = sample(rng, case["kind"])
        r = calc(s)
        q = ref(s)
        kmax = 0.0
        if not s["coh"]:
            kmax = max([mk(m).k(w * 1e-9) for m, c in zip(s["layers"], s["cl"]) if c == "i" for w in s["wl"]] + [0.0])
        if evanescent_substrate(s) and (np.max(np.abs(r["R"] - q["R"])) > 1e-7 or np.max(np.abs(r["A_per_layer"] - q["A_layers"])) > 1e-6):
            g = ref(s, True)
            if max(np.max(np.abs(r["R"] - g["R"])), np.max(np.abs(r["T"] - g["T"])),
                   np.max(np.abs(r["A_per_layer"] - g["A_layers"]))) < 1e-6:
                ob.fail("reference R", "TIR at a lossless substrate: R = %s, should be %s" % (r["R"], q["R"]), EVAN)
                continue
        # strongly attenuated fields lose relative, not absolute, accuracy
        ob.close("reference R", r["R"], q["R"], 1e-7, msg="R vs independent solver")
        ob.close("reference T", r["T"], q["T"], 1e-7, msg="T vs independent solver")
        # in an absorbing incoherent medium R and T of an interface are only defined to O(k)
        ob.close("reference A per layer", r["A_per_layer"], q["A_layers"], 1e-6 + 12 * kmax, msg="A_per_layer vs independent solver")
        ob.event("reference comparisons", len(s["wl"]))
        if np.any((q["R"] > 1e-3) & (q["R"] < 0.999)):
            ob.fp(s["layers"], s["ds"], s["th"], s["pol"], s["cl"])
        if case["kind"] != "invariance":
            continue
        # wavelengths one by one, in another order
        perm = rng.permutation(len(s["wl"]))
        for i in perm:
            r1 = calc(dict(s, wl=[s["wl"][i]]))
            for k in ("R", "T", "A_per_layer"):
                ob.close("wavelength independence", np.asarray(r1[k])[0], np.asarray(r[k])[i], 1e-11, msg="single wavelength vs vector: " + k)
        # polarisation
        rs, rp, ru = (calc(dict(s, pol=p)) for p in "spu")
        for k in ("R", "T", "A_per_layer"):
            ob.close("u is the mean of s and p", ru[k], (np.asarray(rs[k]) + np.asarray(rp[k])) / 2, 1e-7 if s["coh"] else 1e-6 + kmax, msg=k)
        s0 = dict(s, th=0.0)
        a, b = calc(dict(s0, pol="s")), calc(dict(s0, pol="p"))
        for k in ("R", "T", "A_per_layer"):
            ob.close("normal incidence s=p", a[k], b[k], 1e-9, msg=k)
        # split a coherent layer
        co = [i for i, c in enumerate(s["cl"]) if c == "c"]
        if co:
            i = int(rng.choice(co))
            f = float(rng.uniform(0.1, 0.9))
            s2 = dict(s, layers=s["layers"][:i] + [s["layers"][i]] + s["layers"][i:],
                      ds=s["ds"][:i] + [s["ds"][i] * f, s["ds"][i] * (1 - f)] + s["ds"][i + 1:],
                      cl=s["cl"][:i] + ["c"] + s["cl"][i:])
            r2 = calc(s2)
            A2 = np.asarray(r2["A_per_layer"])
            m = np.delete(A2, i + 1, axis=1)
            m[:, i] += A2[:, i + 1]
            tol = 1e-7 + (0 if s["coh"] else 2 * kmax)
            ob.close("split layer", r2["R"], r["R"], 1e-7, msg="R after splitting a coherent layer")
            ob.close("split layer", r2["T"], r["T"], 1e-7, msg="T after splitting a coherent layer")
            ob.close("split layer", m, r["A_per_layer"], tol, msg="A after splitting a coherent layer")
        # an extra coherent layer of the incidence medium (index-matched): only phases change
        if s["coh"]:
            s3 = dict(s, layers=[s["inc"]] + s["layers"], ds=[float(rng.uniform(1, 300))] + s["ds"], cl=["c"] + s["cl"])
            r3 = calc(s3)
            ob.close("index-matched insertion", r3["R"], r["R"], 1e-7, msg="R with an index-matched layer in front")
            ob.close("index-matched insertion", np.asarray(r3["A_per_layer"])[:, 1:], r["A_per_layer"], 1e-7, msg="A with an index-matched layer in front")
            # scaling of all lengths (non-dispersive)
            fl = lambda m: [m[0], m[1], 0.0, 0.0]
            g = float(rng.uniform(0.6, 1.6))
            s4 = dict(s, layers=[fl(m) for m in s["layers"]], inc=fl(s["inc"]), tr=fl(s["tr"]))
            s5 = dict(s4, ds=[d * g for d in s["ds"]], wl=[w * g for w in s["wl"]])
            r4, r5 = calc(s4), calc(s5)
            for k in ("R", "T", "A_per_layer"):
                ob.close("scaling", r5[k], r4[k], 1e-8, msg=k)
        # reciprocity of transmission through lossless-terminated stacks
        tr = [s["tr"][0], 0.0, 0.0, 0.0]
        inc = [s["inc"][0], 0.0, 0.0, 0.0]
        si = inc[0] * np.sin(s["th"]) / tr[0]
        s6 = dict(s, tr=tr, inc=inc)
        if si < 0.97 and not stacks.degenerate(s6) and s["coh"]:
            s7 = dict(s6, layers=s["layers"][::-1], ds=s["ds"][::-1], cl=s["cl"][::-1], inc=tr, tr=inc, th=float(np.arcsin(si)))
            if not stacks.degenerate(s7):
                for p in "sp":
                    ob.close("reciprocity", calc(dict(s7, pol=p))["T"], calc(dict(s6, pol=p))["T"], 1e-7, msg="T of the reversed stack, pol " + p)
        # thickness of a lossless incoherent layer does not matter
        io = [i for i, c in enumerate(s["cl"]) if c == "i"]
        if io:
            i = int(rng.choice(io))
            L = [list(m) for m in s["layers"]]
            L[i][1] = 0.0
            s8 = dict(s, layers=L)
            s9 = dict(s8, ds=[d * (3.3 if j == i else 1) for j, d in enumerate(s["ds"])])
            a, b = calc(s8), calc(s9)
            for k in ("R", "T", "A_per_layer"):
                ob.close("incoherent lossless thickness", b[k], a[k], 1e-8, msg=k)
