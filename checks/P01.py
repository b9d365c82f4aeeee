"""P01 power balance of planar multilayer calculations."""
import numpy as np
from rfv import stacks
from rfv.mats import mk, Mat

ID = "P01"
RULE = ("random planar stacks (1-5 layers, coherent / partly coherent / incoherent, absorbing or not, dispersive or "
        "not, every polarisation, 0-88.5 degrees, high-index incidence with total internal reflection), each calculated "
        "by the real tmm_structure; a case is non-trivial when at least one of R, T, A lies strictly inside (0.001, 0.999)")
REQUIRED = ["sum-to-one", "A-is-sum-of-layers", "bounds", "finite", "non-absorbing layers absorb nothing", "history"]


EVI = "partly coherent stack whose incoherent layer is beyond its critical angle: NaN or values above 1"


def cases(rng, tier):
    n = 600 if tier == "quick" else 12000
    out = []
    for i in range(n):
        out.append(dict(kind=["mixed", "lossless", "tir", "history", "nobackrefl", "inputs"][i % 6], seed=int(rng.integers(1 << 31)), n=12))
    out += [dict(kind="evanescent incoherent", seed=int(rng.integers(1 << 31)), n=40) for _ in range(4)]
    return out


def judge(ob, s, r, what, tol=1e-8):
    R, T, A, Al = (np.asarray(r[k]) for k in ("R", "T", "A", "A_per_layer"))
    nw = len(s["wl"])
    for k, x in (("R", R), ("T", T), ("A", A)):
        ob.finite("finite", x, what + k)
        if not ob.check("shape", np.shape(x) == (nw,), "%s%s has shape %s for %d wavelengths" % (what, k, np.shape(x), nw)):
            return
        ob.between("bounds", np.real(x), -1e-8, 1 + 1e-8, what + k)
    ob.finite("finite", Al, what + "A_per_layer")
    if not ob.check("shape", Al.shape[0] == nw and Al.shape[1] >= len(s["ds"]), "%sA_per_layer has shape %s" % (what, Al.shape)):
        return
    ob.between("bounds", np.real(Al), -1e-9, 1 + 1e-8, what + "A_per_layer")
    ob.close("sum-to-one", R + T + A, np.ones(nw), tol, msg=what + "R+T+A")
    # without layers that absorb, rounding decides the split; the sum over layers must still match
    ob.close("A-is-sum-of-layers", Al.sum(1), A, 1e-7, msg=what + "sum of A_per_layer vs A")
    k = np.array([[mk(m).k(w * 1e-9) for m in s["layers"]] for w in s["wl"]])
    if s["coh"]:
        z = k == 0
        if z.any():
            ob.check("non-absorbing layers absorb nothing", np.all(np.abs(Al[:, :len(s["ds"])][z]) < 1e-8),
                     what + "a layer with k=0 absorbs %g" % np.max(np.abs(Al[:, :len(s["ds"])][z])), n=int(z.sum()))
    if np.any((R > 1e-3) & (R < 0.999)):
        ob.fp(s["layers"], s["ds"], s["th"], s["pol"], s["cl"])


def run(case, ob):
    from rayflare.transfer_matrix_method import tmm_structure
    from rayflare.options import default_options
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "evanescent incoherent":
        for _ in range(case["n"]):
            s = stacks.rand_stack(rng, coherent=False, inc_choices=(3.5, 2.5))
            s["pol"] = str(rng.choice(["s", "p"]))
            if not stacks.evanescent_incoherent(s):
                continue
            r = stacks.build(s).calculate(stacks.opts(s))
            x = np.concatenate([np.ravel(r[k]) for k in ("R", "T", "A_per_layer")])
            ob.check("beyond the critical angle of an incoherent layer", np.all(np.isfinite(x)) and np.all(x < 1 + 1e-6) and np.all(x > -1e-6),
                     "R=%s T=%s" % (r["R"], r["T"]), EVI)
        return
    for _ in range(case["n"]):
        while True:
            s = stacks.rand_stack(rng, many=True, inc_choices=(3.5, 2.5) if case["kind"] == "tir" else (1.0, 1.0, 1.5, 3.5))
            if case["kind"] == "lossless":
                for m in s["layers"]:
                    m[1] = 0.0
                if rng.random() < 0.7:
                    s["tr"][1] = 0.0
            if not (stacks.degenerate(s) or stacks.evanescent_incoherent(s)):
                break
        kw = {}
        if case["kind"] == "nobackrefl":
            # the back absorber replaces the substrate; only its bookkeeping is judged
            kw["no_back_reflection"] = True
        st = stacks.build(s, **kw)
        o = stacks.opts(s)
        if case["kind"] == "inputs":
            o = default_options() if rng.random() < 0.5 else dict()
            for k, v in stacks.opts(s).items():
                o[k] = v
            if s["coh"] and rng.random() < 0.5:
                del o["coherent"]
                del o["coherency_list"]
            if rng.random() < 0.5:      # bare [thickness in nm, wavelengths, n, k] layers
                w = np.linspace(300, 1800, 16)
                for m in s["layers"]:
                    m[2] = m[3] = 0.0
                    del m[4:]
                lay = [[d, w, np.full(16, m[0]), np.full(16, m[1])] for d, m in zip(s["ds"], s["layers"])]
                st = tmm_structure(lay, incidence=mk(s["inc"]), transmission=mk(s["tr"]))
        r = st.calculate(o)
        ob.event("tmm calculations")
        if case["kind"] == "nobackrefl":
            R, T, A, Al = (np.asarray(r[k]) for k in ("R", "T", "A", "A_per_layer"))
            ob.finite("finite", np.concatenate([R, T, A, Al.ravel()]), "no_back_reflection")
            ob.between("bounds", np.concatenate([R, T, A]), -1e-8, 1 + 1e-8, "no_back_reflection R,T,A")
            ob.close("sum-to-one", R + T + A, np.ones(len(R)), 1e-8, msg="no_back_reflection R+T+A")
            ob.close("A-is-sum-of-layers", Al.sum(1), A, 1e-6, msg="no_back_reflection sum of layers")
            ob.check("back absorber transmits nothing", np.all(np.abs(T) < 1e-4), "T=%s with no_back_reflection" % (T,))
            ob.fp("nbr", s["layers"], s["ds"], s["th"])
            continue
        judge(ob, s, r, case["kind"] + ": ")
        if case["kind"] == "history":
            # the same object used again after other calculations and changed thicknesses
            for step in range(4):
                a = rng.integers(4)
                if a == 0:
                    s["th"] = float(rng.uniform(0, 1.3))
                elif a == 1:
                    s["pol"] = str(rng.choice(["s", "p", "u"]))
                elif a == 2:
                    s["wl"] = np.sort(rng.uniform(350, 1700, rng.integers(1, 6))).tolist()
                else:
                    s["ds"] = [float(d * rng.uniform(0.5, 1.5)) for d in s["ds"]]
                    st.set_widths(list(s["ds"]))
                if stacks.degenerate(s) or stacks.evanescent_incoherent(s):
                    continue
                r1 = st.calculate(stacks.opts(s))
                judge(ob, s, r1, "history: ")
                r2 = stacks.build(s).calculate(stacks.opts(s))
                for k in ("R", "T", "A", "A_per_layer"):
                    ob.close("history", r1[k], r2[k], 1e-11, msg="reused structure differs from a fresh one in " + k)
