"""Random planar stacks and how to hand them to the code under test."""
import numpy as np
from .mats import Mat, mk, rand_mat, rand_wl


def rand_stack(rng, coherent=None, nmax=6, weak_inc=1e-3, kmax=2.0, inc_choices=(1.0, 1.0, 1.0, 1.5, 3.5),
               force_profile=False, many=False):
    coh = bool(rng.random() < 0.55) if coherent is None else coherent
    nl = int(rng.integers(1, nmax))
    cl = ["c"] * nl if coh else [str(rng.choice(["c", "i"])) for _ in range(nl)]
    layers, ds = [], []
    for c in cl:
        layers.append(rand_mat(rng, kmax=kmax, weak=None if c == "c" else weak_inc, kzero=0.1 if force_profile else 0.3))
        ds.append(float(np.round(10 ** rng.uniform(0.3, 2.9) if c == "c" else 10 ** rng.uniform(3.2, 5), 3)))
    inc = [float(rng.choice(inc_choices)), 0.0, 0.0, 0.0]
    if rng.random() < 0.3:
        inc[2] = 0.03
    tr = rand_mat(rng, kmax=1.0, kzero=0.5)
    r = rng.random()
    th = 0.0 if r < 0.2 else float(rng.uniform(0.02, 1.2) if r < 0.8 else rng.uniform(1.2, 1.545))
    wl = (rand_wl(rng) * 1e9).tolist()
    if rng.random() < 0.2:      # absorption edges: transparent at some of the wavelengths
        edge = float(rng.uniform(min(wl) - 50, max(wl)))
        for m in (layers if rng.random() < 0.6 else [layers[int(rng.integers(nl))]]):
            m.append(edge)
    pol = str(rng.choice(["s", "p", "u"]))
    side = rng.spawn(1)[0]      # leaves the other draws as they are
    if many and side.random() < 0.01:
        wl = np.linspace(320, 1750, int(side.integers(60, 240))).tolist()
    if side.random() < 0.2:     # a sequence that is repeated: the same layers (and materials) several times in a stack
        reps, a = int(side.integers(2, 4)), int(side.integers(nl))
        b = min(nl, a + int(side.integers(1, 3)))
        layers, ds, cl = ([*x[:a], *(x[a:b] * reps), *x[b:]] for x in (layers, ds, cl))
    return dict(layers=layers, ds=ds, cl=cl, coh=coh, inc=inc, tr=tr, wl=wl, th=th, pol=pol)


def solcore_layers(s, share=True):
    """Layers of the same thickness and material are one and the same object."""
    from solcore.structure import Layer
    mats, lays, out = {}, {}, []
    for d, m in zip(s["ds"], s["layers"]):
        k = tuple(m)
        mats.setdefault(k, mk(m))
        lays.setdefault((d, k), Layer(d * 1e-9, mats[k]))
        out.append(lays[(d, k)] if share else Layer(d * 1e-9, mk(m)))
    return out


def build(s, **kw):
    from rayflare.transfer_matrix_method import tmm_structure
    return tmm_structure(solcore_layers(s), incidence=mk(s["inc"]), transmission=mk(s["tr"]), **kw)


def opts(s, **kw):
    o = dict(wavelength=np.array(s["wl"]) * 1e-9, pol=s["pol"], theta_in=s["th"], coherent=s["coh"],
             coherency_list=list(s["cl"]))
    o.update(kw)
    return o


def indices(s, wl_nm):
    wl = wl_nm * 1e-9
    return [complex(mk(s["inc"]).n(wl))] + [mk(m).nk(wl)[0] for m in s["layers"]] + [mk(s["tr"]).nk(wl)[0]]


def degenerate(s):
    """True near a critical angle or a pole of the numerics, where no comparison is meaningful."""
    for w in s["wl"]:
        ns = indices(s, w)
        b = ns[0] * np.sin(s["th"])
        for n in ns[1:]:
            if abs(np.sqrt(n ** 2 - b ** 2)) < 0.03:
                return True
    return False


def evanescent_incoherent(s):
    """Incoherent layer (or a partly coherent stack) in which light is evanescent: the intensity
    model is not defined there."""
    for w in s["wl"]:
        ns = indices(s, w)
        b = (ns[0] * np.sin(s["th"])).real
        for i, n in enumerate(ns[1:-1]):
            if s["cl"][i] == "i" and n.real < b * 1.02:
                return True
        if not s["coh"] and ns[-1].real < b * 1.02:
            return True
    return False
