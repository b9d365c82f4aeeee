"""Random periodic layer structures, their RayFlare description, and the same structure set up in the solver directly."""
import copy
import numpy as np
from .mats import Mat, mk

LATTICES = ("square", "rect", "hex", "oblique", "line")


def rand_lattice(rng, kind=None):
    kind = kind or str(rng.choice(LATTICES))
    a = float(rng.uniform(150, 900))
    b = float(rng.uniform(150, 900))
    if kind == "square":
        return kind, ((a, 0), (0, a))
    if kind == "rect":
        return kind, ((a, 0), (0, b))
    if kind == "hex":
        return kind, ((a, 0), (a / 2, float(np.sin(np.pi / 3)) * a))
    if kind == "line":
        return kind, ((a, 0), (0, a))
    return kind, ((a, 0), (float(rng.uniform(-0.35, 0.35)) * a, b))


def rand_mat(rng, absorbing=0.6):
    k = 0.0 if rng.random() > absorbing else float(10 ** rng.uniform(-3, -0.3))
    return [float(rng.uniform(1.0, 3.0)), k, float(rng.choice([0, 0.3])), float(rng.choice([0, 1]))]


def inradius(size):
    (ax, ay), (bx, by) = size
    area = abs(ax * by - ay * bx)
    return 0.5 * area / max(np.hypot(ax, ay), np.hypot(bx, by))


def rand_shapes(rng, size, kind):
    """Shapes inside the cell, none crossing another."""
    r = inradius(size)
    out = []
    c0 = [float(v) for v in rng.uniform(-0.3, 0.3, 2) * r] if rng.random() < 0.6 else [0.0, 0.0]
    if kind == "line":
        w = float(rng.uniform(0.15, 0.4)) * size[0][0]
        return [dict(type="rectangle", mat=rand_mat(rng), center=(c0[0], 0), halfwidths=(w, size[1][1] / 2), angle=0)]
    R = r * float(rng.uniform(0.45, 0.69))
    for i in range(int(rng.choice([1, 1, 2]))):
        t = str(rng.choice(["circle", "ellipse", "rectangle", "polygon"]))
        h = (R * float(rng.uniform(0.5, 0.95)), R * float(rng.uniform(0.5, 0.95)))
        ang = float(rng.choice([0, 0, rng.uniform(-90, 90)]))
        s = dict(type=t, mat=rand_mat(rng), center=tuple(c0))
        if t == "circle":
            s["radius"] = R
            rin = R
        elif t == "ellipse":
            s.update(halfwidths=h, angle=ang)
            rin = min(h)
        elif t == "rectangle":
            f = 0.7 if ang else 1
            s.update(halfwidths=(h[0] * f, h[1] * f), angle=ang)
            rin = min(h) * f
        else:
            n = int(rng.integers(3, 7))
            v = [(R * np.cos(x), R * np.sin(x)) for x in np.sort(rng.uniform(0, 2 * np.pi / n * 0.5, n)) + np.arange(n) * 2 * np.pi / n]
            s.update(vertices=tuple((float(x), float(y)) for x, y in v), angle=0)
            rin = 0
        out.append(s)
        R = rin * 0.7
        if R < 0.1 * r or t == "ellipse":  # Inkstone fails for a shape inside an ellipse
            break
    return out


def rand(rng, kind=None, nl=None, wl=None, patterned=True, orders=None, lossless=False):
    kind, size = rand_lattice(rng, kind)
    nl = nl or int(rng.integers(1, 4))
    hot = set(rng.choice(nl, int(rng.integers(1, nl + 1)), replace=False).tolist()) if patterned else set()
    L = [dict(d=float(np.round(10 ** rng.uniform(1, 2.4), 2)), mat=rand_mat(rng), shapes=rand_shapes(rng, size, kind) if i in hot else []) for i in range(nl)]
    if lossless:
        for l in L:
            l["mat"][1] = 0.0
            for s in l["shapes"]:
                s["mat"][1] = 0.0
    side = rng.spawn(1)[0]
    if side.random() < 0.2:     # the same layer, or pair of layers, again
        L = [copy.deepcopy(l) for l in (L + L)[:int(side.integers(nl + 1, min(2 * nl, 4) + 1))]]
    tr = rand_mat(rng, 0.4)
    inc = [float(rng.choice([1.0, 1.0, 1.5])), 0.0, 0.0, 0.0]
    wls = wl or np.sort(rng.uniform(350, 1100, int(rng.integers(1, 3)))).tolist()
    return dict(kind=kind, size=size, layers=L, inc=inc, tr=tr, wl=[float(w) for w in wls], orders=int(orders or rng.integers(3, 20)), pol=str(rng.choice(["s", "p", "u"])),
                th=float(rng.choice([0, rng.uniform(0, 1.2)])), ph=float(rng.choice([0, np.pi / 4, rng.uniform(0, 6.28)])))


def shapes_for(g, mats=None):
    """RayFlare geometry of one layer; shapes of equal material share the material object."""
    mats = {} if mats is None else mats
    out = []
    for s in g:
        s = dict(s)
        key = tuple(s["mat"])
        mats.setdefault(key, mk(s["mat"]))
        s["mat"] = mats[key]
        out.append(s)
    return out


def layers(g, form="layer", mats=None):
    from solcore.structure import Layer
    mats = {} if mats is None else mats
    done, out = [], []          # equal layers are one and the same object
    for l in g["layers"]:
        same = [x for d, x in done if d == l]
        if not same:
            m = mats.setdefault(tuple(l["mat"]), mk(l["mat"]))
            done.append((l, Layer(l["d"] * 1e-9, m, geometry=shapes_for(l["shapes"], mats))))
            same = [done[-1][1]]
        out.append(same[0])
    return out


def lists(g):
    """The same layers as lists of width, optical constants and geometry (constant optical constants only if they are not dispersive)."""
    out = []
    for i, l in enumerate(g["layers"]):
        m = mk(l["mat"])
        if l["mat"][2] == 0 and l["mat"][3] == 0:
            out.append([l["d"], l["mat"][0], l["mat"][1], shapes_for(l["shapes"])])
        else:
            w = np.array(g["wl"] if len(g["wl"]) > 1 else [g["wl"][0], g["wl"][0] + 50])
            out.append([l["d"], w, m.n(w * 1e-9), m.k(w * 1e-9), shapes_for(l["shapes"])])
    return out


def options(g, **kw):
    from rayflare.options import default_options
    o = default_options()
    o.wavelength = np.array(g["wl"]) * 1e-9
    o.pol, o.theta_in, o.phi_in, o.orders = g["pol"], g["th"], g["ph"], g["orders"]
    o.RCWA_method, o.A_per_order, o.parallel = "Inkstone", False, False
    for k, v in kw.items():
        o[k] = v
    return o


def sim(g, wl, rear=False):
    """The structure set up in the solver, independently of RayFlare."""
    from inkstone import Inkstone
    s = Inkstone(g["size"], g["orders"])
    w = wl * 1e-9
    L = g["layers"][::-1] if rear else g["layers"]
    inc, tr = (g["tr"], g["inc"]) if rear else (g["inc"], g["tr"])
    s.AddMaterial("mi", complex(mk(inc).nk(w)[0]).real ** 2)  # light arrives undamped
    s.AddMaterial("mt", complex(mk(tr).nk(w)[0]) ** 2)
    s.AddLayer("in", 0, "mi")
    for i, l in enumerate(L):
        s.AddMaterial("m%d" % i, complex(mk(l["mat"]).nk(w)[0]) ** 2)
        s.AddLayer("l%d" % i, l["d"], "m%d" % i)
        for j, q in enumerate(l["shapes"]):
            n = "p%d_%d" % (i, j)
            s.AddMaterial(n, complex(mk(q["mat"]).nk(w)[0]) ** 2)
            c = q.get("center", (0, 0))
            if q["type"] == "circle":
                s.AddPatternDisk("l%d" % i, n, q["radius"], c)
            elif q["type"] == "ellipse":
                s.AddPatternEllipse("l%d" % i, n, q["halfwidths"], c, q["angle"])
            elif q["type"] == "rectangle":
                s.AddPatternRectangle("l%d" % i, n, [2 * h for h in q["halfwidths"]], c, q["angle"])
            else:
                s.AddPatternPolygon("l%d" % i, n, [[x + c[0], y + c[1]] for x, y in q["vertices"]])
    s.AddLayer("out", 0, "mt")
    return s


def flux(s, name, z=None):
    return [np.ravel(x)[0] for x in s.GetPowerFlux(name, z)]


def direct(g, wl, th, ph, pol, rear=False, orders=False, depths=None, s=None):
    """R, T, A per layer (and powers by order, absorption densities at depths) from the solver itself; angles in radians, ph towards which light travels."""
    if pol == "u":
        a = direct(g, wl, th, ph, "s", rear, orders, depths)
        b = direct(g, wl, th, ph, "p", rear, orders, depths)
        return {k: (a[k] if k == "G" or k == "b" else (np.asarray(a[k]) + np.asarray(b[k])) / 2) for k in a}
    s = s or sim(g, wl, rear)
    sp = {"s": (1, 0), "p": (0, 1)}.get(pol, pol) if isinstance(pol, str) else pol
    s.SetExcitation(np.rad2deg(th), np.rad2deg(ph), sp[0], sp[1])
    s.SetFrequency(1 / wl)
    n = len(g["layers"])
    f, b = flux(s, "in")
    nets = [sum(flux(s, "l%d" % i)) for i in range(n)] + [sum(flux(s, "out"))]
    A = np.array([nets[i] - nets[i + 1] for i in range(n)]) / f
    out = dict(R=-b / f, T=flux(s, "out")[0] / f, A=A)
    if orders:
        out["G"] = np.array(s.pr.idx_g)
        out["b"] = np.array(s.pr.recipr_vec)
        out["Ro"] = np.array([-np.ravel(s.GetPowerFluxByOrder("in", o)[1])[0] for o in s.pr.idx_g]) / f
        out["To"] = np.array([sum(np.ravel(x)[0] for x in s.GetPowerFluxByOrder("out", o)) for o in s.pr.idx_g]) / f
    if depths is not None:
        ds = [l["d"] for l in (g["layers"][::-1] if rear else g["layers"])]
        edges = np.concatenate([[0], np.cumsum(ds)])
        dens = []
        for z in depths:
            i = int(np.clip(np.searchsorted(edges, z, side="right") - 1, 0, n - 1))
            h = 1e-2
            a, c = sum(flux(s, "l%d" % i, z - edges[i] - h)), sum(flux(s, "l%d" % i, z - edges[i] + h))
            dens.append((a - c) / (2 * h * f))
        out["dens"] = np.array(dens)
    return out


def uniform(g):
    """The planar stack a structure without patterns is."""
    q = copy.deepcopy(g)
    for l in q["layers"]:
        l["shapes"] = []
    return q


def moved(g, dx, dy):
    q = copy.deepcopy(g)
    for l in q["layers"]:
        for s in l["shapes"]:
            s["center"] = (s["center"][0] + dx, s["center"][1] + dy)
    return q


def turned(g, deg):
    """Cell, shapes and light turned by an angle about z."""
    q = copy.deepcopy(g)
    a = np.deg2rad(deg)
    rot = lambda v: (float(v[0] * np.cos(a) - v[1] * np.sin(a)), float(v[0] * np.sin(a) + v[1] * np.cos(a)))
    q["size"] = tuple(rot(v) for v in q["size"])
    for l in q["layers"]:
        for s in l["shapes"]:
            s["center"] = rot(s["center"])
            if s["type"] == "polygon":
                s["vertices"] = tuple(rot(v) for v in s["vertices"])
            elif s["type"] != "circle":
                s["angle"] = s["angle"] + deg
    q["ph"] = q["ph"] + a
    return q


def other_words(g, rng, types=False):
    """The same shapes described otherwise, or (types) as shapes of another type, whose Fourier coefficients the solver corrects slightly differently."""
    q = copy.deepcopy(g)
    for l in q["layers"]:
        for s in l["shapes"]:
            if s["type"] == "circle":
                if not types or s is not l["shapes"][-1]:
                    continue
                r = s.pop("radius")
                s.update(type="ellipse", halfwidths=(r, r), angle=float(rng.uniform(0, 90)))
            elif s["type"] == "ellipse":
                h = s["halfwidths"]
                s.update(halfwidths=(h[1], h[0]), angle=s["angle"] + 90)
            elif s["type"] == "rectangle":
                h = s["halfwidths"]
                if not types:
                    s.update(halfwidths=(h[1], h[0]), angle=s["angle"] - 90)
                elif s["angle"] == 0:
                    s.pop("halfwidths")
                    s.update(type="polygon", vertices=((-h[0], -h[1]), (h[0], -h[1]), (h[0], h[1]), (-h[0], h[1])), angle=0)
            else:
                v = s["vertices"]
                k = int(rng.integers(0, len(v)))
                s["vertices"] = v[k:] + v[:k]
    return q
