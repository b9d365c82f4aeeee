"""One random call of each of RayFlare's entry points: built from a seed, repeatable with other options, on the same or on new objects."""
import os
import numpy as np
from .core import seed_all
from .mats import mk, rand_mat

NAMES = ["planar", "planar profile", "grating", "grating profile", "fields", "rays", "film rays", "table", "planar matrix", "ray matrix", "film ray matrix", "grating matrix", "method", "absorption"]
MORE = NAMES + ["epsilon", "orders", "texture", "ideal matrix"]
WEIGHTS = ["rays", "method"]


def base(rng):
    """Every documented option, with values small enough to run quickly."""
    from rayflare.options import default_options
    o = dict(default_options())
    o.update(parallel=False, n_theta_bins=int(rng.integers(2, 5)), nx=2, ny=int(rng.integers(1, 4)), n_rays=int(rng.integers(5, 40)), orders=int(rng.integers(3, 9)), lookuptable_angles=int(rng.integers(6, 12)),
             project_name="p", theta_in=float(rng.choice([0.0, rng.uniform(0.05, 1.2)])), phi_in=float(rng.choice([0.0, rng.uniform(0, 1.5)])), pol=str(rng.choice(["s", "p", "u"])),
             wavelength=np.sort(rng.uniform(450, 1000, int(rng.integers(1, 4)))) * 1e-9, only_incidence_angle=bool(rng.random() < 0.5), RCWA_method="Inkstone",
             depth_spacing=float(rng.uniform(5, 20)) * 1e-9, depth_spacing_bulk=float(rng.uniform(1, 4)) * 1e-6, bulk_profile=bool(rng.random() < 0.5), randomize_surface=bool(rng.random() < 0.5),
             random_ray_position=bool(rng.random() < 0.5), random_ray_angles=False, I_thresh=float(rng.choice([1e-2, 1e-3])))
    return o


def containers(o, rng):
    """The same options, handed over differently."""
    from rayflare.options import default_options
    from solcore.state import State

    def attrs():
        d = default_options()
        for k, v in o.items():
            setattr(d, k, v)
        return d

    def items():
        d = default_options()
        for k, v in o.items():
            d[k] = v
        return d

    def update():
        d = default_options()
        d.update(o)
        return d

    def np_scalars():
        return {k: (np.float64(v) if isinstance(v, float) else np.int64(v) if isinstance(v, int) and not isinstance(v, bool) and k not in ("n_jobs", "orders") else v) for k, v in o.items()}

    def order():
        ks = list(o)
        rng.shuffle(ks)
        return {k: o[k] for k in ks}

    def own_state():
        s = State()
        for k, v in o.items():
            setattr(s, k, v)
        return s
    return {"attributes of default_options": attrs, "items of default_options": items, "default_options updated": update, "State of a dictionary": lambda: State(dict(o)), "State with attributes": own_state,
            "dictionary": lambda: dict(o), "dictionary in another order": order, "dictionary with NumPy scalars": np_scalars}


class Call:
    """One way of asking RayFlare for numbers, repeatable with other options."""
    n = 0

    def __init__(self, ob, rng, name=None, names=None):
        self.ob = ob
        self.name = name or str(rng.choice((names or NAMES) + WEIGHTS))
        self.o = base(rng)
        self.seed = int(rng.integers(1 << 30))
        self.nl = int(rng.integers(1, 4))
        self.specs = [rand_mat(rng, kmax=0.3, kzero=0) for _ in range(self.nl)]
        self.w = [float(np.round(rng.uniform(30, 150), 1)) for _ in range(self.nl)]
        self.inc, self.tr = [1.0, 0, 0, 0], rand_mat(rng, kmax=0.05, kzero=0)
        self.bulk = [float(rng.uniform(2, 3.6)), float(10 ** rng.uniform(-5, -3.5)), 0, 0]
        self.bw = float(10 ** rng.uniform(-5.2, -4.5))
        self.ang = float(rng.uniform(25, 60))
        self.front = str(rng.choice(["TMM", "RT_Fresnel", "RT_TMM", "TMM"]))
        self.rear = str(rng.choice(["TMM", "RT_Fresnel", "Mirror", "Lambertian"]))
        self.prof = bool(rng.random() < 0.5)
        self.size = ((float(rng.uniform(300, 600)), 0), (0, float(rng.uniform(300, 600))))
        self.coh = bool(rng.random() < 0.5)
        self.cl = [str(rng.choice(["c", "i"])) for _ in range(self.nl)]
        if self.nl > 1 and rng.random() < 0.6:
            self.cl = ["c", "i"] + self.cl[2:] if rng.random() < 0.5 else self.cl[:-2] + ["i", "c"]     # not the same from behind
        if self.name == "planar profile" or (self.prof and self.name in ("film rays", "table", "planar matrix")):
            self.cl = ["c"] * self.nl       # Solcore refuses some profiles in partly coherent stacks
        self.limits = bool(rng.random() < 0.4)
        self.side = str(rng.choice(["front", "rear"]))
        self.theta_spacing = str(rng.choice(["sin", "linear"])) if rng.random() < 0.4 else None
        o = self.o
        if self.name.startswith("planar"):
            o.update(coherent=self.coh, coherency_list=None if self.coh else list(self.cl))
        if self.theta_spacing:
            o["theta_spacing"] = self.theta_spacing
        if self.limits and "rays" in self.name:
            o.update(x_limits=[0.1, 0.8], y_limits=[0.2, 0.9])
        if self.name == "fields":
            o["pol"] = str(rng.choice(["s", "p"]))
        if self.name == "absorption" or (self.name == "method" and self.prof):
            o["bulk_profile"] = True
        if self.name == "absorption":
            self.front = "TMM"              # so that some light enters the bulk, however few the rays
        if self.name in ("ray matrix", "film ray matrix", "method", "absorption"):
            o["only_incidence_angle"] = False

    # ---- what a user makes first
    def layers(self):
        from solcore.structure import Layer
        return [Layer(x * 1e-9, mk(m)) for x, m in zip(self.w, self.specs)]

    def grating_layers(self):
        from solcore.structure import Layer
        L = self.layers()
        L[0] = Layer(L[0].width, L[0].material, geometry=[dict(type="circle", mat=mk([1.0, 0, 0, 0]), center=(0, 0), radius=100)])
        return L

    def dir(self):
        Call.n += 1
        p = os.path.join(self.ob.dir, "c%d_%d" % (os.getpid(), Call.n))
        os.makedirs(p)
        return p

    def texture(self, **kw):
        from rayflare.textures import regular_pyramids
        return regular_pyramids(elevation_angle=self.ang, upright=True, size=1, **kw)

    def structure(self, names=("f", "r"), **kw):
        from rayflare.structure import Interface, BulkLayer, Structure
        from rayflare.textures import regular_pyramids
        els = []
        for i, m in enumerate((self.front, self.rear)):
            q = dict(name=names[i])
            if m in ("TMM", "RT_TMM", "RCWA"):
                q["layers"] = self.layers()
                if self.prof and i == 0:
                    q["prof_layers"] = [1]
                elif m != "RCWA" and not self.coh:
                    q.update(coherent=False, coherency_list=list(self.cl))
                if m == "RCWA":
                    q.update(d_vectors=self.size, rcwa_orders=3)
            else:
                q["layers"] = []
            if m.startswith("RT"):
                q["texture"] = regular_pyramids(elevation_angle=self.ang, upright=i == 0)
            if i == 0:
                q.update(kw)
            els.append(Interface(m, **q))
        return Structure([els[0], BulkLayer(self.bw, mk(self.bulk), name="b"), els[1]], incidence=mk(self.inc), transmission=mk(self.tr))

    def build(self, o):
        """(objects handed to RayFlare, object that calculates or None)"""
        seed_all(self.seed + 7)
        m = dict(inc=mk(self.inc), tr=mk(self.tr), bulk=mk(self.bulk))
        n = self.name
        if n in ("planar", "planar profile"):
            from rayflare.transfer_matrix_method import tmm_structure
            m["layers"] = self.layers()
            return m, tmm_structure(m["layers"], incidence=m["inc"], transmission=m["tr"])
        if n in ("grating", "grating profile", "fields", "epsilon"):
            from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
            m["layers"] = self.grating_layers()
            m["size"] = self.size
            return m, rcwa_structure(m["layers"], m["size"], o, m["inc"], m["tr"])
        if n in ("rays", "film rays"):
            from rayflare.ray_tracing import rt_structure
            from rayflare.textures import planar_surface
            kw = dict(interface_layers=self.layers(), name="f", coherency_list=list(self.cl)) if n == "film rays" else {}
            if kw and self.prof:
                kw["prof_layers"] = list(range(1, self.nl + 1))
            m.update(kw)
            m["textures"], m["materials"], m["widths"] = [self.texture(**kw), planar_surface(size=1)], [m["bulk"]], [self.bw]
            return m, rt_structure(m["textures"], m["materials"], m["widths"], m["inc"], m["tr"], options=o, use_TMM=n == "film rays", save_location=self.dir())
        if n in ("table", "planar matrix", "grating matrix", "ray matrix", "film ray matrix"):
            m["layers"], m["cl"], m["prof"], m["widths"] = self.layers(), None if self.coh else list(self.cl), [1] if self.prof else None, list(self.w)
            if "ray" in n:
                from rayflare.structure import RTgroup
                m["textures"] = [self.texture()]
                return m, RTgroup(textures=m["textures"])
            return m, None
        if n in ("method", "absorption"):
            m["structure"] = self.structure()
            return m, m["structure"]
        return m, None

    def go(self, m, S, o):
        """The calculation itself."""
        seed_all(self.seed)
        n = self.name
        side, coh = self.side, self.coh
        if n in ("planar", "planar profile"):
            r = S.calculate(o, profile=True) if "profile" in n else S.calculate(o)
            return {k: r[k] for k in r if k not in ("all_p", "all_s")}
        if n == "grating" or n == "rays" or n == "film rays":
            return S.calculate(o)
        if n == "grating profile":
            return S.calculate_profile(o)
        wmax = float(np.max(self.o["wavelength"])) * 1e9
        if n == "fields":
            return list(S.get_fields(1, wmax, o, depth=self.w[0] / 2, n_points=3, plot=False))
        if n == "epsilon":
            return list(S.get_fourier_epsilon(1, wmax, o, n_points=6, plot=False))
        if n == "table":
            from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
            return make_TMM_lookuptable(m["layers"], m["inc"], m["tr"], "t", o, self.dir(), coherent=coh, coherency_list=m["cl"], prof_layers=m["prof"])
        if n == "planar matrix":
            from rayflare.transfer_matrix_method import TMM
            return TMM(m["layers"], m["inc"], m["tr"], "t", o, self.dir(), coherent=coh, coherency_list=m["cl"], prof_layers=m["prof"], front_or_rear=side, save=False)
        if n in ("ray matrix", "film ray matrix"):
            from rayflare.ray_tracing.rt import RT
            films, p = n == "film ray matrix", self.dir()
            if films:
                from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
                make_TMM_lookuptable(m["layers"], m["inc"], m["tr"], "t", o, p, prof_layers=m["prof"])
                seed_all(self.seed)
            return RT(S, m["inc"], m["tr"], "t", o, p, 1 if films else 0, side, self.nl if films else 0, m["prof"] if films else None, widths=m["widths"] if films else None, save=False)
        if n == "grating matrix":
            from rayflare.rigorous_coupled_wave_analysis import RCWA
            return RCWA(m["layers"], self.size, 4, o, self.dir(), m["inc"], m["tr"], prof_layers=m["prof"], front_or_rear=side, surf_name="t", save=False)
        if n in ("method", "absorption"):
            from rayflare.matrix_formalism import process_structure, calculate_RAT
            p = self.dir()
            process_structure(S, o, save_location=p)
            seed_all(self.seed + 1)
            r = [x if not isinstance(x, list) else list(x) for x in calculate_RAT(S, o, save_location=p)]
            if n == "method":
                return r
            from rayflare.utilities import make_absorption_function
            m["result"] = r
            pos, f = make_absorption_function(r, S, o)
            return [pos, np.asarray(f(pos))]
        if n == "orders":
            from rayflare.analytic.diffraction import get_order_directions
            return get_order_directions(np.array(self.o["wavelength"]), self.size, 3, m["inc"], m["tr"], self.o["theta_in"], self.o["phi_in"], self.o["phi_symmetry"])
        if n == "ideal matrix":
            from rayflare.matrix_formalism.ideal_cases import lambertian_matrix, mirror_matrix
            from rayflare.angles import make_angle_vector
            th, ph, av = make_angle_vector(self.o["n_theta_bins"], self.o["phi_symmetry"], self.o["c_azimuth"])
            m["angle_vector"], m["th"], m["ph"] = av, th, ph
            if self.coh:
                return [av, mirror_matrix(av, th, ph, "t", o, self.dir(), front_or_rear="front", save=False)]
            return [av, lambertian_matrix(av, th, "t", self.dir(), "front", save=False)]
        if n == "texture":
            from rayflare import textures as tx
            k = self.seed % 4
            if k == 0:
                t = tx.rough_pyramids(elevation_angle=self.ang, size=1, noise_angle=0.1, n_points=12)
            elif k == 1:
                t = tx.rough_planar_surface(size=1, noise_angle=0.3, n_points=12)
            elif k == 2:
                t = tx.hemisphere_surface(size=1, n_per_side=7, radius=0.4, offset=0.1, noise_angle=0.1)
            else:
                t = tx.regular_pyramids(elevation_angle=self.ang, size=1)
            return [[np.array(s.Points), np.array(s.simplices)] for s in t]
        raise KeyError(n)

    def refused(self, f):
        try:
            return f()
        except ValueError as err:           # a refusal by Solcore (known finding of P03)
            if "Incompatible absorption analytical functions" not in str(err):
                raise
            self.ob.event("refused by the dependency")
            return "refused"

    def __call__(self, o):
        return self.refused(lambda: self.go(*self.build(o), o))
