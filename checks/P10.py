"""P10 stored results."""
import os
import shutil
import numpy as np
from rfv import bins
from rfv.mats import mk
from rfv.core import seed_all

ID = "P10"
RULE = ("random structures with every interface method; sequences of calculations over projects, storage locations, overwrite "
        "flags and changed descriptions, with stored files removed, truncated or half-written in between, each compared with a "
        "calculation in an empty directory under the same random seed; non-trivial: the stored and the changed description give different numbers")
REQUIRED = ["reuse equals fresh", "stored result reused", "overwrite replaces", "missing files recomputed", "damaged files never used silently",
            "separate projects", "storage location", "interrupted save", "function-level reuse", "companion profile", "lookup table replaced"]


def cases(rng, tier):
    n = 110 if tier == "quick" else 3000
    kinds = ["reuse", "missing", "damaged", "locations", "interrupted", "function", "profile", "rt structure", "names", "missing", "damaged"]
    return [dict(kind=kinds[i % len(kinds)], seed=int(rng.integers(1 << 31))) for i in range(n)]


PAIRS = [("one", "two"), ("Cell", "cell"), ("run.1", "run.2"), ("run 1", "run_1"), ("p1", "p10"), ("a-b", "a_b")]


def spec(rng, methods=None, prof=False):
    d = dict(front=str(rng.choice(methods or ["TMM", "RT_Fresnel", "RT_TMM", "TMM"])), rear=str(rng.choice(methods or ["TMM", "RT_Fresnel", "RT_TMM", "Mirror", "Lambertian"])),
             n=[float(rng.uniform(1.4, 2.6)) for _ in range(2)], k=[float(rng.uniform(0.02, 0.2)) for _ in range(2)], w=[float(rng.uniform(40, 160)) for _ in range(2)],
             nb=float(rng.uniform(2, 3.6)), kb=float(10 ** rng.uniform(-5, -3.5)), d=float(10 ** rng.uniform(-5, -4)), ang=float(rng.uniform(30, 55)),
             prof=prof, nt=int(rng.integers(2, 5)), th=float(rng.uniform(0, 1.2)), ph=float(rng.uniform(0, 1.5)))
    return d


def change(rng, d):
    e = dict(d)
    e["n"] = [x + 0.9 for x in d["n"]]
    e["w"] = [x * 1.6 for x in d["w"]]
    e["ang"] = d["ang"] - 17
    return e


def build(d, names=("f", "r")):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.textures import regular_pyramids
    from solcore.structure import Layer
    els = []
    for i, m in enumerate((d["front"], d["rear"])):
        kw = dict(name=names[i])
        if m in ("TMM", "RT_TMM", "RCWA"):
            kw["layers"] = [Layer(d["w"][i] * 1e-9, mk([d["n"][i], d["k"][i], 0, 0]))]
            if d["prof"]:
                kw["prof_layers"] = [1]
        if m.startswith("RT"):
            kw["texture"] = regular_pyramids(elevation_angle=d["ang"], upright=bool(i == 0))
        els.append(Interface(m, **kw))
    return Structure([els[0], BulkLayer(d["d"], mk([d["nb"], d["kb"], 0, 0]), name="b"), els[1]], incidence=mk([1.0, 0, 0, 0]), transmission=mk([1.3, 0, 0, 0]))


def opts(d, project="p"):
    from rayflare.options import default_options
    o = default_options()
    o.project_name = project
    o.wavelength = np.array([600e-9, 900e-9])
    o.n_theta_bins, o.c_azimuth = d["nt"], 0.3
    o.theta_in, o.phi_in = d["th"], d["ph"]
    o.nx = o.ny = 2
    o.n_rays = 4 * 14
    o.lookuptable_angles = 20
    o.parallel = False
    o.depth_spacing, o.depth_spacing_bulk = 5e-9, d["d"] / 20
    o.bulk_profile = bool(d["prof"])
    o.only_incidence_angle = False
    o.I_thresh = 1e-6
    o.pol = "u"
    return o


def vec(res):
    out = [np.asarray(res[0][k]).ravel() for k in ("R", "T", "A_bulk") if k in res[0]]
    out += [np.asarray(x).sum(0).ravel() for x in res[1]["a"]]
    if len(res) > 2:
        out += [np.asarray(x.transpose("wl", "z")).ravel() for x in res[2]]
        out += [np.asarray(x).ravel() for x in res[3]]
    return np.concatenate(out)


def go(d, loc, overwrite=False, project="p", seed=5, names=("f", "r")):
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    seed_all(seed)
    sc = build(d, names)
    o = opts(d, project)
    process_structure(sc, o, save_location=loc, overwrite=overwrite)
    seed_all(seed + 1)
    return vec(calculate_RAT(sc, o, save_location=loc))


class Counter:
    k = 0


def tmp(ob):
    Counter.k += 1
    p = os.path.join(ob.dir, "L%d" % Counter.k)
    return p


def run(case, ob):
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    globals()["k_" + kind.replace(" ", "_")](case, ob, rng)


def same(ob, name, a, b, msg):
    if a.shape != b.shape:
        return ob.check(name, False, "%s: results have different sizes" % msg)
    return ob.close(name, a, b, 1e-12, 1e-9, msg=msg)


def k_reuse(case, ob, rng):
    d = spec(rng, prof=bool(rng.random() < 0.3))
    e = change(rng, d)
    A = tmp(ob)
    x = go(d, A)
    y = go(d, A)
    same(ob, "reuse equals fresh", y, x, "second run in the same project (%s/%s)" % (d["front"], d["rear"]))
    z = go(e, A) if not d["prof"] else x          # other description, same names: documented to reuse
    same(ob, "stored result reused", z, x, "existing results in the project")
    w = go(e, A, overwrite=True)
    f = go(e, tmp(ob))
    same(ob, "overwrite replaces", w, f, "overwrite=True (%s/%s)" % (d["front"], d["rear"]))
    w = go(e, A)
    same(ob, "overwrite replaces", w, f, "reuse after overwrite")
    if f.shape != x.shape or np.max(np.abs(f - x)) > 1e-3:
        ob.fp("reuse", d)


def files(root):
    return sorted(os.path.join(b, f) for b, _, fs in os.walk(root) for f in fs)


def k_missing(case, ob, rng):
    """Any subset of the stored files has gone: the result is that of a fresh run."""
    d = spec(rng, prof=bool(rng.random() < 0.5))
    A = tmp(ob)
    x = go(d, A)
    fl = files(A)
    for _ in range(4):
        gone = [f for f in fl if rng.random() < (0.4 if len(fl) < 4 else 0.3)] or [fl[int(rng.integers(len(fl)))]]
        keep = tmp(ob)
        shutil.copytree(A, keep)
        for f in gone:
            os.remove(f.replace(A, keep))
        y = go(d, keep)
        tol = any(m.startswith("RT") for m in (d["front"], d["rear"]))
        if tol:
            # ray tracing draws other random numbers when only a part is redone
            if not ob.check("missing files recomputed", y.shape == x.shape and np.all(np.isfinite(y)), "shape %s" % (y.shape,)):
                continue
            bal = y[:6].reshape(3, 2).sum(0)
            ob.between("missing files recomputed", bal, -1e-9, 1 + 1e-6, "R+T+A_bulk after losing %s" % [os.path.basename(g) for g in gone])
        else:
            same(ob, "missing files recomputed", y, x, "after losing %s (%s/%s)" % ([os.path.basename(g) for g in gone], d["front"], d["rear"]))
        ob.check("missing files recomputed", set(os.path.basename(f) for f in files(keep)) == set(os.path.basename(f) for f in fl), "files left: %s" % files(keep))
        ob.fp("missing", d, [os.path.basename(g) for g in gone])


def k_damaged(case, ob, rng):
    """A file cut short at any byte (a crash while writing it): recomputation or a clear failure, never other numbers."""
    d = spec(rng, methods=["TMM", "TMM", "RT_TMM"] if rng.random() < 0.3 else ["TMM"], prof=bool(rng.random() < 0.6))
    A = tmp(ob)
    x = go(d, A)
    fl = files(A)
    det = d["front"] == d["rear"] == "TMM"
    for _ in range(10):
        f = fl[int(rng.integers(len(fl)))]
        keep = tmp(ob)
        shutil.copytree(A, keep)
        g = f.replace(A, keep)
        n = os.path.getsize(g)
        cut = int(rng.choice([0, 1, n // 2, n - 1, int(rng.integers(0, n))]))
        with open(g, "r+b") as h:
            h.truncate(cut)
        try:
            y = go(d, keep)
        except Exception as e:  # noqa - a clear failure is allowed
            ob.check("damaged files never used silently", True)
            ob.event("damage reported as %s" % type(e).__name__)
            ob.fp("damaged", os.path.basename(f), cut, d)
            continue
        ob.event("damage repaired")
        if det:
            same(ob, "damaged files never used silently", y, x, "%s cut to %d of %d bytes" % (os.path.basename(f), cut, n))
        else:
            ob.between("damaged files never used silently", y[:6].reshape(3, 2).sum(0), -1e-9, 1 + 1e-6,
                       "%s cut to %d of %d bytes" % (os.path.basename(f), cut, n))


class Crash(BaseException):
    pass


def k_interrupted(case, ob, rng):
    """The process dies in the k-th write to storage (before, in the middle of, or after it); the next run must equal a fresh one."""
    d = spec(rng, methods=["TMM"], prof=bool(rng.random() < 0.5))
    if rng.random() < 0.3:
        d["rear"] = str(rng.choice(["Mirror", "Lambertian"]))
    ref = go(d, tmp(ob))
    import xarray as xr
    # the lowest common layer: whatever the code calls, arrays and tables are written by these
    targets = [(np, "savez_compressed"), (np, "savez"), (np, "save"), (xr.Dataset, "to_netcdf"), (xr.DataArray, "to_netcdf")]
    kmax = 12
    for k in range(kmax):
        loc = tmp(ob)
        count = [0]
        mode = ["before", "half", "after"][k % 3] if rng.random() < 0.5 else str(rng.choice(["before", "half", "after"]))
        saved = [(o, n, getattr(o, n)) for o, n in targets]

        def wrap(f, pos):
            def g(*a, **kw):
                count[0] += 1
                if count[0] - 1 != k:
                    return f(*a, **kw)
                if mode == "before":
                    raise Crash()
                r = f(*a, **kw)
                if mode == "half":
                    path = a[pos] if len(a) > pos else kw.get("path", kw.get("file", ""))
                    path = path if os.path.isfile(str(path)) else "%s.npz" % path
                    if os.path.isfile(path):
                        with open(path, "r+b") as h:
                            h.truncate(max(1, os.path.getsize(path) // 2))
                raise Crash()
            return g
        crashed = False
        try:
            for o, n, f in saved:
                setattr(o, n, wrap(f, 1 if n == "to_netcdf" else 0))
            try:
                go(d, loc)
            except Crash:
                crashed = True
        finally:
            for o, n, f in saved:
                setattr(o, n, f)
        if not crashed:
            break
        ob.event("crashes injected (%s write)" % mode)
        try:
            y = go(d, loc)
        except Exception as e:  # noqa
            ob.check("interrupted save", mode == "half", "write %d interrupted (%s): the next run raises %s: %s" % (k, mode, type(e).__name__, e))
            ob.event("next run fails clearly")
            continue
        same(ob, "interrupted save", y, ref, "write %d interrupted (%s), then run again" % (k, mode))
        ob.fp("interrupted", k, mode, d)
    # names differ between versions of the code; if nothing was intercepted the storage layer changed
    ob.event("writes intercepted", count[0])


def k_locations(case, ob, rng):
    d = spec(rng, methods=["TMM"])
    e = change(rng, d)
    home, cwd = os.path.join(ob.dir, "home"), os.path.join(ob.dir, "cwd")
    os.makedirs(home)
    os.makedirs(cwd)
    old = os.environ.get("HOME")
    here = os.getcwd()
    os.environ["HOME"] = home
    os.chdir(cwd)
    try:
        full = tmp(ob)
        fresh_d, fresh_e = go(d, tmp(ob)), go(e, tmp(ob))
        order = [("default", os.path.join(home, "RayFlare_results")), ("current", cwd), (full, full)]
        order = [order[i] for i in rng.permutation(3)]
        seen = {}
        for i, (loc, root) in enumerate(order):
            s = d if i % 2 == 0 else e
            x = go(s, loc, project="proj")
            same(ob, "storage location", x, fresh_d if i % 2 == 0 else fresh_e, "location %s" % loc)
            ob.check("storage location", len(files(os.path.join(root, "proj"))) > 0, "no files under %s" % root)
            seen[root] = s
        for i, (loc, root) in enumerate(order):
            x = go(d, loc, project="proj")
            same(ob, "storage location", x, fresh_d if seen[root] is d else fresh_e, "reuse in location %s" % loc)
        # projects in one location
        one, two = PAIRS[int(rng.integers(len(PAIRS)))]
        x = go(d, full, project=one)
        y = go(e, full, project=two)
        same(ob, "separate projects", x, fresh_d, "project %r" % one)
        same(ob, "separate projects", y, fresh_e, "project %r, next to %r" % (two, one))
        same(ob, "separate projects", go(e, full, project=one), fresh_d, "project %r again" % one)
        same(ob, "separate projects", go(e, full, project=one, overwrite=True), fresh_e, "project %r overwritten" % one)
        same(ob, "separate projects", go(d, full, project=two), fresh_e, "project %r untouched" % two)
    finally:
        os.chdir(here)
        if old is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = old
    ob.fp("locations", d)


def k_names(case, ob, rng):
    """Surfaces of different names in one project do not share data."""
    d = spec(rng, methods=["TMM"])
    e = change(rng, d)
    A = tmp(ob)
    fd, fe = go(d, tmp(ob)), go(e, tmp(ob))
    base = str(rng.choice(["front", "rear", "s", "aRT", "x_A", "v1.5", "Cell a"]))
    n1, n2 = (base, base + "2"), [(base + "front", base + "rear"), (base.swapcase(), base.swapcase() + "2"), (base + "-1", base + "_1")][int(rng.integers(3))]
    same(ob, "separate projects", go(d, A, names=n1), fd, "names %s" % (n1,))
    same(ob, "separate projects", go(e, A, names=n2), fe, "names %s" % (n2,))
    same(ob, "separate projects", go(e, A, names=n1), fd, "names %s again" % (n1,))
    same(ob, "separate projects", go(d, A, names=n2), fe, "names %s again" % (n2,))
    # one surface shared, the other not
    mixed = go(dict(d, n=[d["n"][0], e["n"][1]], w=[d["w"][0], e["w"][1]]), tmp(ob))
    same(ob, "separate projects", go(e, A, names=(base, base + "rear")), mixed, "front from one run, rear from the other")
    ob.fp("names", d, base)


def k_function(case, ob, rng):
    """The functions that make one interface: returned when new, when stored, after overwriting, and not stored when asked not to."""
    from rayflare.transfer_matrix_method import TMM
    from rayflare.matrix_formalism.ideal_cases import lambertian_matrix, mirror_matrix
    from rayflare.ray_tracing.rt import RT
    from rayflare.rigorous_coupled_wave_analysis import RCWA
    from rayflare.angles import make_angle_vector
    from rayflare.structure import RTgroup
    from rayflare.textures import regular_pyramids
    from solcore.structure import Layer
    d = spec(rng, methods=["TMM"])
    e = change(rng, d)
    which = str(rng.choice(["TMM", "TMM", "RT", "RCWA", "mirror", "lambertian"]))
    side = str(rng.choice(["front", "rear"]))
    os.makedirs(os.path.join(ob.dir, "m"))

    def make(s, path, save=True, overwrite=False, sd=side):
        o = opts(s)
        seed_all(3)
        L = [Layer(s["w"][0] * 1e-9, mk([s["n"][0], s["k"][0], 0, 0]))]
        inc, tr = mk([1.0, 0, 0, 0]), mk([s["nb"], 0, 0, 0])
        os.makedirs(path, exist_ok=True)
        if which == "TMM":
            r = TMM(L, inc, tr, "q", o, path, front_or_rear=sd, save=save, overwrite=overwrite)
        elif which == "RT":
            r = RT(RTgroup(textures=[regular_pyramids(s["ang"])]), inc, tr, "q", o, path, 0, sd, 0, None, save=save, overwrite=overwrite)
        elif which == "RCWA":
            o.RCWA_method = "Inkstone"
            o.orders = 5
            o.n_theta_bins = 2
            geo = [{"type": "circle", "mat": mk([1.0, 0, 0, 0]), "center": (0, 0), "radius": 120}]
            L = [Layer(s["w"][0] * 1e-9, mk([s["n"][0], s["k"][0], 0, 0]), geometry=geo)]
            r = RCWA(L, ((400, 0), (0, 400)), 5, o, path, inc, tr, only_incidence_angle=False, front_or_rear=sd, surf_name="q", save=save, overwrite=overwrite)
        else:
            n = s["nt"] + (0 if s is d else 1)
            th, ph, av = make_angle_vector(n, np.pi / 2, 0.3)
            r = mirror_matrix(av, th, ph, "q", o, path, sd, save, overwrite) if which == "mirror" else lambertian_matrix(av, th, "q", path, sd, save, overwrite)
        return [np.asarray(x.todense()) for x in r[:2]]

    def eq(name, a, b, msg):
        for u, v in zip(a, b):
            ob.check(name, u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-12, equal_nan=True), "%s (%s %s)" % (msg, which, side))
    P = os.path.join(ob.dir, "m")
    fd, fe = make(d, tmp(ob)), make(e, tmp(ob))
    make(d, P, save=False)
    ob.check("function-level reuse", not files(P), "save=False left %s" % files(P))
    eq("function-level reuse", make(d, P), fd, "first run")
    ob.check("function-level reuse", len(files(P)) >= 2, "save=True left %s" % files(P))
    eq("function-level reuse", make(e, P), fd, "stored matrices reused")
    eq("function-level reuse", make(e, P, save=False, overwrite=True), fe, "overwrite without saving")
    eq("function-level reuse", make(e, P), fd, "stored matrices survive an unsaved run")
    other = "rear" if side == "front" else "front"
    fo = make(e, tmp(ob), sd=other)
    eq("function-level reuse", make(e, P, sd=other), fo, "other side is separate")
    eq("overwrite replaces", make(e, P, overwrite=True), fe, "overwritten")
    eq("overwrite replaces", make(d, P), fe, "reuse after overwriting")
    if any(u.shape != v.shape or np.max(np.abs(u - v)) > 1e-3 for u, v in zip(fd, fe)):
        ob.fp("function", which, side, d)


def k_profile(case, ob, rng):
    """Profiles asked for after matrices were stored without them: calculated, and equal to a fresh run."""
    from rayflare.transfer_matrix_method import TMM
    from solcore.structure import Layer
    d = spec(rng, methods=["TMM"], prof=True)
    e = dict(d, prof=False)
    A = tmp(ob)
    x0 = go(e, A)
    x = go(d, A)
    f = go(d, tmp(ob))
    same(ob, "companion profile", x, f, "profiles requested later")
    same(ob, "companion profile", go(e, A)[:6], x0[:6], "without profiles again")
    fl = [g for g in files(A) if "prof" in os.path.basename(g)]
    ob.check("companion profile", len(fl) == 3, "stored profiles: %s" % fl)
    for g in fl[:2]:
        os.remove(g)
    same(ob, "companion profile", go(d, A), f, "after losing stored profiles")
    ob.fp("profile", d)


def k_rt_structure(case, ob, rng):
    """Lookup tables of ray-traced structures: stored per project/location/surface, replaced on request."""
    from rayflare.ray_tracing import rt_structure
    from rayflare.textures import planar_surface
    from solcore.structure import Layer
    d = spec(rng)
    e = change(rng, d)

    def go2(s, loc, ow=False, project="p"):
        seed_all(4)
        o = opts(s, project)
        o.nx = o.ny = 3
        o.n_rays = 60
        tx = planar_surface(interface_layers=[Layer(s["w"][0] * 1e-9, mk([s["n"][0], s["k"][0], 0, 0]))], name="film")
        st = rt_structure([tx, planar_surface()], [mk([s["nb"], s["kb"], 0, 0])], [s["d"]], mk([1.0, 0, 0, 0]), mk([1.0, 0, 0, 0]), o, use_TMM=True,
                          save_location=loc, overwrite=ow)
        r = st.calculate(o)
        return np.concatenate([np.asarray(r[k]).ravel() for k in ("R", "T", "A_per_layer")] + [np.asarray(x).ravel() for x in r["A_per_interface"]])
    A = tmp(ob)
    fd, fe = go2(d, tmp(ob)), go2(e, tmp(ob))
    ob.close("lookup table replaced", go2(d, A), fd, 1e-12, msg="first")
    ob.close("lookup table replaced", go2(d, A), fd, 1e-12, msg="reused")
    ob.close("lookup table replaced", go2(e, A, ow=True), fe, 1e-12, msg="overwritten in the same process")
    ob.close("lookup table replaced", go2(e, A), fe, 1e-12, msg="reused after overwriting")
    ob.close("lookup table replaced", go2(d, A, project="q"), fd, 1e-12, msg="another project")
    ob.close("lookup table replaced", go2(e, A), fe, 1e-12, msg="first project again")
    for g in files(A):
        if rng.random() < 0.7:
            os.remove(g)
    ob.close("lookup table replaced", go2(e, A), fe, 1e-12, msg="stored table lost")
    if np.max(np.abs(fd - fe)) > 1e-3:
        ob.fp("rt", d)
