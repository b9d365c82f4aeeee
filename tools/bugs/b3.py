import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkbug import bug
LT, TM, MM, AN, RT, UT, IC, PS, RC, TX, DT, DF = ("transfer_matrix_method/lookup_table.py", "transfer_matrix_method/tmm.py", "matrix_formalism/multiply_matrices.py", "angles.py", "ray_tracing/rt.py", "utilities.py", "matrix_formalism/ideal_cases.py", "matrix_formalism/process_structure.py", "rigorous_coupled_wave_analysis/rcwa.py", "textures/standard_rt_textures.py", "textures/define_textures.py", "analytic/diffraction.py")
SEL = sys.argv[1:]
_b = bug
def bug(id, *a):
    if not SEL or id in SEL: _b(id, *a)

bug("stretch-offset", "P18", [(TX, "all_points[i1, 2] = stretch * (radius * np.cos(theta) - offset)", "all_points[i1, 2] = stretch * radius * np.cos(theta) - offset")], '''
from rayflare.textures import hemisphere_surface
s = hemisphere_surface(size=2, n_per_side=41, radius=0.8, offset=0.3, stretch=1.5)[0]
P = s.Points
r = np.hypot(P[:, 0] - 1, P[:, 1] - 1)
on = r < np.sqrt(0.8**2 - 0.3**2) - 1e-9
want = 1.5 * (np.sqrt(0.8**2 - r[on] ** 2) - 0.3)
e = np.abs(P[on, 2] - want).max()
done(e < 1e-9, "heights of the stretched cap deviate by %g" % e)
''', "a hemispherical cap which is both stretched and lowered", "the cap does not meet the plane around it")

bug("rough-edge", "P18", [(TX, '''    coords[:, 2][coords[:, 0] == size] = 0
    coords[:, 2][coords[:, 1] == size] = 0
''', '''    coords[:, 2][coords[:, 0] == size] = 0
''')], '''
from rayflare.textures import rough_planar_surface
s = rough_planar_surface(size=3, noise_angle=0.3, n_points=36, regular_grid=True)[0]
P = s.Points
lo, hi = P[P[:, 1] == 0], P[P[:, 1] == 3]
lo, hi = lo[np.argsort(lo[:, 0]), 2], hi[np.argsort(hi[:, 0]), 2]
done(np.allclose(lo, hi), "heights at opposite edges of the unit cell differ by %g" % np.abs(lo - hi).max())
''', "a rough planar surface on a regular grid", "the surface is not periodic: there are holes at the edge of the unit cell")

bug("oblique-lattice-bins", "P20", [(RC, "f_mat = np.array(S.pr.recipr_vec) / (2 * np.pi)", "f_mat = np.array(S.pr.recipr_vec).T / (2 * np.pi)")], '''
from solcore.structure import Layer
from rayflare.rigorous_coupled_wave_analysis import RCWA
from rayflare.angles import make_angle_vector
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([500e-9]); o.n_theta_bins = 8; o.c_azimuth = 1; o.phi_symmetry = 2 * np.pi
o.parallel = False; o.pol = "s"; o.RCWA_method = "Inkstone"
size = ((520, 0), (260, 450.33))
L = [Layer(100e-9, Mat(1.5), geometry=[{"type": "circle", "mat": Mat(2.5), "center": (0, 0), "radius": 120}])]
M, A = RCWA(L, size, 9, o, W, Mat(1.0), Mat(1.6), surf_name="s", save=False)
M = M.todense()[0]
ti, pi, av = make_angle_vector(8, 2 * np.pi, 1)
b = np.linalg.inv(np.array(size)).T
n = len(av) // 2
bad = 0
for c in range(0, n, 5):
    th, ph = av[c, 1:]
    k0 = -np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)]) / 500
    ok = set()
    for m1 in range(-3, 4):
        for m2 in range(-3, 4):
            k = k0 + m1 * b[0] + m2 * b[1]
            s = np.hypot(*k) * 500 / 1.6
            if s < 1:
                t = np.pi - np.arcsin(s); p = np.arctan2(k[1], k[0]) % (2 * np.pi)
                for dt in (-1e-6, 1e-6):
                    for dp in (-1e-6, 1e-6):
                        r = np.digitize(t + dt, ti, right=True) - 1
                        r = min(r, len(pi) - 1)
                        ok.add(np.argmin(abs(av[:, 0] - r)) + min(max(np.digitize((p + dp) % (2 * np.pi), pi[r], right=True) - 1, 0), len(pi[r]) - 2))
    used = [r for r in np.nonzero(M[:, c] > 1e-6)[0] if r >= n]
    bad += len([r for r in used if r not in ok])
done(bad == 0, "%d bins contain transmitted light although no diffraction order points there" % bad)
''', "a lattice whose vectors are not at right angles", "the diffraction orders of an oblique lattice are put in wrong bins")

bug("rear-grating-order", "P20", [(RC, '''        for i1, x in enumerate(layers):
            layers_oc[:, i1 + 1] =''', '''        for i1, x in enumerate(structure):
            layers_oc[:, i1 + 1] =''')], '''
from solcore.structure import Layer
from rayflare.rigorous_coupled_wave_analysis import RCWA
from rayflare.angles import make_angle_vector
from rayflare.transfer_matrix_method import tmm_structure
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([500e-9]); o.n_theta_bins = 4; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2
o.parallel = False; o.pol = "s"; o.RCWA_method = "Inkstone"
L = [Layer(100e-9, Mat(1.5), geometry=[]), Layer(70e-9, Mat(2.5, 0.2), geometry=[])]
M, A = RCWA(L, ((500, 0), (0, 500)), 1, o, W, Mat(1.0), Mat(0.99), surf_name="s", save=False, front_or_rear="rear")
av = make_angle_vector(4, np.pi / 2, 0.25)[2]
n = len(av) // 2
R = M.todense()[0][n:].sum(0)
e = 0
for c in range(n):
    r = tmm_structure(L[::-1], Mat(0.99), Mat(1.0)).calculate(dict(wavelength=o.wavelength, theta_in=np.pi - av[n + c, 1], pol="s", coherent=True))
    e = max(e, abs(r["R"][0] - R[c]))
done(e < 1e-3, "reflection of a planar stack from behind deviates by %g" % e)
''', "light from behind on a periodic interface of several different layers", "the rear side is calculated for the layers in the wrong order")

bug("films-forgotten", "P22", [(UT, '''                    cumulative_width += structure.widths[i1]
''', '''                    cumulative_width = np.sum(structure.widths[: i1 + 1])
''')], '''
from solcore.structure import Layer
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
from rayflare.utilities import make_absorption_function
o = default_options(); o.wavelength = np.array([600e-9, 700e-9]); o.parallel = False; o.nx = o.ny = 4; o.n_rays = 64; o.depth_spacing_bulk = 0.1e-6; o.depth_spacing = 10e-9; o.I_thresh = 1e-6; o.project_name = "p"; o.lookuptable_angles = 10
f = planar_surface(interface_layers=[Layer(500e-9, Mat(1.3, 0.05))], prof_layers=[1], name="f")
b = planar_surface(interface_layers=[Layer(300e-9, Mat(1.5, 0.1))], prof_layers=[1], name="b")
s = rt_structure([f, b], [Mat(1.4, 0.01)], [2e-6], Mat(1.0), Mat(1.0), o, use_TMM=True, save_location=W)
r = s.calculate(o)
z, fn = make_absorption_function(r, s, o)
done(np.all(np.diff(z) > 0) and abs(z[-1] - 2.8e-6) < 2e-8, "depths run up to %g in a device which is 2.8e-06 thick; smallest step %g" % (z[-1], np.diff(z).min()))
''', "a ray-traced device with thin films on the front and films on the rear", "the rear films are placed too close to the front, inside the bulk")

bug("transparent-wavelength", "P01", [(TM, '''                    where=np.sum(A_per_layer, axis=0) != 0,
''', '''                    where=np.all(np.sum(A_per_layer, axis=0) != 0),
''')], '''
from solcore.structure import Layer
from rayflare.transfer_matrix_method import tmm_structure
m = Mat(2.0, lambda w: np.where(w < 600e-9, 0.01, 0.0))
s = tmm_structure([Layer(5000e-9, m)], Mat(1.0), Mat(1.0))
r = s.calculate(dict(wavelength=np.array([500e-9, 700e-9]), theta_in=0.3, pol="u", coherent=False, coherency_list=["i"]))
t = r["R"] + r["T"] + r["A_per_layer"].sum(1)
done(np.abs(t - 1).max() < 1e-9, "R + T + A = %s" % t)
''', "unpolarised light on a partly incoherent stack which absorbs at some of the wavelengths and is transparent at others", "the absorption per layer is zero at all wavelengths")

bug("mirror-rear", "P07", [(IC, '''            angle_vector_phi = angle_vector[int(len(angle_vector) / 2) :, 2]
''', '''            angle_vector_phi = angle_vector[: int(len(angle_vector) / 2), 2]
''')], '''
from rayflare.matrix_formalism.ideal_cases import mirror_matrix
from rayflare.angles import make_angle_vector
ti, pi, av = make_angle_vector(6, 2 * np.pi, 0.5)
M, A = mirror_matrix(av, ti, pi, "s", dict(phi_symmetry=2 * np.pi), W, front_or_rear="rear", save=False)
M = M.todense(); n = len(av) // 2
bad = 0
for c in range(n):
    r = np.argmax(M[:, c])
    p = (av[n + c, 2] + np.pi) % (2 * np.pi)
    w = 2 * np.pi / (len(pi[int(av[r, 0])]) - 1)
    d = abs((av[r, 2] - p + np.pi) % (2 * np.pi) - np.pi)
    bad += M[:, c].sum() != 1 or av[r, 0] != av[n + c, 0] or d > w / 2 + 1e-9
done(bad == 0, "%d of %d directions are not reflected specularly" % (bad, n))
''', "the matrix of a mirror for light from behind, with several azimuthal bins", "light is reflected to wrong azimuths")

bug("film-profile-flip", "P15", [(RT, '''        result = np.real(part1 + part2 + part3 + part4)

        if side == -1:
            result = np.flip(result, 1)
        return result.reduce(np.sum, axis=0).assign_coords(
            dim_0=z[layer_index] + offset[layer_index]
        )

    def profile_per_angle(x, z, offset, side):''', '''        result = np.real(part1 + part2 + part3 + part4)

        return result.reduce(np.sum, axis=0).assign_coords(
            dim_0=z[layer_index] + offset[layer_index]
        )

    def profile_per_angle(x, z, offset, side):''')], '''
from solcore.structure import Layer
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([600e-9]); o.parallel = False; o.nx = o.ny = 10; o.n_rays = 2000; o.depth_spacing_bulk = 1e-6; o.depth_spacing = 5e-9; o.I_thresh = 1e-6; o.project_name = "p"; o.lookuptable_angles = 10
m = Mat(1.5)
f = planar_surface(interface_layers=[Layer(500e-9, Mat(1.5, 0.2))], prof_layers=[1], name="f")
s = rt_structure([f, planar_surface()], [m], [1e-6], m, Mat(1.0, 1e9), o, use_TMM=True, save_location=W)
r = s.calculate(dict(o, initial_material=1, initial_direction=-1))
p = r["interface_profiles"][0][0]
done(p[-1] > 5 * p[0], "light from below: absorption at the top of the film %g, at the bottom %g" % (p[0], p[-1]))
''', "light which is absorbed in a film after arriving from below", "the absorption profile in the film is upside down")

bug("widths-grow", "P25", [(RT, "        widths = self.widths[:]\n        widths.insert(0, 0)", "        widths = self.widths\n        widths.insert(0, 0)")], '''
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([600e-9]); o.parallel = False; o.nx = o.ny = 2; o.n_rays = 4; o.depth_spacing_bulk = 1e-6; o.I_thresh = 1e-6
s = rt_structure([planar_surface(), planar_surface()], [Mat(1.0, 0.01)], [10e-6], Mat(1.0), Mat(1.0))
A = []
try:
    for i in range(2): A.append(s.calculate(o)["A_per_layer"])
    ok = np.array_equal(*A)
except Exception as e: ok = False; A.append(e)
done(ok, "absorption in two identical calculations: %s" % A)
''', "calculating twice with the same ray-tracing structure", "the list of widths of the structure grows with every calculation")
