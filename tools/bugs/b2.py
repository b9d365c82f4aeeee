import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkbug import bug
LT, TM, MM, AN, RT, UT, IC, PS, RC, TX, DT, DF = ("transfer_matrix_method/lookup_table.py", "transfer_matrix_method/tmm.py", "matrix_formalism/multiply_matrices.py", "angles.py", "ray_tracing/rt.py", "utilities.py", "matrix_formalism/ideal_cases.py", "matrix_formalism/process_structure.py", "rigorous_coupled_wave_analysis/rcwa.py", "textures/standard_rt_textures.py", "textures/define_textures.py", "analytic/diffraction.py")
SEL = sys.argv[1:]
_b = bug
def bug(id, *a):
    if not SEL or id in SEL: _b(id, *a)

bug("evanescent-transmission", "P05", [(TM, "if np.isnan(theta_t) and T_prob > 1e-8:", "if np.isnan(theta_t) and T_prob > 0.05:")], '''
from solcore.structure import Layer
from rayflare.transfer_matrix_method import TMM
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([600e-9]); o.n_theta_bins = 10; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2; o.pol = "u"
RT, A = TMM([Layer(20e-9, Mat(1.5))], Mat(3.0), Mat(1.4, 0.02), "s", o, W, save=False)
t = RT.todense()[0].sum(0) + A.todense()[0].sum(0)
done(np.abs(t - 1).max() < 1e-6, "R + T + A per incident channel = %s" % np.round(t, 4))
''', "light beyond the critical angle of a weakly absorbing medium behind the interface, of which a few per cent are transmitted", "the transmitted light at these angles vanishes from the redistribution matrix")

bug("lookup-rear-profile-order", "P04", [(LT, "prof_layers_rev = len(layers) - np.array(prof_layers[::-1]) + 1", "prof_layers_rev = len(layers) - np.array(prof_layers) + 1")], '''
from solcore.structure import Layer
from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
from rayflare.options import default_options
L = [Layer(30e-9, Mat(1.9, 0.01)), Layer(60e-9, Mat(2.4, 0.3))]
o = default_options(); o.wavelength = np.array([500e-9, 700e-9]); o.lookuptable_angles = 3
t = make_TMM_lookuptable(L, Mat(1.0), Mat(3.5), "s", o, W, prof_layers=[1, 2])
e = 0
for l, w in ((1, 30), (2, 60)):
    z = np.linspace(0, w, 4001)
    for i in range(2):
        A1, A2, A3r, A3i, a1, a3 = t["Aprof"].loc[dict(side=-1, pol="s", layer=l)].transpose("wl", "angle", "coeff").data[i, 0]
        p = np.real(A1 * np.exp(a1 * z) + A2 * np.exp(-a1 * z) + (A3r + 1j * A3i) * np.exp(1j * a3 * z) + (A3r - 1j * A3i) * np.exp(-1j * a3 * z))
        e = max(e, abs(np.trapezoid(p, z) - t["Alayer"].loc[dict(side=-1, pol="s", layer=l)].data[i, 0]))
done(e < 1e-3, "profile parameters for incidence from behind and absorption per layer differ by %g" % e)
''', "a lookup table with profiles in more than one layer, for light from behind", "the profile parameters for the rear side are stored under the wrong layers")

bug("bulk-profile-scale", "P09", [(MM, "corrected = scale[:, None] * result", "corrected = np.clip(scale, 0.5, 2)[:, None] * result  # rounding only")], '''
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure, calculate_RAT
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([400e-9, 1000e-9]); o.n_theta_bins = 8; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2
o.project_name = "p"; o.I_thresh = 1e-8; o.bulk_profile = True; o.pol = "u"; o.parallel = False; o.depth_spacing_bulk = 1e-6
m = Mat(3.5, lambda w: np.where(w < 700e-9, 0.5, 1e-4))
S = Structure([Interface("TMM", name="f", layers=[]), BulkLayer(50e-6, m, name="bulk"), Interface("Mirror", name="b", layers=[])], incidence=Mat(1.0), transmission=Mat(1.0))
process_structure(S, o, W)
RAT, pp, prof, bulk = calculate_RAT(S, o, W)
i = np.trapezoid(bulk[0], dx=1e-6, axis=1)
A = RAT["A_bulk"].data[0]
done(np.abs(i - A).max() < 0.01, "bulk profile integrates to %s, bulk absorption is %s" % (i, A))
''', "a wavelength absorbed in the bulk within much less than the depth spacing", "the bulk profile does not account for the absorbed light any more")

bug("grazing-path", "P08", [(MM, "diag = np.exp(-alphas[:, None] * thick / abs(np.cos(thetas[None, :])))", "diag = np.exp(-alphas[:, None] * thick / np.maximum(abs(np.cos(thetas[None, :])), 0.15))")], '''
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure, calculate_RAT
from rayflare.options import default_options
from rayflare.angles import make_angle_vector
o = default_options(); o.wavelength = np.array([1000e-9]); o.n_theta_bins = 40; o.c_azimuth = 0.05; o.phi_symmetry = np.pi / 2
o.project_name = "p"; o.I_thresh = 1e-9; o.bulk_profile = False; o.pol = "s"; o.parallel = False
th, ph, av = make_angle_vector(40, np.pi / 2, 0.05)
o.theta_in = av[len(av) // 2 - 1, 1]; o.phi_in = 0.5
S = Structure([Interface("TMM", name="f", layers=[]), BulkLayer(10e-6, Mat(1.0, 2e-4), name="bulk"), Interface("Mirror", name="b", layers=[])], incidence=Mat(1.0), transmission=Mat(1.0))
process_structure(S, o, W)
A = calculate_RAT(S, o, W)[0]["A_bulk"].data[0, 0]
a = 4 * np.pi * 2e-4 / 1e-6
want = 1 - np.exp(-2 * a * 10e-6 / np.cos(o.theta_in))
done(abs(A - want) < 1e-3, "two passes at %g rad absorb %g instead of %g" % (o.theta_in, A, want))
''', "light travelling through the bulk at grazing angles (fine angular bins)", "the path through the bulk is cut short for the bins closest to the horizon")

bug("overwrite-lookup", "P10", [(PS, '''                    prof_layers,
                    [1, -1],
                    overwrite,
''', '''                    prof_layers,
                    [1, -1],
''')], '''
from solcore.structure import Layer
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
from sparse import load_npz
def run(k, overwrite):
    o = default_options(); o.wavelength = np.array([600e-9]); o.n_theta_bins = 4; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2
    o.project_name = "p"; o.pol = "u"; o.parallel = False; o.nx = o.ny = 2; o.n_rays = 400; o.only_incidence_angle = False; o.lookuptable_angles = 5; o.bulk_profile = False
    np.random.seed(1); random.seed(1)
    f = Interface("RT_TMM", name="f", texture=planar_surface(), layers=[Layer(100e-9, Mat(1.8, k))], coherent=True)
    S = Structure([f, BulkLayer(10e-6, Mat(3.5), name="bulk"), Interface("Mirror", name="b", layers=[])], incidence=Mat(1.0), transmission=Mat(1.0))
    process_structure(S, o, W, overwrite=overwrite)
    return load_npz(W + "/p/ffrontA.npz").todense().sum()
a, b = run(0.0, True), run(1.0, True)
done(a == 0 and b > 0.5, "absorption without and with an absorbing film, after overwriting: %g, %g" % (a, b))
''', "recalculating a structure with RT_TMM interface under the same name with overwrite=True after its film changed", "the lookup table of the old film is used for the new one")

bug("ray-count", "P11", [(RT, "T = np.real(Is * trns).T / (n_reps * nx * ny)", 'T = np.real(Is * trns).T / options["n_rays"]')], '''
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([600e-9]); o.parallel = False; o.nx = 4; o.ny = 5; o.n_rays = 50; o.depth_spacing_bulk = 1e-6; o.I_thresh = 1e-6
s = rt_structure([planar_surface(), planar_surface()], [Mat(1.5)], [10e-6], Mat(1.0), Mat(1.5))
r = s.calculate(o)
t = (r["R"] + r["T"] + r["A_per_layer"].sum(1))[0]
done(abs(t - 1) < 1e-9, "R + T + A = %g" % t)
''', "a number of rays which is not a multiple of nx*ny", "transmitted rays are divided by the number of rays asked for instead of the number traced")

bug("fresnel-real-angle", "P12", [(RT, "theta_t = np.arcsin((n1 / n2) * np.sin(theta))", "theta_t = np.arcsin(np.clip(np.real(n1) / np.real(n2) * np.sin(theta), -1, 1))")], '''
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([600e-9]); o.parallel = False; o.nx = o.ny = 10; o.n_rays = 40000; o.depth_spacing_bulk = 1e-6; o.I_thresh = 1e-6; o.pol = "p"; o.theta_in = 1.2
n = 0.2 + 3.4j
s = rt_structure([planar_surface(), planar_surface()], [Mat(0.2, 3.4)], [10e-6], Mat(1.0), Mat(1.0))
R = s.calculate(o)["R"][0]
ct = np.sqrt(1 - (np.sin(1.2) / n) ** 2); c = np.cos(1.2)
want = abs((ct - n * c) / (ct + n * c)) ** 2
done(abs(R - want) < 5 * np.sqrt(want * (1 - want) / 40000) + 1e-9, "reflectance of silver at 1.2 rad: %g instead of %g" % (R, want))
''', "oblique incidence on a strongly absorbing medium", "the reflectance uses a refraction angle without the extinction coefficient")

bug("close-hits", "P13", [(RT, "(u + v <= 1) & (np.all(np.vstack((u, v)) >= -1e-10, axis=0)) & (t > 0)", "(u + v <= 1) & (np.all(np.vstack((u, v)) >= -1e-10, axis=0)) & (t > 0.001)")], '''
from rayflare.ray_tracing import rt_structure
from rayflare.textures import regular_pyramids, planar_surface
from rayflare.options import default_options
R = []
for size in (0.002, 2):
    o = default_options(); o.wavelength = np.array([600e-9]); o.parallel = False; o.nx = o.ny = 9; o.n_rays = 81; o.depth_spacing_bulk = 1e-6; o.I_thresh = 1e-6
    s = rt_structure([regular_pyramids(75, True, size)], [], [], Mat(1.0), Mat(1.0, 1e9))
    r = s.calculate(o)
    R.append((sorted(np.round(r["thetas"][0], 6)), r["n_interactions"][0].mean()))
same = np.allclose(R[0][0], R[1][0], atol=1e-3) and abs(R[0][1] - R[1][1]) < 0.1
done(same, "mean number of hits of steep pyramids of 0.002 and 2 um: %g, %g" % (R[0][1], R[1][1]))
''', "textures with features of a few nm", "hits closer than 1 nm to the previous one are skipped, so rays pass through the surface")

bug("weak-bulk-profile", "P14", [(RT, '(I_i - I_back) * DA_u, intgr, where=intgr > 0, out=np.zeros_like(DA_u)', '(I_i - I_back) * DA_u, intgr, where=intgr > 1e-4, out=np.zeros_like(DA_u)')], '''
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([1000e-9]); o.parallel = False; o.nx = o.ny = 3; o.n_rays = 9; o.depth_spacing_bulk = 0.05e-6; o.I_thresh = 1e-6; o.theta_in = 0.3
s = rt_structure([planar_surface(), planar_surface()], [Mat(1.0, 1e-6)], [5e-6], Mat(1.0), Mat(1.0))
r = s.calculate(o)
i = np.trapezoid(r["profile"][0], dx=50)
A = r["A_per_layer"][0, 0]
done(A > 0 and abs(i - A) < 0.03 * A, "bulk profile integrates to %g, absorption is %g" % (i, A))
''', "a bulk so weakly absorbing that less than 1e-4 of a ray is absorbed per pass", "nothing is entered in the depth profile although the absorption is counted")

bug("shared-table-name", "P15", [(RT, 'names_for_lookuptable.append(text[0].name + "int_{}".format(i1))', 'names_for_lookuptable.append(text[0].name or "int_{}".format(i1))'), (RT, 'surf_name = arg_list[3][i1] + "int_{}".format(i1)', 'surf_name = arg_list[3][i1] or "int_{}".format(i1)')], '''
from solcore.structure import Layer
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([600e-9]); o.parallel = False; o.nx = o.ny = 4; o.n_rays = 1600; o.depth_spacing_bulk = 1e-6; o.I_thresh = 1e-6; o.project_name = "p"; o.lookuptable_angles = 10
f = planar_surface(interface_layers=[Layer(10e-9, Mat(1.3))], name="coated")
b = planar_surface(interface_layers=[Layer(300e-9, Mat(0.2, 4.0))], name="coated")
s = rt_structure([f, b], [Mat(1.3)], [10e-6], Mat(1.0), Mat(1.0), o, use_TMM=True, save_location=W)
r = s.calculate(o)
done(r["T"][0] < 0.05, "transmission through a thick metal film at the rear: %g" % r["T"][0])
''', "two interfaces whose textures carry the same name but different films", "both interfaces use one lookup table")

bug("uneven-channels", "P16", [(RT, '''    out_mat = np.divide(
        out_mat,
        n_rays_in_bin,
        where=n_rays_in_bin != 0,
        out=np.zeros_like(out_mat),
    )''', '''    out_mat = out_mat / max(np.max(n_rays_in_bin), 1)''')], '''
from rayflare.ray_tracing import RT
from rayflare.structure import RTgroup
from rayflare.textures import planar_surface
from rayflare.options import default_options
from rayflare.angles import make_angle_vector
o = default_options(); o.wavelength = np.array([600e-9]); o.n_theta_bins = 4; o.c_azimuth = 0.5; o.phi_symmetry = np.pi / 2
o.pol = "u"; o.parallel = False; o.nx = o.ny = 2
n = len(make_angle_vector(4, np.pi / 2, 0.5)[2]) // 2
o.n_rays = 4 * n * 3 + 4 * 2          # some channels get one more ray direction than the others
M, A = RT(RTgroup(textures=[planar_surface()]), Mat(1.0), Mat(1.5), "s", o, W, save=False)
t = M.todense()[0].sum(0)
done(np.abs(t - 1).max() < 1e-9, "R + T per incident channel: %s" % np.round(t, 4))
''', "a number of rays which does not divide evenly over the angular channels", "channels with fewer rays than others lose power")

bug("random-y", "P17", [(RT, '''            xs = np.random.uniform(x_limits[0], x_limits[1], nx)
            ys = np.random.uniform(y_limits[0], y_limits[1], ny)

        else:
            xs = np.linspace(x_limits[0], x_limits[1], nx)
            ys = np.linspace(y_limits[0], y_limits[1], ny)

        # need to calculate r_a and r_b''', '''            xs = np.random.uniform(x_limits[0], x_limits[1], nx)
            ys = np.random.uniform(x_limits[0], x_limits[1], ny)

        else:
            xs = np.linspace(x_limits[0], x_limits[1], nx)
            ys = np.linspace(y_limits[0], y_limits[1], ny)

        # need to calculate r_a and r_b''')], '''
from rayflare.ray_tracing import rt_structure
from rayflare.textures import xyz_texture
from rayflare.options import default_options
# a ridge which is only in the upper part of a cell of 1 by 4
x = np.array([0, 1, 0, 1, 0, 1, 0, 1.0]); y = np.array([0, 0, 2, 2, 3, 3, 4, 4.0]); z = np.array([0, 0, 0, 0, 0.2, 0.2, 0, 0.0])
R = []
for rnd in (False, True):
    o = default_options(); o.wavelength = np.array([600e-9]); o.parallel = False; o.nx = 2; o.ny = 4000; o.n_rays = 8000; o.depth_spacing_bulk = 1e-6; o.I_thresh = 1e-6; o.random_ray_position = rnd
    s = rt_structure([xyz_texture(x, y, z, coverage_height=0)], [], [], Mat(1.0), Mat(1.0, 1e9))
    r = s.calculate(o)
    R.append(np.mean(r["thetas"][0] < 0.01))
done(abs(R[0] - R[1]) < 0.05, "fraction of rays reflected straight back from a half flat surface: grid %g, random positions %g" % tuple(R))
''', "random ray positions on a texture whose unit cell is not square", "the random positions do not cover the unit cell")

bug("mutated-coherency", "P25", [(TM, "coherency_list = coherency_list[::-1]", "coherency_list.reverse()")], '''
from solcore.structure import Layer
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure
from rayflare.options import default_options
from sparse import load_npz
o = default_options(); o.wavelength = np.array([600e-9]); o.n_theta_bins = 6; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2; o.project_name = "p"; o.pol = "s"; o.parallel = False
f = Interface("TMM", name="f", layers=[Layer(100e-9, Mat(1.5)), Layer(3000e-9, Mat(2.4))], coherent=False, coherency_list=["c", "i"])
S = Structure([f, BulkLayer(10e-6, Mat(3.5), name="bulk"), Interface("Mirror", name="b", layers=[])], incidence=Mat(1.0), transmission=Mat(1.0))
m = []
for i in range(2):
    process_structure(S, o, W, overwrite=True)
    m.append(load_npz(W + "/p/ffrontRT.npz").todense())
done(np.array_equal(*m), "processing a structure twice gives matrices which differ by %g" % np.abs(m[0] - m[1]).max())
''', "processing the same structure object twice with a partly coherent interface with an asymmetric coherency list", "the user's coherency list is turned around, so the second result is for another structure")

bug("phi-all", "P08", [(MM, "n_phis = len(phi_intv) - 1", "n_phis = len(phi_intv) - (1 if len(phi_intv) < 4 else 2)")], '''
from rayflare.matrix_formalism.multiply_matrices import make_v0
from rayflare.angles import make_angle_vector
th, ph, av = make_angle_vector(16, np.pi / 2, 0.25)
t = 1.2
v = make_v0(t, "all", 1, 16, 0.25, np.pi / 2)[0]
b = np.digitize(t, th, right=True) - 1
on = np.where(v > 0)[0]
done(set(on) == set(np.where(av[:, 0] == b)[0]), "light from all azimuths enters bins %s instead of %s" % (on, np.where(av[:, 0] == b)[0]))
''', "phi_in = 'all' at an incidence angle whose theta bin has three or more azimuthal bins", "the last azimuthal bin gets no light")

bug("get-wavelength-once", "P23", [(UT, '''    if "wavelengths" in options:
        options["wavelength"] = options["wavelengths"]
''', '''    if "wavelengths" in options and "wavelength" not in options:
        options["wavelength"] = options["wavelengths"]
''')], '''
from solcore.structure import Layer
from rayflare.transfer_matrix_method import tmm_structure
from rayflare.options import default_options
o = default_options(); o.wavelengths = np.linspace(400, 500, 7) * 1e-9; o.pol = "s"
r = tmm_structure([Layer(100e-9, Mat(1.5))], Mat(1.0), Mat(1.0)).calculate(o)
done(len(r["R"]) == 7, "result for %d wavelengths instead of 7" % len(r["R"]))
''', "the (deprecated but documented) option 'wavelengths' together with the default options", "the wavelengths given by the user are ignored")

bug("order-azimuth-axes", "P24", [(DF, '''    fr_x = np.add(fi_x[:, None], xv.flatten() * rl[0][0] + yv.flatten() * rl[1][0])
    fr_y = np.add(fi_y[:, None], xv.flatten() * rl[0][1] + yv.flatten() * rl[1][1])''', '''    fr_x = np.add(fi_x[:, None], xv.flatten() * rl[0][0] + yv.flatten() * rl[0][1])
    fr_y = np.add(fi_y[:, None], xv.flatten() * rl[1][0] + yv.flatten() * rl[1][1])''')], '''
from rayflare.analytic.diffraction import get_order_directions
size = ((700, 0), (350, 606.2177826491071))
wl = np.array([400.0])
r = get_order_directions(wl, size, 2, 1.0, 1.5, 0.2, 0.3)
m, n = r["order_index"]
a = np.array(size)
b = np.linalg.inv(a).T       # rows: reciprocal lattice vectors / 2pi
g = m.flatten()[:, None] * b[0] + n.flatten()[:, None] * b[1]
k = np.array([np.sin(0.2) * np.cos(0.3), np.sin(0.2) * np.sin(0.3)]) / 400 + g
e = max(np.abs(r["fr_x"][0] - k[:, 0]).max(), np.abs(r["fr_y"][0] - k[:, 1]).max())
done(e < 1e-9, "in-plane wavevectors of the orders deviate by %g" % e)
''', "a lattice whose vectors are not at right angles", "the orders of an oblique lattice point in wrong directions")
