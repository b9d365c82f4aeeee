import sys; sys.path.insert(0, "/verif/tools")
from mkbug import bug
LT, TM, MM, AN, RT, UT, IC = ("transfer_matrix_method/lookup_table.py", "transfer_matrix_method/tmm.py", "matrix_formalism/multiply_matrices.py", "angles.py", "ray_tracing/rt.py", "utilities.py", "matrix_formalism/ideal_cases.py")

bug("lookup-rear-coherency", "P04", [(LT, "coherency_lists = [coherency_list, coherency_list[::-1]]", "coherency_lists = [coherency_list, coherency_list]")], '''
from solcore.structure import Layer
from solcore.absorption_calculator import OptiStack
from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
from rayflare.transfer_matrix_method import tmm_structure
from rayflare.options import default_options
a, b, air, sub = Mat(1.5), Mat(2.4), Mat(1.0), Mat(3.5)
L = [Layer(100e-9, a), Layer(2300e-9, b)]
o = default_options(); o.wavelength = np.linspace(500, 600, 9) * 1e-9; o.lookuptable_angles = 5; o.pol = "u"
t = make_TMM_lookuptable(L, air, sub, "s", o, W, coherent=False, coherency_list=["c", "i"], sides=[1, -1])
th = 0.0
d = tmm_structure(L[::-1], sub, air).calculate(dict(wavelength=o.wavelength, theta_in=th, pol="s", coherent=False, coherency_list=["i", "c"]))
e = np.abs(t["R"].loc[dict(side=-1, pol="s")].data[:, 0] - d["R"]).max()
done(e < 1e-6, "rear entry of the lookup table deviates by %g from a direct calculation" % e)
''', "a lookup table for light from behind of a partly coherent stack whose coherency list is not symmetric", "the rear side of the table is calculated with the coherency of the wrong layers")

bug("profile-noise-floor", "P03", [(TM, '''            output["profile"][output["profile"] < 0] = 0
''', '''            # numerical noise
            output["profile"][output["profile"] < 1e-6] = 0
''')], '''
from solcore.structure import Layer
from rayflare.transfer_matrix_method import tmm_structure
d = 40e-6
s = tmm_structure([Layer(50e-9, Mat(1.9, 0.01)), Layer(d, Mat(3.5, 3e-5))], Mat(1.0), Mat(1.0))
r = s.calculate(dict(wavelength=np.array([1e-6]), theta_in=0.2, pol="u", coherent=True, depth_spacing=20e-9), profile=True, layers=[2])
i = np.trapezoid(r["profile"][0], dx=20)
A = r["A_per_layer"][0, 1]
done(abs(i - A) < 0.02 * A, "profile of a weakly absorbing thick layer integrates to %g, its absorption is %g" % (i, A))
''', "a layer thick and weakly absorbing enough that its absorption per nm is below 1e-6 although it absorbs several per cent in total", "the absorption profile of such a layer is cut to zero")

bug("one-wavelength-dies", "P08", [(MM, '''            # vf_1[i1] = dot_wl_u2d(up2down, vf_1[i1])

            # rep
            i2 = 1

            while np.any(power > options["I_thresh"]):''', '''            # vf_1[i1] = dot_wl_u2d(up2down, vf_1[i1])

            # rep
            i2 = 1

            while np.all(power > options["I_thresh"]):''')], '''
from solcore.structure import Layer
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure, calculate_RAT
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([500e-9, 1000e-9]); o.n_theta_bins = 8; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2
o.project_name = "p"; o.I_thresh = 1e-8; o.bulk_profile = False; o.pol = "s"; o.parallel = False
m = Mat(3.5, lambda w: np.where(w < 700e-9, 0.05, 1e-6))
f = Interface("TMM", name="f", layers=[Layer(60e-9, Mat(1.8))], coherent=True)
b = Interface("Mirror", name="b", layers=[])
S = Structure([f, BulkLayer(100e-6, m, name="bulk"), b], incidence=Mat(1.0), transmission=Mat(1.0))
process_structure(S, o, W)
r = calculate_RAT(S, o, W)[0]
tot = (r["R"] + r["T"] + r["A_bulk"]).data[0]
done(np.abs(tot - 1).max() < 1e-3, "R + T + A_bulk = %s" % tot)
''', "several wavelengths of which one is absorbed completely in the first pass while another one is still bouncing", "light still inside the bulk at the other wavelengths is lost from the balance")

bug("rear-interface-profile-side", "P09", [(MM, '''                    scale = ((np.sum(Ab[i1].todense(), 1) * vf_2[i1]) / Ib[i1]).fillna(
                        0
                    )''', '''                    scale = ((np.sum(Af[i1].todense(), 1) * vf_2[i1]) / Ib[i1]).fillna(
                        0
                    )''')], '''
from solcore.structure import Layer
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure, calculate_RAT
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([900e-9]); o.n_theta_bins = 8; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2
o.project_name = "p"; o.I_thresh = 1e-8; o.bulk_profile = False; o.pol = "u"; o.parallel = False; o.depth_spacing = 0.05e-9
f = Interface("TMM", name="f", layers=[Layer(10e-9, Mat(0.6, 2.0)), Layer(40e-9, Mat(1.8, 0.02))], coherent=True, prof_layers=[1, 2])
b = Interface("Mirror", name="b", layers=[])
S = Structure([f, BulkLayer(10e-6, Mat(3.5), name="bulk"), b], incidence=Mat(1.0), transmission=Mat(1.0))
process_structure(S, o, W)
RAT, per_pass, prof, bulk = calculate_RAT(S, o, W)
i = float(np.trapezoid(prof[0].data[0], dx=0.05))
A = float(RAT["A_interface"].sel(surf_index=0).data[0])
done(abs(i - A) < 0.02 * A, "interface profile integrates to %g, absorption of the interface is %g" % (i, A))
''', "an absorbing interface stack with a requested profile and light which comes back to it from the bulk", "the profile made by light coming from below is scaled with the absorption for light from above")

bug("profile-file-not-required", "P10", [(UT, '''            if os.path.isfile(prof_mat_path):
                prof_dataset = xr.load_dataset(prof_mat_path)
                return [existing, [full_mat, A_mat, prof_dataset]]
            else:
                logger.info("Recalculating with absorption profile information")
                existing = False
                return [existing, [savepath_RT, savepath_A, prof_mat_path]]
''', '''            if os.path.isfile(prof_mat_path):
                prof_dataset = xr.load_dataset(prof_mat_path)
                return [existing, [full_mat, A_mat, prof_dataset]]
            else:
                logger.info("No absorption profile information found")
                return [existing, [full_mat, A_mat]]
''')], '''
from solcore.structure import Layer
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure, calculate_RAT
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([900e-9]); o.n_theta_bins = 8; o.c_azimuth = 0.25; o.phi_symmetry = np.pi / 2
o.project_name = "p"; o.I_thresh = 1e-8; o.bulk_profile = False; o.pol = "u"; o.parallel = False
def go(prof):
    f = Interface("TMM", name="f", layers=[Layer(40e-9, Mat(1.8, 0.2))], coherent=True, **({"prof_layers": [1]} if prof else {}))
    S = Structure([f, BulkLayer(10e-6, Mat(3.5), name="bulk"), Interface("Mirror", name="b", layers=[])], incidence=Mat(1.0), transmission=Mat(1.0))
    process_structure(S, o, W)
    return calculate_RAT(S, o, W)
go(False)          # the project now holds results without profiles
try:
    r = go(True)
    ok, what = len(r) > 2 and float(np.sum(r[2][0].data)) > 0, "profile requested later was returned"
except Exception as e:
    ok, what = False, "asking for a profile later raised %r" % (e,)
done(ok, what)
''', "a project whose stored matrices were made without profiles, used again with profiles requested", "the missing profile is not calculated")

bug("turned-azimuth", "P06", [(MM, "phi_rebin = fold_phi(angle_vector[:, 2] + np.pi, phi_sym)", "phi_rebin = fold_phi(angle_vector[:, 2], phi_sym)")], '''
from rayflare.matrix_formalism.multiply_matrices import out_to_in_matrix
from rayflare.angles import make_angle_vector
th, ph, av = make_angle_vector(10, 2 * np.pi, 0.5)
u, d = out_to_in_matrix(2 * np.pi, av, th, ph)
n = len(av) // 2
bad = 0
for i in range(n, 2 * n):                       # light leaving downwards...
    j = int(np.argmax(d.todense()[:, i - n]))    # ...arrives from the opposite azimuth
    turn = (av[j, 2] - av[i, 2]) % (2 * np.pi)
    nph = np.sum(av[:n, 0] == av[j, 0])
    bad += abs(turn - np.pi) > 2 * np.pi / nph * 1.01 and nph > 2
done(bad == 0, "%d of %d bins arrive from the wrong azimuth" % (bad, n))
''', "azimuthal bins over the full circle, or any symmetry element in which turning by 180 degrees changes the bin", "light leaving one interface arrives at the next one from the azimuth it travels to")

bug("random-pyramid-normals", "P13", [(RT, '''            self.crossP = np.cross(self.P_1s - self.P_0s, self.P_2s - self.P_0s)
            self.N = self.crossP / np.linalg.norm(self.crossP, axis=1)[:, None]
            self.z_min = min(self.Points[:, 2])''', '''            self.crossP = np.cross(self.P_1s - self.P_0s, self.P_2s - self.P_0s)
            self.z_min = min(self.Points[:, 2])''')], '''
from rayflare.textures import regular_pyramids
h = dict(h=np.array([0.5, 2.5]), p=np.array([0.5, 0.5]))
t = regular_pyramids(elevation_angle=50, upright=True, size=5, height_distribution=h)[0]
e = 0
for _ in range(20):
    t.refresh()
    n = np.cross(t.P_1s - t.P_0s, t.P_2s - t.P_0s)
    n = n / np.linalg.norm(n, axis=1)[:, None]
    e = max(e, np.abs(n - t.N).max())
done(e < 1e-9, "facet normals deviate by %g from the facets rays are intersected with" % e)
''', "pyramids with a height distribution, with a height different from the nominal one", "rays are reflected and refracted at facets of the new height with the normals of the nominal height")

bug("upward-profile", "P14", [(RT, '''    if direction == -1:
        DA_u = np.flip(DA_u)

    intgr = np.trapz(DA_u, positions)''', '''    intgr = np.trapz(DA_u, positions)''')], '''
from rayflare.ray_tracing import rt_structure
from rayflare.textures import planar_surface
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([900e-9]); o.nx = o.ny = 3; o.n_rays = 9; o.pol = "u"; o.theta_in = 0.0; o.phi_in = 0.0
o.parallel = False; o.depth_spacing_bulk = 0.1e-6; o.I_thresh = 1e-9; o.project_name = "p"; o.random_ray_position = False; o.randomize_surface = False
k = 0.02
r = rt_structure([planar_surface(), planar_surface()], [Mat(2.0, k)], [20e-6], Mat(2.0), Mat(2.0, 1e9), options=o).calculate(o)
p = r["profile"][0]
z = np.arange(len(p)) * 0.1
a = 4 * np.pi * k / 0.9
want = np.exp(-a * z) + np.exp(-a * (40 - z))
q = p / p[0] * want[0]
q, want = q[:-3], want[:-3]
done(np.abs(q / want - 1).max() < 0.05, "profile of a layer on a mirror deviates by %g from light going down and coming back up" % np.abs(q / want - 1).max())
''', "light which travels upwards through an absorbing layer", "the absorption of light going up is largest at the top of the layer instead of the bottom")
