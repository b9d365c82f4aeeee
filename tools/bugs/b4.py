import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkbug import bug
LT, TM, MM, AN, RT, UT, IC, PS, RC, TX, DT, DF = ("transfer_matrix_method/lookup_table.py", "transfer_matrix_method/tmm.py", "matrix_formalism/multiply_matrices.py", "angles.py", "ray_tracing/rt.py", "utilities.py", "matrix_formalism/ideal_cases.py", "matrix_formalism/process_structure.py", "rigorous_coupled_wave_analysis/rcwa.py", "textures/standard_rt_textures.py", "textures/define_textures.py", "analytic/diffraction.py")
SEL = sys.argv[1:]
_b = bug
def bug(id, *a):
    if not SEL or id in SEL: _b(id, *a)

bug("shape-constants-kept", "P21", [(RC, '''        for i1, x in enumerate(self.shape_mats):
            if isinstance(x, list):
                if len(x) == 3:
                    shapes_oc[:, i1] =''', '''        if np.shape(getattr(self, "shapes_oc", None)) == shapes_oc.shape:
            shapes_oc[:] = self.shapes_oc

        for i1, x in enumerate(self.shape_mats):
            if shapes_oc[:, i1].any():
                continue  # known already

            if isinstance(x, list):
                if len(x) == 3:
                    shapes_oc[:, i1] =''')], '''
from solcore.structure import Layer
from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
from rayflare.options import default_options
disp = Mat(lambda w: 2.0 + 0.5 * (w * 1e6 - 0.5), name="disp")
o = default_options(); o.wavelength = np.array([400e-9, 500e-9]); o.parallel = False; o.pol = "s"; o.RCWA_method = "Inkstone"; o.orders = 9; o.A_per_order = False
new = lambda: rcwa_structure([Layer(120e-9, Mat(1.5), geometry=[{"type": "circle", "mat": disp, "center": (0, 0), "radius": 110}])], ((400, 0), (0, 400)), o, Mat(1.0), Mat(1.6))
s = new(); s.calculate(o)
o.wavelength = np.array([700e-9, 900e-9])
a, b = s.calculate(o)["R"], new().calculate(o)["R"]
done(np.allclose(a, b, atol=1e-8), "R of a used structure %s, of a new one %s" % (a, b))
''', "a patterned structure with a dispersive shape material, used for as many wavelengths as before, but other ones", "the shapes keep the optical constants of the first wavelengths")

bug("turned-rectangle", "P19", [(RC, '''                        [x * 2 for x in shape["halfwidths"]],
                        shape["center"],
                        shape["angle"],
                    )
                # ? argument''', '''                        [x * 2 for x in shape["halfwidths"]][:: 1 if abs(shape["angle"]) <= 45 else -1],
                        shape["center"],
                        # a rectangle turned by more than 45 degrees is another one turned by less
                        shape["angle"] if abs(shape["angle"]) <= 45 else 90 - shape["angle"],
                    )
                # ? argument''')], '''
from solcore.structure import Layer
from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([500e-9]); o.parallel = False; o.pol = "s"; o.RCWA_method = "Inkstone"; o.orders = 21; o.A_per_order = False
o.theta_in = 0.4; o.phi_in = 0.3
def R(h, a):
    return rcwa_structure([Layer(120e-9, Mat(1.5), geometry=[{"type": "rectangle", "mat": Mat(2.5), "center": (0, 0), "halfwidths": h, "angle": a}])], ((500, 0), (0, 500)), o, Mat(1.0), Mat(1.6)).calculate(o)["R"][0]
a, b = R((160, 60), 65), R((60, 160), -25)
done(abs(a - b) < 1e-9, "R of a rectangle %.6f, of the same one with sides exchanged and turned by 90 degrees %.6f" % (a, b))
''', "a rectangle turned by more than 45 degrees, not 90", "the rectangle is mirrored")

bug("small-angle-shortcut", "P02", [(TM, '''                out_s = tmm.inc_tmm(
                    "s",
                    layer_stack.get_indices(wavelength),
                    layer_stack.get_widths(),
                    coherency_list,
                    angle,
                    wavelength,
                )

                A_per_layer_p''', '''                # near normal incidence the polarisations do not differ
                out_s = out_p if np.cos(angle) > 0.995 else tmm.inc_tmm(
                    "s",
                    layer_stack.get_indices(wavelength),
                    layer_stack.get_widths(),
                    coherency_list,
                    angle,
                    wavelength,
                )

                A_per_layer_p''')], '''
from solcore.structure import Layer
from rayflare.transfer_matrix_method import tmm_structure
from rayflare.options import default_options
o = default_options(); o.wavelength = np.array([500e-9, 800e-9]); o.theta_in = 0.09; o.coherent = False; o.coherency_list = ["c", "i"]
s = tmm_structure([Layer(80e-9, Mat(1.5)), Layer(20e-6, Mat(3.5, 1e-3))], Mat(1.0), Mat(1.4))
r = {}
for p in "spu":
    o.pol = p
    r[p] = np.array(s.calculate(o)["R"])
done(np.allclose(r["u"], (r["s"] + r["p"]) / 2, atol=1e-9), "unpolarised %s, mean of s and p %s" % (r["u"], (r["s"] + r["p"]) / 2))
''', "unpolarised light close to, but not at, normal incidence on a partly coherent stack", "the result is that of p-polarised light")

bug("mean-power", "P08", [(MM, '''            while np.any(power > options["I_thresh"]):
                vf_1[i1] = dot_wl_u2d(down2up, vf_1[i1])  # outgoing to incoming
                # print("Travelling down int, before"''', '''            while np.mean(power) > options["I_thresh"]:
                vf_1[i1] = dot_wl_u2d(down2up, vf_1[i1])  # outgoing to incoming
                # print("Travelling down int, before"''')], '''
import os
from solcore.structure import Layer
from rayflare.structure import Interface, BulkLayer, Structure
from rayflare.matrix_formalism import process_structure, calculate_RAT
from rayflare.options import default_options
os.environ["HOME"] = W
o = default_options(); o.wavelength = np.concatenate((np.full(39, 400e-9) + np.arange(39) * 1e-9, [1100e-9])); o.n_theta_bins = 8; o.c_azimuth = 1e-8; o.phi_symmetry = 2 * np.pi
o.parallel = False; o.pol = "s"; o.I_thresh = 2e-3; o.project_name = "p"; o.bulk_profile = True; o.depth_spacing_bulk = 1e-6
si = Mat(3.5, lambda w: np.where(w < 900e-9, 0.05, 1e-6), name="si")
m = [Mat(1.0, name="air"), si]
f = Interface("Lambertian", layers=[], name="f"); r = Interface("Mirror", layers=[], name="r")
f = Interface("TMM", layers=[Layer(50e-9, Mat(1.9))], name="f")
S = Structure([f, BulkLayer(50e-6, si, name="b"), r], incidence=m[0], transmission=m[0])
process_structure(S, o, save_location=W)
R = calculate_RAT(S, o, save_location=W)[0]
tot = sum(np.asarray(R[k]).sum(0) if np.asarray(R[k]).ndim > 1 else np.asarray(R[k]) for k in ("R", "T", "A_bulk", "A_interface") if k in R)
tot = np.squeeze(tot)
done(np.all(np.abs(tot - 1) < 2.5e-3), "R + A + T is %s with I_thresh %g" % (tot.ravel()[-3:], o.I_thresh))
''', "absorption profiles requested, many wavelengths of which few are weakly absorbed", "light that still travels in the bulk at few wavelengths is dropped")
