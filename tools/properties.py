"""Writes properties.jsonl (run from /verif: python3 tools/properties.py)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))


TM = "rayflare/transfer_matrix_method/tmm.py"
LT = "rayflare/transfer_matrix_method/lookup_table.py"
RT = "rayflare/ray_tracing/rt.py"
MM = "rayflare/matrix_formalism/multiply_matrices.py"
PS = "rayflare/matrix_formalism/process_structure.py"
ID = "rayflare/matrix_formalism/ideal_cases.py"
RC = "rayflare/rigorous_coupled_wave_analysis/rcwa.py"
UT = "rayflare/utilities.py"
AN = "rayflare/angles.py"
TX = "rayflare/textures/standard_rt_textures.py"
DT = "rayflare/textures/define_textures.py"
ST = "rayflare/structure.py"
OP = "rayflare/options.py"
DF = "rayflare/analytic/diffraction.py"

p("P01", "Planar multilayer optics conserve power",
  "For every planar layer stack, angle, polarisation and wavelength, the reported reflection, transmission and per-layer absorption are finite, lie between 0 and 1, and add up to one; layers without absorption absorb nothing. Unpolarised results are the mean of the s and p results.",
  ["inputs", "configurations"], "all stacks (coherent and partly coherent, absorbing or not, any media), all angles in [0, pi/2), all polarisations, all wavelength arrays",
  "The tests evaluate a handful of fixed stacks; the claim is about every stack, angle and coherency assignment.",
  [TM], [("planar solver front end", "tmm_structure.calculate"), ("coherent and incoherent dispatch", "tmm_structure.calculate: inc_tmm / coh_tmm branches")], ["returned dataset of a planar calculation"])
p("P02", "Planar multilayer optics agree with Maxwell's equations",
  "Reflection, transmission and per-layer absorption of a planar stack equal the solution of Maxwell's equations for that stack (with intensities added across incoherent layers), at every wavelength, angle and polarisation. The answer does not depend on how the stack is written down: splitting a layer in two, adding a zero-contrast or vanishingly thin layer, and passing several wavelengths at once or one by one all leave it unchanged.",
  ["inputs", "configurations", "programs"], "all stacks, media, angles, polarisations; all equivalent descriptions of a stack",
  "Tests compare a few stacks with stored or self-consistent numbers, never with an independent solver over random stacks.",
  [TM, ST], [("planar solver front end", "tmm_structure.calculate"), ("stack assembly", "tmm_structure.__init__")], ["returned dataset of a planar calculation"])
p("P03", "Planar absorption profiles are the local loss and integrate to the totals",
  "The depth-resolved absorption of a planar stack is non-negative, equals the local power loss at each sampled depth in each requested layer, and integrates over a layer to that layer's reported absorption. Requesting a subset of layers, a different depth spacing, or analytic coefficients describes the same profile.",
  ["inputs", "configurations"], "all stacks, layer subsets, depth spacings, polarisations and angles, coherent and partly coherent",
  "Tests look at single profiles on one fixed grid; agreement must hold for all layer selections and spacings.",
  [TM], [("profile evaluation", "tmm_structure.calculate_profile and calculate(profile=True)"), ("analytic coefficients", "tmm_structure.calculate profile_coeff branch")], ["profile and profile_coeff of the returned dataset"])
p("P04", "Thin-film lookup tables hold the direct planar result for both sides",
  "A thin-film lookup table gives, for each side, polarisation, wavelength and angle, the reflection, transmission, per-layer absorption (layers always labelled from the front) and profile coefficients that a direct planar calculation of the same stack seen from that side gives. A stored table reloads unchanged, is reused when present and replaced when asked for.",
  ["inputs", "configurations", "histories"], "all interface stacks, angle grids, side lists and profile-layer lists; sequences of builds under the same name",
  "Tests use lookup tables only through ray tracing of a few structures, where errors are hidden by statistical tolerance.",
  [LT, TM], [("table construction", "make_TMM_lookuptable"), ("layer order reversal for the rear side", "make_TMM_lookuptable: side -1")], ["returned dataset and stored file"])
p("P05", "Planar redistribution matrices put the planar result into specular/Snell bins",
  "In the angular redistribution matrices of a planar interface, every incidence column puts the planar reflection into the specular bin, the planar transmission into the Snell bin, and the per-layer absorption into the absorption matrix, for both sides of incidence and all polarisations, so each column sums to one. Requested depth profiles are those of the planar stack measured from its front.",
  ["inputs", "configurations"], "all interface stacks (coherent or partly coherent), bin settings, symmetry angles, sides, polarisations",
  "Tests compare only a few complete matrix calculations of single structures; they never locate individual bins or test rear incidence of asymmetric or partly coherent stacks.",
  [TM, AN], [("planar redistribution matrices", "TMM, make_matrix_wl, make_prof_matrix_wl")], ["returned and saved matrices"])
p("P06", "Angular bins tile the hemispheres and classify every direction once",
  "For every bin setting the angular bins cover each hemisphere of outgoing directions exactly once, mirror-symmetrically, and every direction, folded by the azimuthal symmetry of the surface, is assigned to the bin containing it. Summaries over azimuth preserve the probability from each incidence angle, and the fixed incidence direction of an illumination becomes the incidence bin that contains it.",
  ["inputs", "configurations"], "all numbers of polar bins, azimuthal resolutions, symmetry angles, bin spacings and directions",
  "Tests exercise a few fixed settings (make_angle_vector and fold_phi examples).",
  [AN, MM, RC, RT], [("bin construction", "make_angle_vector"), ("symmetry folding", "fold_phi"), ("summaries", "theta_summary"), ("incidence vector", "make_v0"), ("ray binning", "overall_bin / RT_wl")], ["bin edges and centres, bin chosen for a direction"])
p("P07", "Ideal surfaces: perfect Lambertian scatterers and perfect mirrors",
  "The redistribution matrix of a perfect Lambertian surface sends all light from every incidence direction into the hemisphere it came from, in proportion to the projected solid angle of each outgoing bin (uniform in azimuth). That of a perfect mirror sends all light to the specular direction; neither absorbs or transmits, for either side.",
  ["inputs", "configurations"], "all bin settings, symmetry angles, spacings, both sides, any number of wavelengths",
  "The tests check two angular settings and the front side.",
  [ID], [("Lambertian matrix", "lambertian_matrix"), ("mirror matrix", "mirror_matrix")], ["returned and saved matrices"])
p("P08", "Matrix method conserves power and equals the exact sum over bounces",
  "For a bulk layer between two interfaces combined by redistribution matrices, reflection, transmission, interface absorption and bulk absorption are non-negative and add up to one for any incidence, up to the stated convergence threshold. They equal the exact infinite sum over all internal passes of the interface matrices and the angle-dependent bulk attenuation, pass by pass as well as in total.",
  ["inputs", "configurations"], "all sets of interface matrices (planar, scattering, asymmetric), bulk thicknesses and absorption, incidence directions, polarisations",
  "Tests run a few structures with one bulk layer at one incidence direction.",
  [MM, PS], [("pass iteration", "matrix_multiplication / calculate_RAT"), ("bulk attenuation", "make_D"), ("incidence vector", "make_v0")], ["returned totals and per-pass contributions"])
p("P09", "Matrix-method depth profiles account for all absorbed light",
  "The depth-resolved bulk absorption from the matrix method is non-negative and equals the attenuation of the actual light distribution at each depth, so that integrated over the bulk it gives the reported bulk absorption; interface profiles integrate to the absorption of the interface layers they were requested for. Bulk layers without absorption have zero profile.",
  ["inputs", "configurations"], "all structures, bulk absorption from zero to opaque, depth spacings, profile-layer selections",
  "Tests compare two structures at fixed spacings.",
  [MM, PS], [("bulk profile", "bulk_profile_calc"), ("interface profiles", "matrix_multiplication with interface profiles")], ["returned profile and bulk_profile"])
p("P10", "Stored results are reused, replaced, and never mixed up or trusted when partial",
  "Results saved by one calculation are found again by the next in the same project, equal a fresh calculation, are replaced when overwriting is requested, and different surfaces, sides, projects and storage locations never get each other's data. When stored files are missing or incomplete, as after an interrupted run, the calculation is repeated or fails clearly; it never returns different numbers silently.",
  ["histories", "crash_points", "configurations"], "all sequences of calculations over projects, surfaces, overwrite flags and storage locations; all subsets of result files left by an interrupted run",
  "Tests overwrite the same project; they never reuse, delete or truncate stored files.",
  [UT, PS, TM, RC, RT, ID], [("lookup of existing results", "get_matrices_or_paths"), ("writing results", "save_npz / to_netcdf call sites"), ("project directory", "get_savepath")], ["files in the storage location, results of repeated calls"])
p("P11", "Ray tracing conserves power",
  "For every ray-traced structure the reflected, transmitted and absorbed fractions are non-negative and add up to one at each wavelength, less at most the stated intensity cut-off for truncated rays, and the split of reflection into first and later passes adds up to the total. This includes absorption in every bulk layer and every interface layer, at any incidence.",
  ["inputs", "configurations"], "all textures, media, numbers of interfaces, incidence directions, polarisations, ray counts, cut-offs",
  "Tests trace a few structures with a few hundred rays.",
  [RT], [("ray bookkeeping", "rt_structure.calculate, parallel_inner"), ("single ray", "single_ray_stack")], ["returned dataset of a ray-traced calculation"])
p("P12", "Rays split at interfaces by Fresnel's equations and refract by Snell's law",
  "At each intersection a ray is reflected with the Fresnel probability for its local angle, polarisation and media (including absorbing media), is always reflected beyond the critical angle, otherwise refracts along Snell's direction in the plane of incidence, and reflects specularly. Directions of outgoing rays therefore follow the laws of reflection and refraction for every facet orientation and side of incidence.",
  ["inputs"], "all ray directions, facet normals, media, polarisations, sides",
  "Tests check a single facet example and aggregate reflectances.",
  [RT], [("Fresnel reflectance", "calc_R"), ("interface decision", "decide_RT_Fresnel"), ("ray geometry", "single_interface_check")], ["outgoing angles and fractions"])
p("P13", "Ray paths follow the surface geometry exactly and periodically",
  "A ray hits the surface where it first meets it and passes through unit-cell boundaries into the periodic neighbour, so results do not depend on where the unit cell is cut, on the size it is expressed in, on rotating texture and incidence together, or on repeating the cell. With only deterministic interactions every path agrees with tracing the same rays over the same facets exactly.",
  ["inputs", "configurations", "programs"], "all textures, incidence directions, starting positions, equivalent descriptions of the same surface",
  "Tests compare aggregate values for a few textures.",
  [RT], [("intersection search", "check_intersect"), ("periodic continuation", "exit_side"), ("surface bookkeeping", "RTSurface")], ["outgoing directions, interaction counts and positions per ray"])
p("P14", "Ray-traced bulk absorption and its profile follow Beer-Lambert",
  "Light crossing a bulk layer loses power exponentially in the distance actually travelled, using that layer's absorption coefficient and thickness; the reported bulk absorption per layer is the sum of those losses. The depth profile is non-negative and integrates to the bulk absorption, for any depth spacing that samples a layer at least twice and any number of layers.",
  ["inputs", "configurations"], "all absorption strengths, thicknesses, angles, numbers of bulk layers, depth spacings",
  "Tests compare two structures with the planar method statistically.",
  [RT], [("bulk crossing", "traverse"), ("profile accumulation", "rt_structure.calculate, parallel_inner")], ["per-layer absorption and profile"])
p("P15", "Ray tracing with thin-film interfaces applies the thin-film result at each hit",
  "When interfaces carry thin films, rays are reflected, transmitted or absorbed there with the probabilities of that film stack for their local angle, wavelength, polarisation and side, and absorbed light is credited to the right layer of the right interface. Requested interface-layer profiles integrate to that layer's absorption.",
  ["inputs", "configurations"], "all film stacks (including absorbing and asymmetric ones), both sides of incidence, several coated interfaces",
  "Tests compare a few coated structures with stored numbers.",
  [RT, LT], [("film decision", "decide_RT_TMM"), ("film tables", "make_lookuptable_rt_structure"), ("film profiles", "make_profiles_wl, calculate_interface_profiles")], ["absorption per interface layer and profile"])
p("P16", "Ray-traced redistribution matrices are stochastic and direction-correct",
  "In the redistribution matrices of a textured interface every illuminated incidence column sums, with its absorption, to one, columns that were not illuminated are zero, and light appears only in bins reachable by reflection or refraction from the facets. This holds from both sides, with local angles and absorption credited to the correct film layers.",
  ["inputs", "configurations"], "all textures, media, bin settings, symmetry angles, sides, ray counts, thin-film or bare interfaces, single-incidence option",
  "Tests inspect whole-structure results only.",
  [RT, UT, AN], [("matrix construction", "RT, RT_wl"), ("film profiles", "calculate_interface_profiles")], ["returned and saved matrices"])
p("P17", "Run-control options change the cost of ray tracing, not its answer",
  "Running wavelengths in parallel or one after another, and changing the ray number, position sampling, randomisation or intensity cut-off, changes ray-traced results only within statistical scatter and the stated cut-off. Every wavelength's result belongs to that wavelength, irrespective of how many there are or in which order they are given.",
  ["schedules", "configurations"], "all schedules of the worker pool, ray counts, sampling options, wavelength orders",
  "Tests run with one setting of the run-control options.",
  [RT, OP], [("worker pool", "Parallel call sites"), ("sampling options", "rt_structure.calculate")], ["results with different settings"])
p("P18", "Generated surface textures are the surfaces they describe",
  "Every generated texture is a continuous, gap-free, single-valued surface over its unit cell with the requested period, facet angle and height and consistently upward normals; the rear copy is the same surface seen from below. Surfaces built from coordinates or height maps reproduce those points, and their actual area and roughness measures are those of the surface.",
  ["inputs"], "all texture parameters, all height maps and point sets, up- and downright variants",
  "Tests check a few parameter sets.",
  [TX, DT, RT], [("texture generators", "regular_pyramids, V_grooves, rough_pyramids, hyperhemisphere, xyz_texture, heights_texture, ..."), ("surface object", "RTSurface")], ["triangulated points and normals"])
p("P19", "Wave-optical grating results conserve power and reduce to planar optics",
  "For every periodic layer structure the rigorous wave-optical calculation reports total reflection, transmission and per-layer absorption that are finite and add up to one, equal to the sums over diffraction orders. Where the pattern has no contrast, or the structure is uniform, the result equals the planar multilayer result at that angle and polarisation; symmetric structures give symmetric answers.",
  ["inputs", "configurations"], "all lattices, pattern shapes, media, angles of incidence, polarisations, numbers of orders (available solver)",
  "Most tests need a solver that may be absent; the others evaluate single gratings.",
  [RC], [("solver set-up", "initialise_S_inkstone"), ("structure-level calculation", "rcwa_structure.calculate, RCWA_structure_wl")], ["returned dataset of a grating calculation"])
p("P20", "Grating redistribution matrices follow the grating equation",
  "In the redistribution matrices of a periodic interface, each incidence column puts the power of each propagating diffraction order into the bin given by the grating equation, with reflected and transmitted totals and per-layer absorption equal to a direct calculation at that incidence direction, so each column sums to one. This holds for incidence from both sides of asymmetric stacks.",
  ["inputs", "configurations"], "all lattices, media, bin settings, symmetry angles, sides, polarisations (available solver)",
  "Tests of these matrices need a solver that is absent or examine a single structure.",
  [RC, AN], [("matrix construction", "RCWA, RCWA_wl, RCWA_wl_inkstone")], ["returned and saved matrices"])
p("P21", "Editing or reusing a structure gives the same result as building it anew",
  "A structure object whose layer thicknesses have been edited, or that has been used for other wavelengths, angles, polarisations or options before, gives exactly what a newly built structure with the same description gives. Calculating never alters the description the user passed in, nor results returned earlier.",
  ["histories"], "all sequences of edits, calculations and profile calculations with changing options on planar and grating structures",
  "Tests make one or two calls per structure.",
  [RC, TM], [("thickness editing", "set_widths"), ("optical-constant caching", "rcwa_structure.update_oc"), ("profile reuse", "calculate_profile")], ["results of call sequences versus fresh objects"])
p("P22", "Exported generation functions reproduce the optical absorption profile",
  "The depth-dependent absorption function handed to device simulation reproduces the calculated absorption profile of the chosen layers at every depth and wavelength, in the right layer order and units, for every kind of optical calculation. Its integral over the device equals the absorption of those layers.",
  ["inputs", "configurations"], "all structure types, depth grids, wavelengths, front-surface offsets",
  "Tests check one example of one structure type.",
  [UT], [("export", "make_absorption_function")], ["returned position array and callable"])
p("P23", "Options and inputs are honoured or rejected, never silently misread",
  "Options given as object or dictionary mean the same, optional ones left out take the documented defaults, the old and new names of the wavelength option are equivalent, and two option objects never share state. Inconsistent input (such as mismatched numbers of layers, widths, textures or coherency entries, unknown methods, solvers or polarisations) is rejected rather than computed with.",
  ["inputs", "configurations"], "all option containers, missing options, old option names, malformed combinations",
  "Tests use the default options object with valid input.",
  [OP, UT, ST, PS, TM], [("options container", "RayflareOptions, default_options"), ("wavelength normalisation", "get_wavelength"), ("input checks", "raise sites in tmm_structure, process_structure, structure classes")], ["exceptions and results"])
p("P24", "Analytic diffraction orders satisfy the grating equation",
  "The analytic listing of diffraction orders contains exactly the orders that propagate in each medium, with directions satisfying the two-dimensional grating equation for the lattice, wavelength, medium and incidence direction. Orders are not duplicated, missing or assigned to evanescent directions.",
  ["inputs"], "all lattices, wavelengths, media and incidence directions",
  "There are no tests of this module.",
  [DF], [("order directions", "get_order_directions"), ("reciprocal lattice", "get_reciprocal_lattice / get_orders")], ["returned angles and orders"])
p("P25", "Calculations are pure and repeatable and never expose uninitialised data",
  "No result depends on the contents of uninitialised memory or on calculations made earlier in the same process; given the same random seed, a repeated calculation gives identical results. Inputs (options, layers, structures, arrays) come out of a calculation as they went in.",
  ["histories", "inputs", "configurations"], "all entry points in any order, all fill patterns of fresh memory",
  "A test reads results once, in a process whose fresh memory is usually zero.",
  [TM, RT, RC, MM, LT, ID], [("array allocation and masked division", "np.empty / np.divide(where=) call sites"), ("option handling", "entry points")], ["results under different memory fill patterns, histories and seeds"])
p("P26", "Different methods agree on structures they can all describe",
  "Where several methods can describe the same structure (planar optics, redistribution matrices, ray tracing, wave optics), they give the same reflection, transmission and per-layer absorption up to angular discretisation and statistics. End to end, a complete device calculation accounts for all incident light and labels every contribution with the right layer.",
  ["inputs", "configurations", "programs"], "all planar structures with bulk layers and film stacks, all supported method assignments to interfaces",
  "Tests compare methods on two or three structures.",
  [PS, MM, RT, TM, RC, ST], [("method dispatch", "process_structure"), ("combination", "calculate_RAT")], ["totals per method"])

with open("properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
