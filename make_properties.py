"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

RT = "rayflare/ray_tracing/rt.py"
prop("C01", "Ray tracing accounts for all the energy of every ray",
 "For a ray-traced structure, whatever random choices are made along the way, every ray ends reflected, transmitted, absorbed in an interface layer, or extinguished in a bulk layer, and what is reported (R, T, absorption per bulk layer, absorption per interface layer) adds up to the incident power up to the stated intensity threshold per ray. No reported quantity is ever negative or above 1, the direct reflection R0 never exceeds R, and the per-ray outcomes (angles, number of passes and interactions) agree with the totals they belong to.",
 ["schedules", "configurations", "inputs"],
 "every sequence of random decisions (probability of each reflect/transmit/absorb draw, random re-positioning, random facet heights) x surfaces (planar, pyramids up/inverted, V-grooves, user textures, interface layers) x number of layers x incidence angle x polarisation x options",
 "Tests run a few structures with the global random generator and compare averages with wide tolerances; a branch taken with low probability (absorption in an interface, second pass, repeated miss, parallel ray) is rarely sampled and never checked on its own.",
 [RT], [("per-ray loop over interfaces and bulk layers", RT + ":single_ray_stack"), ("Beer-Lambert passage with extinction threshold", RT + ":traverse"), ("collection of ray results", RT + ":parallel_inner, rt_structure.calculate")],
 [("I, direction, mat_index, surf_index", "state of the ray", RT + ":single_ray_stack")],
 ["rt_structure(...).calculate(options)"])

prop("C02", "Each ray-surface interaction follows Fresnel/TMM probabilities and Snell's law",
 "When a ray meets a facet it is reflected, transmitted or absorbed in the interface layers with exactly the probability given by the Fresnel equations (or the planar-stack optical response) for the local angle of incidence, polarisation, wavelength and side, with certain reflection beyond the critical angle; the reflected ray is specular and the transmitted ray obeys Snell's law. Consequently the expected R, T and absorption of a planar structure over all random decisions equal the exact incoherent ray-optics result.",
 ["schedules", "inputs", "configurations"],
 "every decision path of a ray, with its exact probability, for every pair of refractive indices, local angle, polarisation, side of incidence, number of layers",
 "Tests average a finite number of random rays with tolerances of several percent; a wrong probability or direction in one branch, angle range or side is far below the noise.",
 [RT, "rayflare/transfer_matrix_method/lookup_table.py"],
 [("Fresnel decision", RT + ":decide_RT_Fresnel, calc_R"), ("lookup-table decision", RT + ":decide_RT_TMM")],
 [("rnd", "the uniform draw that decides the interaction", RT + ":single_interface_check, single_cell_check")],
 ["rt_structure(...).calculate(options)", "RT(...) matrices"])

prop("C03", "Rays hit the facets that geometry says they hit, in every unit cell",
 "A ray launched at a periodic textured surface interacts with the facets of the infinitely repeated texture in the order geometry dictates, and leaves in the direction geometry dictates, wherever in the unit cell it arrives, at any incidence and azimuth angle; moving the launch point by whole unit cells, or rotating/mirroring/rescaling texture and ray together, changes nothing but the corresponding rotation. With periodicity off the texture is treated as a single isolated cell, and a starting material and direction other than the default start the ray inside that layer.",
 ["inputs", "schedules", "configurations"],
 "every launch position on a grid of the unit cell x incidence direction x texture x every forced reflect/transmit decision sequence up to a depth",
 "Tests only compare averages over positions for symmetric pyramids; a ray that exits through one particular side or corner of the unit cell, or a lattice-asymmetric texture, is not checked individually.",
 [RT], [("intersection test", RT + ":check_intersect"), ("unit cell translation", RT + ":exit_side, single_interface_check"), ("isolated cell", RT + ":single_cell_check")],
 [("r_a, d", "position and direction of the ray", RT + ":single_interface_check")],
 ["rt_structure(...).calculate(options): thetas, phis, n_interactions, n_passes"])

prop("C04", "Ray-traced depth profiles integrate to the absorbed power, layer by layer",
 "For every ray history the depth-resolved bulk absorption profile of a ray-traced structure is non-negative, lies in the layer where the power was absorbed, and integrates over depth to the absorption reported for that layer; likewise the profile of each interface in which profiling was requested integrates to the absorption reported for those interface layers. A single pass through a layer deposits power exponentially along the direction of travel.",
 ["schedules", "configurations", "inputs"],
 "every decision path x number/thickness of layers x depth spacing (finer or coarser than a layer) x direction of travel x which interface layers are profiled",
 "Tests check one or two structures for one wavelength grid on random rays, averaged over all paths.",
 [RT], [("bulk deposition", RT + ":traverse"), ("interface deposition", RT + ":calculate_interface_profiles")],
 None, ["rt_structure(...).calculate(options): profile, interface_profiles"])

prop("C05", "Angular binning is a faithful partition of directions",
 "The angular bins partition the whole sphere of directions modulo the azimuthal symmetry: every direction falls in exactly one bin, the bin's representative direction falls in that bin, upward and downward hemispheres have matching bins, and folding an azimuth into the symmetry wedge is idempotent and periodic. Converting outgoing to incoming directions between the two surfaces is a one-to-one map that conserves power and the polar angle, and light placed in the input vector lands, entirely, in the bin containing the requested incidence direction. Summing a matrix over the azimuth conserves the power per polar bin.",
 ["inputs", "configurations"],
 "every number of polar bins, azimuthal symmetry, azimuthal resolution and polar spacing in a bounded grid x every bin x a set of directions including bin edges, wedge edges and angles outside the wedge",
 "Tests use one or two binnings with a symmetry of pi/4 or pi/2; off-by-one bins at edges and for other symmetries are not visible in integrated R/A/T.",
 ["rayflare/angles.py", "rayflare/matrix_formalism/multiply_matrices.py"],
 [("bin construction", "rayflare/angles.py:make_angle_vector"), ("folding", "rayflare/angles.py:fold_phi"), ("binning", "rayflare/angles.py:overall_bin"), ("input vector", "rayflare/matrix_formalism/multiply_matrices.py:make_v0"), ("outgoing to incoming", "rayflare/matrix_formalism/multiply_matrices.py:out_to_in_matrix")],
 None, ["make_angle_vector, fold_phi, make_v0, out_to_in_matrix, theta_summary"])

prop("C06", "Redistribution matrices of planar and ideal surfaces conserve and route power",
 "For every incidence bin, the redistribution matrix of a planar multilayer, an ideal mirror or a Lambertian reflector sends non-negative power to reflection, transmission and absorption adding up to exactly 1, with reflected power in the hemisphere the light came from and transmitted power in the other. Planar layers put each column's specular reflection and Snell-refracted transmission in the one bin that contains that direction, with the same reflection, transmission and absorption per layer as a direct planar calculation at that angle, for front and rear incidence; a mirror reflects specularly, and a Lambertian reflector spreads the power over directions with the cosine law, whatever the incidence. When depth profiles are requested, each column's profile is that of the direct planar calculation at the same depths, in the requested layers, for either side.",
 ["inputs", "configurations"],
 "every incidence bin x side x polarisation x binning (polar bins, azimuthal symmetry and resolution) x layer stack x coherent/incoherent x wavelengths",
 "Tests only look at hemispherical sums through a full cell for one binning; an individual bin, a symmetry other than pi/2 or rear incidence is not examined.",
 ["rayflare/transfer_matrix_method/tmm.py", "rayflare/matrix_formalism/ideal_cases.py"],
 [("planar matrix", "rayflare/transfer_matrix_method/tmm.py:TMM"), ("mirror", "rayflare/matrix_formalism/ideal_cases.py:mirror_matrix"), ("Lambertian", "rayflare/matrix_formalism/ideal_cases.py:lambertian_matrix")],
 None, ["TMM(...), mirror_matrix(...), lambertian_matrix(...) return values and saved files"])

prop("C07", "Ray-traced redistribution matrices record exactly what the rays did",
 "A ray-traced redistribution matrix column holds, for the rays launched into that incidence bin, the fraction that left in each outgoing direction bin, and the fraction absorbed in each interface layer; reflected plus transmitted plus absorbed power is 1 for every bin that received rays and 0 for bins that received none. This holds for front and rear incidence, with Fresnel or planar-stack interfaces, for every sequence of random decisions, and when only the incidence direction requested by the user is traced.",
 ["schedules", "inputs", "configurations"],
 "every decision path of the traced rays x side x binning x texture x incidence direction x Fresnel or interface-layer mode",
 "Tests see only totals after multiplication of the matrices for random rays; a ray put in a wrong bin or column, or lost, does not change them visibly.",
 [RT], [("matrix construction", RT + ":RT, RT_wl"), ("ray through a single interface", RT + ":single_ray_interface")],
 None, ["RT(...) return values and saved files"])

MM = "rayflare/matrix_formalism/multiply_matrices.py"
prop("C08", "The matrix formalism sums all passes of light exactly and conserves energy",
 "The overall R, T, bulk absorption and interface absorption computed from redistribution matrices equal the sum over passes of front transmission, bulk attenuation, rear and front internal redistribution, until the remaining power is below the threshold at every wavelength; they add up to the incident power to within that threshold and never become negative. The totals are the sums of the per-pass results, and asking for absorption profiles does not change them.",
 ["configurations", "inputs", "histories"],
 "every set of (small) stored redistribution matrices for front and back surfaces x bulk thickness x incidence direction x threshold x with/without profiles x number of wavelengths",
 "Tests multiply a few physically plausible matrices and compare with other methods to a few percent.",
 [MM], [("multiplication loop", MM + ":matrix_multiplication"), ("per-pass bookkeeping", MM + ":append_per_pass_info"), ("bulk attenuation", MM + ":make_D")],
 [("vf_1, vb_1, vf_2, vb_2", "power per angular bin at each stage of a pass", MM)],
 ["calculate_RAT(...)"])

prop("C09", "Matrix-formalism depth profiles integrate to the absorption they describe",
 "When absorption profiles are calculated with the matrix formalism, the bulk profile integrates over depth to the reported bulk absorption and the profile in each profiled interface integrates to the absorption reported for the profiled layers, at every wavelength, pass by pass as well as in total, for light arriving from either side. The profiles are non-negative and power absorbed while travelling up is deposited measured from the rear.",
 ["configurations", "inputs"],
 "bulk thickness, absorption strength and depth spacing x incidence direction x which layers of which interface are profiled x interface method x number of passes",
 "Tests integrate the profile for one or two cells with loose tolerances.",
 [MM, "rayflare/transfer_matrix_method/tmm.py", RT],
 [("bulk profile", MM + ":bulk_profile_calc"), ("interface profile", MM + ":matrix_multiplication"), ("profile matrices", "rayflare/transfer_matrix_method/tmm.py:TMM; " + RT + ":make_profiles_wl")],
 None, ["calculate_RAT(...)[2], [3], results_per_pass"])

UT = "rayflare/utilities.py"
prop("C10", "Stored results are reused or recomputed exactly when they should be",
 "A result calculated with saved files present equals what would be calculated or loaded for the same surface name, project and side: with overwrite on, a rerun always reflects the current inputs; with overwrite off, existing results are returned as they were stored, bit for bit, and nothing stored is modified. Results saved under one surface name, side or project never affect another, asking for profiles after a run without them recomputes, and not saving leaves no files.",
 ["histories", "configurations"],
 "every sequence, up to a depth, of compute/recompute operations over methods, two surface names, two projects, two parameter sets, front/rear, with/without profiles, overwrite on/off, save on/off",
 "Tests run each calculation once in an empty folder; sequences that mix overwrite, profile and parameter changes are not exercised.",
 [UT, "rayflare/matrix_formalism/process_structure.py", RT, "rayflare/transfer_matrix_method/tmm.py", "rayflare/transfer_matrix_method/lookup_table.py", "rayflare/matrix_formalism/ideal_cases.py"],
 [("cache decision", UT + ":get_matrices_or_paths"), ("folder choice", UT + ":get_savepath"), ("driver", "rayflare/matrix_formalism/process_structure.py:process_structure")],
 [("files per surface/side", "stored matrices", "<project>/<name><side>{RT.npz,A.npz,profmat.nc}, <name>.nc")],
 ["process_structure(...), calculate_RAT(...), TMM/RT/mirror/lambertian/make_TMM_lookuptable return values and folder contents"])

prop("C11", "An interrupted calculation never poisons later results",
 "If a calculation that stores redistribution matrices or lookup tables is interrupted at any point while writing its results, rerunning it afterwards gives the same results as an uninterrupted run. It neither fails on nor silently uses a partially written set of files, nor files of an older parameter set mixed with newer ones after an overwrite.",
 ["crash_points", "histories"],
 "every prefix of the sequence of file writes of a calculation, with the file being written absent, empty, truncated or complete x first run / overwriting rerun with different parameters x method",
 "No test interrupts a calculation.",
 [UT, RT, "rayflare/transfer_matrix_method/tmm.py", "rayflare/transfer_matrix_method/lookup_table.py", "rayflare/matrix_formalism/ideal_cases.py"],
 [("order of saving and acceptance test", UT + ":get_matrices_or_paths"), ("saving", "TMM, RT, mirror_matrix, lambertian_matrix, make_TMM_lookuptable")],
 None, ["folder contents after a crash; results of the rerun"])

TM = "rayflare/transfer_matrix_method/tmm.py"
prop("C12", "Planar multilayer R, A, T are those of transfer-matrix optics",
 "For every planar stack of layers, angle, polarisation, wavelength and choice of coherent and incoherent layers, the calculated reflection, transmission and absorption per layer equal those of the transfer-matrix method, are non-negative, and add up to 1. Unpolarised results are the mean of the two polarisations, splitting a layer in two or inserting a zero-thickness layer changes nothing, and transmission obeys reciprocity under reversal of the stack.",
 ["configurations", "inputs"],
 "every stack up to a depth over an alphabet of materials (transparent, absorbing, metallic, dispersive) and thicknesses x angle x polarisation x coherency pattern x media x wavelength subset",
 "Tests compare a handful of stacks at two or three angles.",
 [TM], [("stack solution", TM + ":tmm_structure.calculate"), ("coherency list", TM + ":tmm_structure.build_coh_list")],
 None, ["tmm_structure(...).calculate(options)"])

prop("C13", "Planar multilayer absorption profiles integrate to the absorption per layer",
 "The absorption profile of a planar stack is non-negative, is sampled on the depth grid of the requested layers only, and its integral over each layer equals the absorption reported for that layer, for every polarisation, angle and coherency pattern; the analytic coefficients returned with it reproduce it. Asking for the profile does not change R, A and T.",
 ["configurations", "inputs"],
 "every stack up to a depth over an alphabet of materials and thicknesses x angle x polarisation x coherency pattern x subset of profiled layers",
 "Tests integrate the profile of one or two stacks, coherent or fully incoherent.",
 [TM], [("profile", TM + ":tmm_structure.calculate (profile)")],
 None, ["tmm_structure(...).calculate(options, profile=True), calculate_profile"])

LT = "rayflare/transfer_matrix_method/lookup_table.py"
prop("C14", "Stored planar-stack lookup tables agree with direct calculation on both sides",
 "Every entry of the table of planar-stack responses used by the ray tracer equals a direct planar calculation for that wavelength, angle, polarisation and side of incidence, with absorption and profile coefficients labelled by the same layer from both sides and the unpolarised entry the mean of the two polarisations; for rear incidence the stack is traversed in reverse order. The table covers all the requested wavelengths and the full range of angles.",
 ["configurations", "inputs"],
 "every stack up to a depth x coherency pattern x side x polarisation x angle index x wavelength set x subset and order of profiled layers",
 "Only one table is built in the tests and only its effect on averaged ray-tracing results is seen.",
 [LT], [("table construction", LT + ":make_TMM_lookuptable"), ("table per interface", RT + ":make_lookuptable_rt_structure")],
 None, ["make_TMM_lookuptable(...) return value and saved file; rt_structure(use_TMM=True)"])

prop("C15", "Surface textures are valid periodic surfaces in every state",
 "Every texture is a single-valued (for non-overhanging textures) surface covering its unit cell exactly, with matching heights on opposite edges, unit facet normals pointing towards the incidence side, and a rear-incidence version that is its exact mirror image. Shifting a surface moves it rigidly, copying makes an independent equal copy, and drawing a new height scales it about its base while keeping the base where it is, in any order and any number of times; heights drawn come only from the given distribution.",
 ["histories", "inputs", "schedules"],
 "every texture type over a grid of arguments x every sequence of shift/refresh/copy operations up to a depth x every height draw",
 "Tests check the corner points of a few textures once, right after construction.",
 [RT, "rayflare/textures/standard_rt_textures.py", "rayflare/textures/define_textures.py"],
 [("surface object", RT + ":RTSurface"), ("texture builders", "rayflare/textures/standard_rt_textures.py")],
 [("Points, original_Points, zcov, z_min, z_max, N", "geometry", RT + ":RTSurface")],
 ["RTSurface attributes; texture builder results"])

prop("C16", "Calculations depend only on their inputs, not on what was calculated before",
 "A calculation with a structure object gives the same result whether the object is new or has been used for any sequence of earlier calculations (other wavelengths, angles, polarisations, with or without profiles, changed and restored layer widths), and does not modify the options, layers, materials or textures passed in. Several structures built from the same layers or textures do not influence each other.",
 ["histories", "configurations"],
 "every sequence up to a depth of calculate / calculate with profile / change widths / change options operations on planar, diffractive (RCWA) and ray-traced structures",
 "Tests use each object once or twice with fixed options.",
 [TM, RT, "rayflare/rigorous_coupled_wave_analysis/rcwa.py", UT],
 [("RCWA state", "rayflare/rigorous_coupled_wave_analysis/rcwa.py:rcwa_structure"), ("TMM state", TM + ":tmm_structure"), ("RT state", RT + ":rt_structure")],
 [("results, current_wavelengths, widths, oc", "cached state of an RCWA structure", "rayflare/rigorous_coupled_wave_analysis/rcwa.py:rcwa_structure")],
 ["calculate(...) / calculate_profile(...) results; options and layers before/after"])

prop("C17", "Every wavelength is treated independently and in the user's order",
 "The result at a wavelength does not depend on which other wavelengths are calculated in the same run, on their order, or on whether they are calculated sequentially or in parallel, for planar, diffractive, ray-traced and (up to the intensity threshold) matrix-formalism calculations. Options may be given as a dictionary or an options object, and under the older plural name for the wavelengths, without changing the result.",
 ["configurations", "inputs", "schedules"],
 "every non-empty subset and every order of a small set of wavelengths x method x sequential/parallel x form of the options",
 "Tests use one fixed wavelength grid per method.",
 [TM, RT, MM, "rayflare/rigorous_coupled_wave_analysis/rcwa.py", UT],
 [("wavelength loop", "Parallel(...) loops in RT, RCWA, rt_structure.calculate, rcwa_structure.calculate"), ("alias", UT + ":get_wavelength")],
 None, ["result arrays and redistribution matrices per wavelength"])

RC = "rayflare/rigorous_coupled_wave_analysis/rcwa.py"
prop("C18", "RCWA results conserve energy and reduce to planar optics",
 "For structures solved by rigorous coupled-wave analysis, R, T and absorption per layer are non-negative and add up to 1 for every angle, azimuth and polarisation, powers per diffraction order add up to the totals, and a structure without lateral variation gives the planar multilayer result. Redistribution matrices built from it send, for every incidence bin and either side, the same power to the same directions as the direct calculation at that incidence, with the stack reversed for rear incidence. Unpolarised light gives the mean of the results for s and p polarised light, and depth profiles of the absorption are those of the direct calculation at the same depths for either side, and the dielectric function and fields reported on a grid of points are those at these points.",
 ["configurations", "inputs"],
 "every small structure (uniform layers, gratings) x angle x azimuth x polarisation x wavelength x incidence bin and side of the redistribution matrix",
 "The RCWA tests need a solver that is not installed; with the bundled alternative only plotting helpers are exercised.",
 [RC], [("direct calculation", RC + ":rcwa_structure.calculate, RCWA_structure_wl_inkstone"), ("redistribution matrix", RC + ":RCWA, RCWA_wl_inkstone")],
 None, ["rcwa_structure(...).calculate(options); RCWA(...) return values"])

prop("C19", "The exported generation function reproduces the calculated absorption",
 "The position-dependent absorption function handed to device simulation covers the whole structure once, in the user's layer order, is zero in layers that were not profiled, equals the calculated profile at the sampled depths in SI units, and its integral over any profiled layer equals the absorption reported for it up to the depth step, whatever method (planar, diffractive, ray-traced with or without interface layers, matrix formalism) produced the result.",
 ["configurations", "inputs"],
 "every structure type x which interfaces/layers are profiled x layer counts and widths x depth spacings",
 "Tests check the integral for one structure per type.",
 [UT], [("assembly of profiles", UT + ":make_absorption_function")],
 None, ["make_absorption_function(...) positions and function"])

prop("C20", "Diffraction orders follow the grating equation and are grouped by direction",
 "The direction of every diffraction order satisfies conservation of in-plane momentum on the given lattice for the given incidence, and its propagation angles in the incidence and transmission media follow from the wavelength and refractive index. Grouping orders by in-plane momentum conserves the number of orders and the total power at every wavelength, and merges exactly the orders of equal in-plane momentum.",
 ["inputs", "configurations"],
 "every lattice in a family (square, rectangular, hexagonal, oblique) x set of orders x incidence x wavelength",
 "The only test of these helpers needs a solver that is not installed.",
 ["rayflare/analytic/diffraction.py", RC],
 [("grouping", "rayflare/analytic/diffraction.py:group_diffraction_orders"), ("order directions", "rayflare/analytic/diffraction.py:get_order_directions"), ("reciprocal lattice", RC + ":get_reciprocal_lattice")],
 None, ["group_diffraction_orders(...), get_order_directions(...)"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
