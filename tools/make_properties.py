#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines are editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None)))

NOASSERT = ("The repository's tests are scripts that run a handful of fixed machine set-ups and compare no numbers, "
            "so anything that still runs to the end passes; ")

prop("C01", "Macroparticle housekeeping conserves charge and keeps records aligned",
     "Through any sequence of insertions (uniform, given density, explicit lists), cleanings and soft, asynchronous or full regenerations, the cloud's charge changes only by what was inserted, by what cleaning drops (exactly the macroparticles below the cleaning size) and, in a full regeneration, by rounding each phase-space cell to whole macroparticles and dropping cells below the configured cut. "
     "Every surviving macroparticle keeps its own position, velocity, charge (times the common rescaling factor) and last-impact time, newly created ones lie inside the chamber and carry 'never impacted', unused storage carries no charge, and the particle reference size, cleaning size and splitting size stay in their configured ratios. "
     "A regeneration happens only when its configured macroparticle-count threshold is passed, and brings the count down to (or towards) its configured target.",
     ["histories", "inputs", "configurations"],
     "all sequences of insert/clean/regenerate/impact-time operations, all macroparticle contents, charges, chambers and threshold settings",
     NOASSERT + "regeneration is reached only once or twice in the stable runs and its charge balance is never looked at.",
     ["MP_system.py", "buildup_simulation.py"],
     [("insertion", "MP_system.add_uniform_MP_distrib / add_uniform_ele_density / add_new_MPs / add_from_file"),
      ("cleaning", "MP_system.clean_small_MPs"), ("soft regeneration", "MP_system.check_for_soft_regeneration / check_for_async_regeneration"),
      ("full regeneration", "MP_system.check_for_regeneration"), ("ratios", "MP_system.set_nel_mp_ref")],
     ["arrays of the macroparticle system after each operation"])

prop("C02", "Chambers classify every point correctly and refuse malformed profiles",
     "For elliptical, rectangular and polygonal chambers (convex or declared non-convex), a point is reported outside exactly when it lies geometrically outside the wall, whatever the number, shape or order of magnitude of the points and vertices tested, and the chamber's half-apertures, area and segment list are those of that wall. "
     "A profile whose vertices are in clockwise order, or which is not convex although convexity is assumed, is refused at construction instead of being tracked.",
     ["inputs", "configurations"],
     "all chamber shapes (ellipse, rectangle, convex and non-convex polygon), all query points and batch sizes",
     NOASSERT + "each run uses one fixed chamber, and points near corners, in re-entrant regions or far outside are never sampled on purpose.",
     ["geom_impact_ellip.py", "geom_impact_rect_fast_impact.py", "geom_impact_poly_fast_impact.py", "geom_impact_poly_cython.pyx"],
     [("containment", "is_outside of the chamber classes; is_outside_convex / is_outside_nonconvex"), ("profile checks", "polyg_cham_geom_object.__init__")],
     ["is_outside", "x_aper, y_aper, area, vertices", "constructor exceptions"])

prop("C03", "Every wall crossing is reported at the wall with an inward unit normal",
     "For every displacement that starts inside the chamber and ends outside, the reported impact point lies inside the chamber and on the displacement, immediately in front of its first wall crossing (at the configured fraction of the path), the reported normal has unit length, is perpendicular to the wall there and points into the chamber, and the reported segment is the one that was crossed. "
     "The result for one particle does not depend on which other particles are processed in the same batch.",
     ["inputs", "configurations"],
     "all chamber shapes, all inside-to-outside displacements (grazing, long, near corners, crossing several walls), all batch compositions and rescaling factors",
     NOASSERT + "a wrong crossing only shifts where electrons re-enter, which no test inspects.",
     ["geom_impact_ellip.py", "geom_impact_rect_fast_impact.py", "geom_impact_poly_fast_impact.py", "geom_impact_poly_cython.pyx"],
     [("crossing search", "impact_point_and_normal of the chamber classes and the Cython kernel"), ("bisection for the ellipse", "ellip_cham_geom_object.impact_point_and_normal")],
     ["returned impact point, normal and segment index"])

prop("C04", "Secondary-emission yields follow the configured model for any energy and angle",
     "For every secondary-emission model that can be selected, any physical parameters, any impact energy and any angle of incidence, the charge given off per impacting charge has the expected value of that model's published yield law (reflected plus true secondary part, with the angular corrections switched on or off as configured), never becomes negative, and splits between reflected and true secondary electrons in the proportion of the two parts. "
     "A tabulated yield is reproduced at its nodes and interpolated in between.",
     ["inputs", "configurations"],
     "all emission models, parameter sets, energies from zero to far above the maximum, cosines in [0,1], angular-correction switches",
     NOASSERT + "only one uniform-surface parameter set is exercised and the yield is a random quantity, so a wrong law changes results without failing anything.",
     ["sec_emission_model_ECLOUD.py", "sec_emission_model_accurate_low_ene.py", "sec_emission_model_cos_low_ener.py", "sec_emission_model_flat_low_ener.py",
      "sec_emission_model_from_file.py", "sec_emission_model_furman_pivi.py", "sec_emission_model_perfect_absorber.py", "sec_emission_model_ECLOUD_nunif.py", "init.py"],
     [("yield laws", "SEY_process / yield functions of the sec_emission_model_* modules"), ("model selection", "init.read_input_files_and_init_components")],
     ["charge emitted for a batch of impacts", "classification reflected / true secondary"])

prop("C05", "Emission turns each impact into the right charge leaving the wall inward",
     "For any batch of wall impacts, the charge of the macroparticles created or kept for the batch equals the total emitted charge reported, each belongs to one impact and starts at that impact's point, no emitted macroparticle is larger than what the splitting rule allows and none is created for impacts that emit less, and all of them move away from the wall. "
     "Elastically reflected electrons keep their energy, true secondaries respect the configured energy ceiling (and, where energy conservation is requested, the energy of the impact that produced them), and a perfectly absorbing wall returns nothing.",
     ["inputs", "configurations"],
     "all emission models, batch sizes, macroparticle sizes relative to the splitting size, impact energies and directions, normals of all orientations",
     NOASSERT + "nothing checks the charge, position, direction or energy of a secondary electron.",
     ["sec_emission_model_ECLOUD.py", "sec_emission_model_furman_pivi.py", "sec_emission_model_accurate_low_ene.py", "sec_emission_model_cos_low_ener.py",
      "sec_emission_model_flat_low_ener.py", "sec_emission_model_perfect_absorber.py", "electron_emission.py", "impact_management_class.py"],
     [("splitting and re-injection", "impacts_on_surface of the emission models"), ("specular reflection", "electron_emission.specular_velocity")],
     ["arrays returned by the emission step and the macroparticle system afterwards"])

prop("C06", "Wall-impact statistics account for every impact exactly once",
     "When a tracking step takes some electrons out of the chamber, exactly those are processed as impacts: electrons that stayed inside are left untouched, the electrons now stored are all inside, and the change of cloud charge equals emitted minus impacting charge as reported. "
     "The reported impacting and emitted charge and energy, and the histograms of impact position, impact energy, angle of incidence, time since last impact and wall segment (charge and energy), each contain every impact exactly once in the bin its value belongs to, and nothing else, until they are read out and reset.",
     ["inputs", "histories", "configurations"],
     "all sequences of tracking steps, impact sets, histogram settings and chamber shapes",
     NOASSERT + "histograms are written to the output file and never compared with the impacts that produced them.",
     ["impact_management_class.py", "compute_hist.f", "update_seg_impact.f", "vectsum.f", "MP_system.py"],
     [("back-tracking", "impact_management.backtrack_and_second_emiss"), ("histogram kernels", "compute_hist.f, update_seg_impact.f"), ("extraction", "impact_management.extract_* / reset_*")],
     ["impact manager counters and histograms, macroparticle arrays before/after"])

prop("C07", "Boris trackers integrate electric and magnetic motion consistently",
     "For any particle charge and mass, electric field, magnetic field (uniform, multipole expansion with normal and skew terms of any order, or tabulated map with scaling) and any number of sub-steps, the Boris trackers reproduce the Boris integration of the Lorentz force in that field: exact free drift without fields, exactly constant speed in a pure magnetic field, the correct gyration sense and frequency, the documented expansion of the magnetic field, and the same result from the compiled and interpreted implementations. "
     "Field re-interpolation at every sub-step gives the same motion as feeding the same fields from outside, and only existing macroparticles are moved.",
     ["inputs", "configurations"],
     "all particle states, species, fields, multipole orders, sub-step counts and time steps",
     NOASSERT + "the field-map test exercises one field and its plot is not compared with anything.",
     ["dynamics_Boris_f2py.py", "boris_step.f", "dynamics_Boris_multipole.py", "boris_cython.pyx", "boris_c_function.c"],
     [("pusher", "pusher_Boris.step, boris_step.f"), ("multipole pusher", "pusher_Boris_multipole.step, boris_c_function.c"), ("map", "B_file.get_B")],
     ["positions and velocities after each step"])

prop("C08", "Strong-field trackers solve the motion for any field strength",
     "For any particle state, species, transverse electric kick and time step, the dipole tracker and the generic strong-field tracker return the position and velocity of the analytic motion in the given electric field and a locally uniform magnetic field, remain accurate from zero field to gyration angles much larger than one per step (no jump across the zero-field threshold), and conserve energy up to the work done by the electric field. "
     "Particles beyond the existing ones are not touched and each particle's motion is independent of the others in the batch.",
     ["inputs", "configurations"],
     "all particle states, species, magnetic fields from zero to many gyrations per step, electric fields, time steps, batch sizes including empty",
     NOASSERT + "only one dipole field is run and its trajectories are not checked against the equation of motion.",
     ["dynamics_dipole.py", "dynamics_strong_B_generalized.py", "sincc_cosincc_cubsincc.py"],
     [("dipole", "pusher_dipole_magnet.step"), ("generic", "pusher_strong_B_generalized.step"), ("series", "sincc_cosincc_cubsincc.py")],
     ["positions and velocities after each step"])

prop("C09", "Grid transfer kernels conserve charge and interpolate exactly where they must",
     "Depositing any set of charges on a grid conserves their total and their dipole moment and never writes outside the grid, interpolating any field map returns the node values at the nodes and is exact for fields bilinear in the coordinates, and the two operations use the same weights. "
     "Histogramming and per-segment accumulation add each weight exactly once to the cell its coordinate (or index) designates.",
     ["inputs"],
     "all grids, particle positions (on nodes, on cell edges, in the outermost cells), weights and batch sizes including one and zero",
     NOASSERT + "the kernels are only run inside full simulations.",
     ["compute_rho.f", "interp_field_for.f", "compute_hist.f", "update_seg_impact.f", "vectsum.f"],
     [("deposit", "compute_rho.f"), ("interpolation", "interp_field_for.f"), ("histogram", "compute_hist.f"), ("segment accumulation", "update_seg_impact.f")],
     ["arrays returned by the compiled kernels"])

prop("C10", "Space-charge fields come from the present clouds and obey electrostatics",
     "The space-charge field used on the electrons is the field of the charge of all clouds (with their signs) at the latest update: total deposited charge equals the clouds' charge, the field is linear in that charge and independent of how it is divided into clouds or macroparticles, it satisfies Gauss' law inside and vanishing potential on a conducting wall, and stored energy is non-negative and quadratic in the charge. "
     "The field is refreshed exactly when the configured refresh interval has elapsed (at every step if none is configured), stays frozen in between, and the electromagnetic variant reduces to the electrostatic one for slow particles.",
     ["inputs", "histories", "configurations"],
     "all cloud contents, numbers of clouds, charges, solver modes, refresh intervals and step sequences",
     NOASSERT + "a wrong refresh schedule, sign or stale charge map only changes unexamined numbers.",
     ["space_charge_class.py", "space_charge_class_electromagnetic.py", "buildup_simulation.py"],
     [("deposit and solve", "space_charge.recompute_spchg_efield / compute_spchg_efield_from_rho"), ("schedule", "space_charge.check_for_recomputation"), ("multi-cloud sum", "BuildupSimulation.sim_time_step"), ("electromagnetic", "space_charge_electromagnetic.get_sc_em_field")],
     ["rho, phi, field at particles, potential energy"])

prop("C11", "The beam timeline delivers the configured bunches, steps and passages",
     "For any bunch spacing, filling pattern, bunch length, intensity, coasting density and time step, the beam line density over time is the sum of the configured Gaussian bunches at their configured positions plus the coasting part (its integral over a bunch equals the bunch intensity), and a profile read from file is reproduced and scaled as configured. "
     "The time advances through the sampled instants without skipping or repeating, a new-passage flag is raised exactly once per bunch spacing, for every beam.",
     ["inputs", "histories", "configurations"],
     "all filling patterns, spacings, time steps (including ones that do not divide the spacing), profiles from file uniform or not, stop times and resume times",
     NOASSERT + "the stable runs use two filling patterns and a time step dividing the spacing.",
     ["beam_and_timing.py"],
     [("profile", "beam_and_timing.__init__"), ("stepping", "beam_and_timing.next_time_step / get_beam_profile"), ("passage", "flag_new_bunch_pass, pass_numb")],
     ["line density array, current step quantities per step"])

prop("C12", "The beam's electric field on the electrons is that of the configured beam",
     "The transverse beam field seen by an electron is the field of a Gaussian beam of the configured size and position (with the chamber's image charges where requested) multiplied by the instantaneous line density and beam-particle charge, is zero where the beam is negligible by the configured density threshold, and several beams add up. "
     "Field maps computed by the grid solver, by the analytic formula and reloaded from a saved map file agree with each other, and beam sizes derived from emittance, optics and momentum spread follow the standard formula.",
     ["inputs", "configurations"],
     "all beam sizes (round, flat, tall), positions, chamber shapes, particle charges, grid sizes, density thresholds and numbers of beams",
     NOASSERT + "the field maps are written or used but never compared with an independent field.",
     ["beam_and_timing.py", "BassErsk.py", "errfff.f", "parse_beam_file.py", "interp_field_for.f"],
     [("analytic field", "BassErsk.BassErsk, BassErsk.ImageTerms"), ("map set-up", "beam_and_timing.__init__"), ("evaluation", "beam_and_timing.get_beam_eletric_field"), ("beam size", "parse_beam_file.beam_descr_from_fil")],
     ["field returned at particle positions", "saved field map"])

prop("C13", "Gas ionization creates the right number of seeds in the right place",
     "In every time step the average charge created by residual-gas ionization is pressure times cross-section times beam line density times path length, for any gas, beam and reference macroparticle size, and existing macroparticles are untouched. "
     "The new macroparticles carry the reference size, lie inside the chamber, follow the beam's transverse distribution around the beam position except for the configured uniformly distributed fraction, have energies bounded by the configured initial energy, and are marked as never having impacted.",
     ["inputs", "configurations"],
     "all pressures, temperatures, cross-sections, beams, chamber shapes, uniform fractions and cloud species",
     NOASSERT + "generated charge is never compared with the ionization rate.",
     ["gas_ionization_class.py", "cloud_manager.py", "buildup_simulation.py"],
     [("generation", "residual_gas_ionization.generate")],
     ["macroparticle arrays after generation"])

prop("C14", "Photoemission creates the right number of seeds on the wall, moving inward",
     "In every time step the average charge created by photoemission is the configured yield per beam particle and metre times the number of beam particles passing, (with the mean profile when continuous emission is requested), for every photoemission mode, and existing macroparticles are untouched. "
     "The new macroparticles carry the reference size, start on the chamber wall with the angular or per-segment distribution that was configured (reflected fraction, width, tabulated distribution), have the configured energy distribution, move into the chamber, and are marked as never having impacted. An emission outline that is not the wall of the chamber is refused.",
     ["inputs", "configurations"],
     "all photoemission modes, angular and energy distributions, chamber shapes, yields and beams",
     NOASSERT + "the segment-wise mode is not among the stable tests and no test looks at positions, energies or numbers.",
     ["gen_photoemission_class.py", "electron_emission.py", "geom_impact_poly_fast_impact.py", "init.py"],
     [("number", "photoemission_base.get_number_new_mps"), ("position", "photoemission*.generate, polyg_cham_photoemission.get_photoelectron_positions"), ("set-up checks", "photoemission.__init__")],
     ["macroparticle arrays after generation"])

prop("C15", "Cross-ionization converts collisions into product pairs consistently",
     "For any projectile cloud and cross-section table, the expected number of ionizations in a step is the sum over projectiles of cross-section (interpolated at the projectile's energy, zero outside the table) times target density times path length times charge, products appear at the position of their projectile with bounded velocities, and when equal generation is requested all products receive identical charges at identical places. "
     "The target is depleted by exactly the ionizations that happened (and not by consistency tests at set-up), projectiles are unchanged, and the reported totals equal what was added to the clouds since the last report.",
     ["inputs", "histories", "configurations"],
     "all cross-section tables (linear or logarithmic), projectile energies and charges, product sets, numbers of processes and step sequences",
     NOASSERT + "cross-ionization is not part of any stable test.",
     ["cross_ionization.py", "buildup_simulation.py", "init.py"],
     [("interpolation", "Ionization_Process.get_sigma"), ("generation", "Ionization_Process.generate, Cross_Ionization.generate"), ("report", "Cross_Ionization.save_cross_ion_data")],
     ["new macroparticles per cloud, target density, reported totals"])

prop("C16", "The output file is a faithful record of the simulation",
     "Every quantity in the output file equals what an outside observer computes from the simulated state at the recorded instants: per-step series sampled with the configured decimation carry matching times, charges, energies, densities (centre and probes) and impact/emission totals that lose nothing between samples, per-passage quantities and histograms appear once per passage in order, and all arrays belonging to one time base have the same length. "
     "This holds for any number of steps and passages, any combination of optional outputs, restriction to selected variables, custom observables and several clouds, without one setting or cloud altering another's values. The log gets one line per passage of each cloud, the progress file the fraction of passages done, and a stop file ends the run at the next passage with the output up to there written.",
     ["histories", "configurations"],
     "all run lengths, decimation factors, output options, user-defined observables, numbers of clouds",
     NOASSERT + "the stress run switches on most outputs but compares none of them with the state.",
     ["pyecloud_saver.py", "buildup_simulation.py", "cloud_manager.py"],
     [("per-step recording", "pyecloud_saver._stepbystep_*"), ("per-passage recording", "pyecloud_saver._pass_by_pass_*"), ("energy histograms", "pyecloud_saver energy/cos/lifetime histograms"), ("subset and custom observables", "pyecloud_saver.start_observing / witness")],
     ["output .mat file, saved macroparticle states, movies"])

prop("C17", "A simulation resumed from a saved state continues as if never interrupted",
     "For every instant at which a run is interrupted after a checkpoint (or a requested full-state save) was written, reloading it and running on gives the same cloud, fields, timing and, together with the copied output, the same output file as the uninterrupted run whenever the physics involves no random draws; the sampled history before the interruption is neither lost, duplicated nor shifted. "
     "An interruption while the next checkpoint is being written never makes an inconsistent mixture load silently.",
     ["crash_points", "histories", "configurations"],
     "all checkpoint periods, interruption instants, decimation factors, output options and numbers of clouds",
     "The checkpoint test interrupts one fixed run at one instant and only checks that the second half runs; no comparison with the uninterrupted run is made.",
     ["buildup_simulation.py", "pyecloud_saver.py"],
     [("save", "pyecloud_saver.checkpoint_save / sim_state_single_save"), ("reload", "BuildupSimulation.load_checkpoint / load_state, pyecloud_saver.load_from_output"), ("restart decision", "BuildupSimulation.run")],
     ["output file and state of resumed versus uninterrupted run"])

prop("C18", "Configuration is merged completely, predictably and without silent mistakes",
     "For any set of input files and overriding arguments, every documented parameter ends up with the explicitly given value (overrides over files, cloud file over main files, defaults last), values keep their type and do not leak between clouds or beams or between successive simulations in one process, and derived settings follow from them. "
     "A missing mandatory parameter, an unknown parameter, a parameter given twice or a setting incompatible with the chosen model is refused with an error before anything is simulated.",
     ["inputs", "configurations"],
     "all subsets of mandatory and optional parameters, misspelled or misplaced names, override sets, multi-cloud and multi-beam set-ups",
     NOASSERT + "only well-formed input folders are loaded.",
     ["input_parameters_format_specification.py", "default_input_parameters.py", "init.py", "parse_beam_file.py", "parse_cloud_file.py"],
     [("format check", "assert_module_has_parameters / update_config_dict"), ("merge", "init.read_parameter_files / read_input_files_and_init_components"), ("cloud inheritance", "parse_cloud_file.cloud_descr_from_file"), ("beam inheritance", "parse_beam_file.beam_descr_from_fil")],
     ["resulting configuration dictionary, objects built from it, exceptions"])

prop("C19", "A buildup run conserves charge step by step and keeps clouds in the chamber",
     "At every time step of any build-up run the charge of each cloud changes exactly by what primary generation and cross-ionization create plus emitted minus impacting charge plus what cleaning and regeneration account for, all macroparticles are inside the chamber, and numbers stay finite. "
     "The run is a deterministic function of inputs and random state, does not depend on how identical charge is divided between clouds, respects the mirror symmetries of a symmetric set-up, and evolves clouds without interaction exactly as if they were simulated alone.",
     ["histories", "configurations", "inputs"],
     "all combinations of chamber, tracker, emission model, primary source, number of clouds and beams, sub-steps and run lengths",
     NOASSERT + "conservation and equivalence between configurations are not stated anywhere in the tests.",
     ["buildup_simulation.py", "cloud_manager.py", "impact_management_class.py", "MP_system.py", "init.py"],
     [("step composition", "BuildupSimulation.sim_time_step"), ("sub-steps", "BuildupSimulation with re-interpolation at sub-steps"), ("cleaning schedule", "BuildupSimulation._MP_cleaning / regeneration")],
     ["cloud state after every step"])

prop("C20", "Coupled beam tracking applies the mutual kicks of bunch and cloud exactly once",
     "When a bunch traverses an electron-cloud element, each beam particle receives exactly the transverse kick of the cloud field at its own (offset-corrected) position at the moment its slice passes, slices acting in order from head to tail, with only its enabled transverse momenta changed, while the electrons feel the field of precisely that slice's charge for that slice's duration. "
     "After each passage the cloud returns to the configured initial state so identical bunches get identical kicks, and passing the bunch whole or slice by slice gives the same result.",
     ["inputs", "histories", "configurations"],
     "all bunch distributions, slicings (including empty slices and unsliced particles), offsets, kick switches, numbers of successive passages and sub-step lengths",
     NOASSERT + "tune shifts are plotted, not asserted, and re-initialisation is never compared between passages.",
     ["PyEC4PyHT.py", "buildup_simulation.py", "space_charge_class.py"],
     [("slice interaction", "Ecloud._track_single_slice"), ("re-initialisation", "Ecloud._reinitialize"), ("whole-bunch / slice modes", "Ecloud.track / _track_in_single_slice_mode")],
     ["bunch coordinates before and after", "cloud state, recorded fields"])

prop("C21", "A frozen cloud replays the recorded kicks",
     "Replacing a tracked electron cloud by its recorded field map makes every later passage of the same bunch receive the kicks the live cloud gave while recording, slice by slice and in either tracking mode, for any offset and number of passages; the map's kick is linear in the interaction length and in the map, does not depend on other particles, and changes nothing but the transverse momenta of the particles in the slices. "
     "A single-slice kick map interpolates the recorded field at the particle's position.",
     ["inputs", "histories", "configurations"],
     "all bunches, slicings, beam offsets, tracking modes, repeated passages",
     NOASSERT + "the frozen-cloud scripts only plot tune footprints.",
     ["Transverse_Efield_map_for_frozen_cloud.py", "PyEC4PyHT.py"],
     [("replay", "Transverse_Efield_map.track / _track_single_slice"), ("recording and replacement", "Ecloud.track_once_and_replace_with_recorded_field_map / replace_with_recorded_field_map")],
     ["bunch momenta after live and frozen passage"])

prop("C22", "Emitted-electron energies and angles follow the configured distributions",
     "For every selectable energy and angle distribution, any parameters, particle mass and surface normal, generated electrons have exactly the requested kinetic energy, the requested number, velocities in the half-space of the inward normal with the configured polar-angle law and uniform azimuth around the normal, and energies distributed as configured, non-negative and cut where the documentation says. "
     "Specular reflection preserves the tangential and reverses the normal velocity component.",
     ["inputs", "configurations"],
     "all distributions, parameters, masses, normals of any orientation, batch sizes including zero and one",
     NOASSERT + "distributions are only sampled inside whole runs.",
     ["electron_emission.py", "gen_photoemission_class.py", "sec_emission_model_furman_pivi.py"],
     [("angles", "electron_emission velocities_angle_*"), ("energies", "electron_emission get_energy_* / sec_energy_hilleret_model2"), ("specular", "electron_emission.specular_velocity")],
     ["returned velocity and energy arrays"])

prop("C23", "Position-dependent surfaces use each segment's own properties",
     "With a chamber whose segments carry their own emission or charging properties, every impact is treated with the properties of the segment it hit (the configured default where the profile says so), for any number of segments, clouds and impacts, and never with those of another segment or another cloud. "
     "Charging segments accumulate exactly the net charge deposited on them (impacting minus emitted) plus what conduction removes, the stored charge changes the yield only while it is recorded, and un-chargeable segments stay neutral.",
     ["inputs", "histories", "configurations"],
     "all segment property tables, impact sequences, charging parameters and numbers of clouds",
     NOASSERT + "non-uniform and charging surfaces are not part of the stable tests.",
     ["sec_emission_model_ECLOUD_nunif.py", "geom_impact_poly_fast_impact.py", "impact_management_class.py", "init.py"],
     [("per-segment parameters", "SEY_model_ECLOUD_non_unif"), ("charging", "SEY_model_ECLOUD_non_unif_charging")],
     ["emitted charge per impact", "segment charge and field"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
