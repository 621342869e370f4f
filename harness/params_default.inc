{"initial_iteration", "0"},
{"final_iteration", "0"},
{"initial_time", "0"},
{"final_time", "0"},
{"initial_dt", "0.001"},
{"timestep_cfl_factor", "0.25"},
{"adaptive_timestep", "no"},
{"pressure_updates_number", "1"},
{"nparticles", "1000"},
{"lattice_nx", "100"},
{"sph_eta", "1.5"},
{"sph_smoothing_length", "-1"},
{"sph_separation", "-1"},
{"sph_sinc_index", "4"},
{"sph_update_uniform_h", "no"},
{"sph_variable_h", "no"},
{"domain_type", "0"},
{"box_length", "3"},
{"box_width", "1"},
{"box_height", "1"},
{"sphere_radius", "1"},
{"do_boundaries", "no"},
{"stop_boundaries", "no"},
{"reflect_boundaries", "no"},
{"periodic_boundary_x", "no"},
{"periodic_boundary_y", "no"},
{"periodic_boundary_z", "no"},
{"lattice_mismatch_tolerance", "0.050000000000000003"},
{"initial_data_prefix", "\"initial_data\""},
{"modify_initial_data", "no"},
{"output_h5data_prefix", "\"output_data\""},
{"out_screen_every", "1"},
{"out_screen_dt", "0"},
{"out_scalar_every", "10"},
{"out_scalar_dt", "0"},
{"out_diagnostic_every", "0"},
{"out_h5data_every", "10"},
{"out_h5data_dt", "0"},
{"out_h5data_separate_iterations", "no"},
{"wvt_method", "\"arth\""},
{"wvt_boundary", "\"reflective\""},
{"wvt_mu", "0.001"},
{"wvt_ngb", "120"},
{"wvt_convergence_check", "yes"},
{"wvt_convergence_point", "1"},
{"wvt_h_ngb", "no"},
{"wvt_cool_down", "0"},
{"wvt_radius", "1"},
{"eos_tab_file_path", "\".\""},
{"poly_gamma", "1.3999999999999999"},
{"poly_gamma2", "2.5"},
{"ppt_density_thr", "500000000000000"},
{"sph_viscosity_alpha", "1"},
{"sph_viscosity_beta", "2"},
{"sph_viscosity_epsilon", "0.01"},
{"sph_viscosity_alpha_max", "1"},
{"sph_viscosity_l", "0.050000000000000003"},
{"sph_viscosity_delta", "1"},
{"enable_fmm", "no"},
{"fmm_macangle", "0"},
{"relaxation_steps", "0"},
{"relaxation_beta", "9.9999999999999995e-07"},
{"relaxation_gamma", "0"},
{"relaxation_repulsion_radius", "0.25"},
{"relaxation_repulsion_gamma", "0"},
{"evolve_internal_energy", "yes"},
{"thermokinetic_formulation", "yes"},
{"external_force_type", "\"none\""},
{"zero_potential_poison_value", "0"},
{"extforce_wall_powerindex", "5"},
{"extforce_wall_steepness", "1000000000000"},
{"mesa_rim_width", "0.25"},
{"gravity_acceleration_constant", "9.8100000000000005"},
{"gravitational_constant", "1"},
{"orbital_separation", "2500000000"},
{"mass_neutron_star", "2.5054281e+33"},
{"mass_white_dwarf", "2.1872785000000002e+33"},
{"sodtest_num", "1"},
{"equal_mass", "yes"},
{"density_profile", "\"constant\""},
{"input_density_file", "\"\""},
{"rho_initial", "1"},
{"pressure_initial", "1"},
{"uint_initial", "1"},
{"sedov_blast_energy", "1"},
{"sedov_blast_radius", "0.050000000000000003"},
{"noh_infall_velocity", "0.10000000000000001"},
{"lattice_type", "0"},
{"lattice_perturbation_amplitude", "0"},
{"flow_velocity", "0"},
{"density_ratio", "2"},
{"KH_A", "0.025000000000000001"},
{"KH_lambda", "0.16666666666666666"},
{"rt_perturbation_amplitude", "0.20000000000000001"},
{"rt_perturbation_stripe_width", "0.10000000000000001"},
{"rt_perturbation_mode", "1"},
{"airfoil_size", "2"},
{"airfoil_thickness", "0.050000000000000003"},
{"airfoil_camber", "0.10000000000000001"},
{"airfoil_anchor_x", "-1"},
{"airfoil_anchor_y", "0"},
{"airfoil_attack_angle", "0"},
{"sph_kernel", "wendland_c4"},
{"eos_type", "ideal_fluid"},
{"sph_viscosity", "constant"},
