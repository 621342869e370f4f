// every parameter that can be written in a parameter file: kind and name
P_I(initial_iteration)
P_I(final_iteration)
P_F(initial_time)
P_F(final_time)
P_F(initial_dt)
P_F(timestep_cfl_factor)
P_B(adaptive_timestep)
P_I(pressure_updates_number)
P_I(nparticles)
P_I(lattice_nx)
P_F(sph_eta)
P_F(sph_smoothing_length)
P_F(sph_separation)
P_F(sph_sinc_index)
P_B(sph_update_uniform_h)
P_B(sph_variable_h)
P_I(domain_type)
P_F(box_length)
P_F(box_width)
P_F(box_height)
P_F(sphere_radius)
P_B(do_boundaries)
P_B(stop_boundaries)
P_B(reflect_boundaries)
P_B(periodic_boundary_x)
P_B(periodic_boundary_y)
P_B(periodic_boundary_z)
P_F(lattice_mismatch_tolerance)
P_S(initial_data_prefix)
P_B(modify_initial_data)
P_S(output_h5data_prefix)
P_I(out_screen_every)
P_F(out_screen_dt)
P_I(out_scalar_every)
P_F(out_scalar_dt)
P_I(out_diagnostic_every)
P_I(out_h5data_every)
P_F(out_h5data_dt)
P_B(out_h5data_separate_iterations)
P_S(wvt_method)
P_S(wvt_boundary)
P_F(wvt_mu)
P_F(wvt_ngb)
P_B(wvt_convergence_check)
P_F(wvt_convergence_point)
P_B(wvt_h_ngb)
P_I(wvt_cool_down)
P_F(wvt_radius)
P_S(eos_tab_file_path)
P_F(poly_gamma)
P_F(poly_gamma2)
P_F(ppt_density_thr)
P_F(sph_viscosity_alpha)
P_F(sph_viscosity_beta)
P_F(sph_viscosity_epsilon)
P_F(sph_viscosity_alpha_max)
P_F(sph_viscosity_l)
P_F(sph_viscosity_delta)
P_B(enable_fmm)
P_F(fmm_macangle)
P_I(relaxation_steps)
P_F(relaxation_beta)
P_F(relaxation_gamma)
P_F(relaxation_repulsion_radius)
P_F(relaxation_repulsion_gamma)
P_B(evolve_internal_energy)
P_B(thermokinetic_formulation)
P_S(external_force_type)
P_F(zero_potential_poison_value)
P_F(extforce_wall_powerindex)
P_F(extforce_wall_steepness)
P_F(mesa_rim_width)
P_F(gravity_acceleration_constant)
P_F(gravitational_constant)
P_F(orbital_separation)
P_F(mass_neutron_star)
P_F(mass_white_dwarf)
P_I(sodtest_num)
P_B(equal_mass)
P_S(density_profile)
P_S(input_density_file)
P_F(rho_initial)
P_F(pressure_initial)
P_F(uint_initial)
P_F(sedov_blast_energy)
P_F(sedov_blast_radius)
P_F(noh_infall_velocity)
P_I(lattice_type)
P_F(lattice_perturbation_amplitude)
P_F(flow_velocity)
P_F(density_ratio)
P_F(KH_A)
P_F(KH_lambda)
P_F(rt_perturbation_amplitude)
P_F(rt_perturbation_stripe_width)
P_F(rt_perturbation_mode)
P_F(airfoil_size)
P_F(airfoil_thickness)
P_F(airfoil_camber)
P_F(airfoil_anchor_x)
P_F(airfoil_anchor_y)
P_F(airfoil_attack_angle)
