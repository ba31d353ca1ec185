---------------------------- MODULE ConfigSchema ----------------------------
(* The fields of the configuration classes: <<name, type, given to the simulator>>, the fields holding other *)
(* configurations: <<name, given to the simulator>>, and the documented defaults.  Type: f(loat), i(nt),     *)
(* b(ool), e(num), l(ist).  Written by lib/cfgschema.py and reviewed against the documentation.              *)
EXTENDS Integers, Sequences

F_IOParameters ==
    <<<<"is_perfect", "b", TRUE>>, <<"mv_type", "e", TRUE>>, <<"inp_bound", "f", TRUE>>, <<"inp_noise", "f", 
    TRUE>>, <<"inp_res", "f", TRUE>>, <<"inp_sto_round", "b", TRUE>>, <<"inp_asymmetry", "f", TRUE>>, 
    <<"out_bound", "f", TRUE>>, <<"out_noise", "f", TRUE>>, <<"out_noise_std", "f", TRUE>>, <<"out_res", "f", 
    TRUE>>, <<"out_sto_round", "b", TRUE>>, <<"out_scale", "f", TRUE>>, <<"out_asymmetry", "f", TRUE>>, 
    <<"bound_management", "e", TRUE>>, <<"noise_management", "e", TRUE>>, <<"w_noise", "f", TRUE>>, 
    <<"w_noise_type", "e", TRUE>>, <<"ir_drop", "f", TRUE>>, <<"ir_drop_g_ratio", "f", TRUE>>, 
    <<"out_nonlinearity", "f", TRUE>>, <<"out_nonlinearity_std", "f", TRUE>>, <<"slope_calibration", "f", 
    TRUE>>, <<"v_offset_std", "f", TRUE>>, <<"v_offset_w_min", "f", TRUE>>, <<"r_series", "f", TRUE>>, 
    <<"w_read_asymmetry_dtod", "f", TRUE>>, <<"max_bm_factor", "i", TRUE>>, <<"max_bm_res", "f", TRUE>>, 
    <<"bm_test_negative_bound", "b", TRUE>>, <<"nm_thres", "f", TRUE>>>>
R_IOParameters ==
    <<>>
F_IOParametersIRDropT ==
    <<<<"is_perfect", "b", TRUE>>, <<"mv_type", "e", TRUE>>, <<"inp_bound", "f", TRUE>>, <<"inp_noise", "f", 
    TRUE>>, <<"inp_res", "f", TRUE>>, <<"inp_sto_round", "b", TRUE>>, <<"inp_asymmetry", "f", TRUE>>, 
    <<"out_bound", "f", TRUE>>, <<"out_noise", "f", TRUE>>, <<"out_noise_std", "f", TRUE>>, <<"out_res", "f", 
    TRUE>>, <<"out_sto_round", "b", TRUE>>, <<"out_scale", "f", TRUE>>, <<"out_asymmetry", "f", TRUE>>, 
    <<"bound_management", "e", TRUE>>, <<"noise_management", "e", TRUE>>, <<"w_noise", "f", TRUE>>, 
    <<"w_noise_type", "e", TRUE>>, <<"ir_drop", "f", TRUE>>, <<"ir_drop_g_ratio", "f", TRUE>>, 
    <<"out_nonlinearity", "f", TRUE>>, <<"out_nonlinearity_std", "f", TRUE>>, <<"slope_calibration", "f", 
    TRUE>>, <<"v_offset_std", "f", TRUE>>, <<"v_offset_w_min", "f", TRUE>>, <<"r_series", "f", TRUE>>, 
    <<"w_read_asymmetry_dtod", "f", TRUE>>, <<"max_bm_factor", "i", TRUE>>, <<"max_bm_res", "f", TRUE>>, 
    <<"bm_test_negative_bound", "b", TRUE>>, <<"nm_thres", "f", TRUE>>, <<"ir_drop_rs", "f", FALSE>>, 
    <<"ir_drop_segments", "i", FALSE>>, <<"ir_drop_time_step_resolution_scale", "f", FALSE>>, 
    <<"ir_drop_v_read", "f", FALSE>>, <<"apply_xdep_pcm_read_noise", "b", FALSE>>, 
    <<"xdep_pcm_read_noise_scale", "f", FALSE>>, <<"adc_quantization", "b", FALSE>>, <<"adc_frequency", "f", 
    FALSE>>, <<"ir_drop_integration_sum", "b", FALSE>>>>
R_IOParametersIRDropT ==
    <<>>
F_UpdateParameters ==
    <<<<"desired_bl", "i", TRUE>>, <<"fixed_bl", "b", TRUE>>, <<"pulse_type", "e", TRUE>>, <<"res", "f", TRUE>>, 
    <<"x_res_implicit", "f", TRUE>>, <<"d_res_implicit", "f", TRUE>>, <<"d_sparsity", "b", TRUE>>, 
    <<"sto_round", "b", TRUE>>, <<"update_bl_management", "b", TRUE>>, <<"update_management", "b", TRUE>>, 
    <<"um_grad_scale", "f", TRUE>>>>
R_UpdateParameters ==
    <<>>
F_WeightModifierParameter ==
    <<<<"std_dev", "f", TRUE>>, <<"per_batch_sample", "b", TRUE>>, <<"res", "f", TRUE>>, <<"sto_round", "b", 
    TRUE>>, <<"dorefa_clip", "f", TRUE>>, <<"pdrop", "f", TRUE>>, <<"enable_during_test", "b", TRUE>>, 
    <<"rel_to_actual_wmax", "b", TRUE>>, <<"assumed_wmax", "f", TRUE>>, <<"copy_last_column", "b", TRUE>>, 
    <<"coeffs", "l", TRUE>>, <<"type", "e", TRUE>>, <<"g_max", "f", TRUE>>, <<"pcm_zero_thres", "f", TRUE>>, 
    <<"pcm_t_inference", "f", TRUE>>, <<"pcm_prob_at_reset", "f", TRUE>>, <<"pcm_prob_at_gmax", "f", TRUE>>, 
    <<"pcm_prob_at_random", "f", TRUE>>, <<"pcm_t0", "f", TRUE>>>>
R_WeightModifierParameter ==
    <<>>
F_WeightClipParameter ==
    <<<<"fixed_value", "f", TRUE>>, <<"sigma", "f", TRUE>>, <<"type", "e", TRUE>>>>
R_WeightClipParameter ==
    <<>>
F_WeightRemapParameter ==
    <<<<"remapped_wmax", "f", TRUE>>, <<"max_scale_range", "f", TRUE>>, <<"max_scale_ref", "f", TRUE>>, <<"type", 
    "e", TRUE>>>>
R_WeightRemapParameter ==
    <<>>
F_SimpleDriftParameter ==
    <<<<"nu", "f", TRUE>>, <<"t_0", "f", TRUE>>, <<"reset_tol", "f", TRUE>>>>
R_SimpleDriftParameter ==
    <<>>
F_DriftParameter ==
    <<<<"nu", "f", TRUE>>, <<"t_0", "f", TRUE>>, <<"reset_tol", "f", TRUE>>, <<"nu_dtod", "f", TRUE>>, <<"nu_std", 
    "f", TRUE>>, <<"wg_ratio", "f", TRUE>>, <<"g_offset", "f", TRUE>>, <<"w_offset", "f", TRUE>>, <<"nu_k", 
    "f", TRUE>>, <<"log_g0", "f", TRUE>>, <<"w_noise_std", "f", TRUE>>>>
R_DriftParameter ==
    <<>>
F_MappingParameter ==
    <<<<"digital_bias", "b", FALSE>>, <<"weight_scaling_omega", "f", FALSE>>, <<"weight_scaling_columnwise", "b", 
    FALSE>>, <<"weight_scaling_lr_compensation", "b", FALSE>>, <<"learn_out_scaling", "b", FALSE>>, 
    <<"out_scaling_columnwise", "b", FALSE>>, <<"max_input_size", "i", FALSE>>, <<"max_output_size", "i", 
    FALSE>>>>
R_MappingParameter ==
    <<>>
F_InputRangeParameter ==
    <<<<"enable", "b", FALSE>>, <<"learn_input_range", "b", FALSE>>, <<"init_value", "f", FALSE>>, 
    <<"init_from_data", "i", FALSE>>, <<"init_std_alpha", "f", FALSE>>, <<"decay", "f", FALSE>>, 
    <<"input_min_percentage", "f", FALSE>>, <<"manage_output_clipping", "b", FALSE>>, 
    <<"output_min_percentage", "f", FALSE>>, <<"gradient_scale", "f", FALSE>>, <<"gradient_relative", "b", 
    FALSE>>>>
R_InputRangeParameter ==
    <<>>
F_PrePostProcessingParameter ==
    <<>>
R_PrePostProcessingParameter ==
    <<<<"input_range", FALSE>>>>
F_RuntimeParameter ==
    <<<<"data_type", "e", FALSE>>, <<"on_the_fly_bindings", "b", FALSE>>, <<"offload_input", "b", FALSE>>, 
    <<"offload_gradient", "b", FALSE>>>>
R_RuntimeParameter ==
    <<>>
F_FloatingPointDevice ==
    <<<<"diffusion", "f", TRUE>>, <<"lifetime", "f", TRUE>>>>
R_FloatingPointDevice ==
    <<<<"drift", TRUE>>>>
F_IdealDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"diffusion", "f", TRUE>>, <<"lifetime", "f", TRUE>>, <<"reset_std", 
    "f", TRUE>>>>
R_IdealDevice ==
    <<>>
F_ConstantStepDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>>>
R_ConstantStepDevice ==
    <<<<"drift", TRUE>>>>
F_LinearStepDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>, 
    <<"gamma_up", "f", TRUE>>, <<"gamma_down", "f", TRUE>>, <<"gamma_up_dtod", "f", TRUE>>, 
    <<"gamma_down_dtod", "f", TRUE>>, <<"allow_increasing", "b", TRUE>>, <<"mean_bound_reference", "b", 
    TRUE>>, <<"mult_noise", "b", TRUE>>, <<"write_noise_std", "f", TRUE>>, <<"apply_write_noise_on_set", "b", 
    TRUE>>, <<"reverse_up", "b", TRUE>>, <<"reverse_down", "b", TRUE>>, <<"reverse_offset", "f", TRUE>>>>
R_LinearStepDevice ==
    <<<<"drift", TRUE>>>>
F_SoftBoundsDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>, 
    <<"mult_noise", "b", TRUE>>, <<"write_noise_std", "f", TRUE>>, <<"apply_write_noise_on_set", "b", TRUE>>, 
    <<"reverse_up", "b", TRUE>>, <<"reverse_down", "b", TRUE>>, <<"reverse_offset", "f", TRUE>>>>
R_SoftBoundsDevice ==
    <<<<"drift", TRUE>>>>
F_SoftBoundsReferenceDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>, 
    <<"mult_noise", "b", TRUE>>, <<"write_noise_std", "f", TRUE>>, <<"apply_write_noise_on_set", "b", TRUE>>, 
    <<"slope_up_dtod", "f", TRUE>>, <<"slope_down_dtod", "f", TRUE>>, <<"reference_mean", "f", TRUE>>, 
    <<"reference_std", "f", TRUE>>, <<"subtract_symmetry_point", "b", TRUE>>>>
R_SoftBoundsReferenceDevice ==
    <<<<"drift", TRUE>>>>
F_ExpStepDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>, <<"A_up", 
    "f", TRUE>>, <<"A_down", "f", TRUE>>, <<"gamma_up", "f", TRUE>>, <<"gamma_down", "f", TRUE>>, <<"a", "f", 
    TRUE>>, <<"b", "f", TRUE>>, <<"dw_min_std_add", "f", TRUE>>, <<"dw_min_std_slope", "f", TRUE>>, 
    <<"write_noise_std", "f", TRUE>>, <<"apply_write_noise_on_set", "b", TRUE>>>>
R_ExpStepDevice ==
    <<<<"drift", TRUE>>>>
F_PowStepDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>, 
    <<"pow_gamma", "f", TRUE>>, <<"pow_gamma_dtod", "f", TRUE>>, <<"pow_up_down", "f", TRUE>>, 
    <<"pow_up_down_dtod", "f", TRUE>>, <<"write_noise_std", "f", TRUE>>, <<"apply_write_noise_on_set", "b", 
    TRUE>>>>
R_PowStepDevice ==
    <<<<"drift", TRUE>>>>
F_PowStepReferenceDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>, 
    <<"pow_gamma", "f", TRUE>>, <<"pow_gamma_dtod", "f", TRUE>>, <<"pow_up_down", "f", TRUE>>, 
    <<"pow_up_down_dtod", "f", TRUE>>, <<"subtract_symmetry_point", "b", TRUE>>, <<"n_estimation_steps", "i", 
    TRUE>>, <<"reference_mean", "f", TRUE>>, <<"reference_std", "f", TRUE>>>>
R_PowStepReferenceDevice ==
    <<<<"drift", TRUE>>>>
F_PiecewiseStepDevice ==
    <<<<"construction_seed", "i", TRUE>>, <<"corrupt_devices_prob", "f", TRUE>>, <<"corrupt_devices_range", "f", 
    TRUE>>, <<"diffusion", "f", TRUE>>, <<"diffusion_dtod", "f", TRUE>>, <<"dw_min", "f", TRUE>>, 
    <<"dw_min_dtod", "f", TRUE>>, <<"dw_min_dtod_log_normal", "b", TRUE>>, <<"dw_min_std", "f", TRUE>>, 
    <<"enforce_consistency", "b", TRUE>>, <<"lifetime", "f", TRUE>>, <<"lifetime_dtod", "f", TRUE>>, 
    <<"perfect_bias", "b", TRUE>>, <<"reset", "f", TRUE>>, <<"reset_dtod", "f", TRUE>>, <<"reset_std", "f", 
    TRUE>>, <<"up_down", "f", TRUE>>, <<"up_down_dtod", "f", TRUE>>, <<"w_max", "f", TRUE>>, <<"w_max_dtod", 
    "f", TRUE>>, <<"w_min", "f", TRUE>>, <<"w_min_dtod", "f", TRUE>>, <<"count_pulses", "b", TRUE>>, 
    <<"piecewise_up", "l", TRUE>>, <<"piecewise_down", "l", TRUE>>, <<"write_noise_std", "f", TRUE>>, 
    <<"apply_write_noise_on_set", "b", TRUE>>>>
R_PiecewiseStepDevice ==
    <<<<"drift", TRUE>>>>
F_UnitCell ==
    <<<<"construction_seed", "i", TRUE>>>>
R_UnitCell ==
    <<>>
F_VectorUnitCell ==
    <<<<"construction_seed", "i", TRUE>>, <<"update_policy", "e", TRUE>>, <<"first_update_idx", "i", TRUE>>, 
    <<"gamma_vec", "l", TRUE>>>>
R_VectorUnitCell ==
    <<>>
F_DigitalRankUpdateCell ==
    <<<<"construction_seed", "i", TRUE>>>>
R_DigitalRankUpdateCell ==
    <<<<"device", FALSE>>>>
F_ReferenceUnitCell ==
    <<<<"construction_seed", "i", TRUE>>, <<"update_policy", "e", TRUE>>, <<"first_update_idx", "i", TRUE>>, 
    <<"gamma_vec", "l", TRUE>>>>
R_ReferenceUnitCell ==
    <<>>
F_OneSidedUnitCell ==
    <<<<"construction_seed", "i", TRUE>>, <<"refresh_every", "i", TRUE>>, <<"units_in_mbatch", "b", TRUE>>, 
    <<"refresh_upper_thres", "f", TRUE>>, <<"refresh_lower_thres", "f", TRUE>>, <<"copy_inverted", "b", 
    TRUE>>>>
R_OneSidedUnitCell ==
    <<<<"refresh_forward", TRUE>>, <<"refresh_update", TRUE>>>>
F_TransferCompound ==
    <<<<"construction_seed", "i", TRUE>>, <<"gamma", "f", TRUE>>, <<"gamma_vec", "l", TRUE>>, <<"transfer_every", 
    "f", TRUE>>, <<"no_self_transfer", "b", TRUE>>, <<"transfer_every_vec", "l", TRUE>>, <<"units_in_mbatch", 
    "b", TRUE>>, <<"n_reads_per_transfer", "i", TRUE>>, <<"transfer_columns", "b", TRUE>>, 
    <<"with_reset_prob", "f", TRUE>>, <<"random_selection", "b", TRUE>>, <<"fast_lr", "f", TRUE>>, 
    <<"transfer_lr", "f", TRUE>>, <<"transfer_lr_vec", "l", TRUE>>, <<"scale_transfer_lr", "b", TRUE>>, 
    <<"scale_fast_lr", "b", TRUE>>>>
R_TransferCompound ==
    <<<<"transfer_forward", TRUE>>, <<"transfer_update", TRUE>>>>
F_BufferedTransferCompound ==
    <<<<"construction_seed", "i", TRUE>>, <<"gamma", "f", TRUE>>, <<"gamma_vec", "l", TRUE>>, <<"transfer_every", 
    "f", TRUE>>, <<"no_self_transfer", "b", TRUE>>, <<"transfer_every_vec", "l", TRUE>>, <<"units_in_mbatch", 
    "b", TRUE>>, <<"n_reads_per_transfer", "i", TRUE>>, <<"transfer_columns", "b", TRUE>>, 
    <<"with_reset_prob", "f", TRUE>>, <<"random_selection", "b", TRUE>>, <<"fast_lr", "f", TRUE>>, 
    <<"transfer_lr", "f", TRUE>>, <<"transfer_lr_vec", "l", TRUE>>, <<"scale_transfer_lr", "b", TRUE>>, 
    <<"scale_fast_lr", "b", TRUE>>, <<"thres_scale", "f", TRUE>>, <<"step", "f", TRUE>>, <<"momentum", "f", 
    TRUE>>, <<"forget_buffer", "b", TRUE>>>>
R_BufferedTransferCompound ==
    <<<<"transfer_forward", TRUE>>, <<"transfer_update", TRUE>>>>
F_ChoppedTransferCompound ==
    <<<<"construction_seed", "i", TRUE>>, <<"gamma", "f", TRUE>>, <<"gamma_vec", "l", TRUE>>, <<"transfer_every", 
    "f", TRUE>>, <<"no_self_transfer", "b", TRUE>>, <<"transfer_every_vec", "l", TRUE>>, <<"units_in_mbatch", 
    "b", TRUE>>, <<"n_reads_per_transfer", "i", TRUE>>, <<"transfer_columns", "b", TRUE>>, 
    <<"with_reset_prob", "f", TRUE>>, <<"random_selection", "b", TRUE>>, <<"fast_lr", "f", TRUE>>, 
    <<"transfer_lr", "f", TRUE>>, <<"transfer_lr_vec", "l", TRUE>>, <<"scale_transfer_lr", "b", TRUE>>, 
    <<"scale_fast_lr", "b", TRUE>>, <<"in_chop_prob", "f", TRUE>>, <<"in_chop_random", "b", TRUE>>, 
    <<"out_chop_prob", "f", TRUE>>, <<"buffer_granularity", "f", TRUE>>, <<"auto_granularity", "f", TRUE>>, 
    <<"step", "f", TRUE>>, <<"momentum", "f", TRUE>>, <<"forget_buffer", "b", TRUE>>, <<"no_buffer", "b", 
    TRUE>>, <<"auto_scale", "b", TRUE>>, <<"auto_momentum", "f", TRUE>>, <<"correct_gradient_magnitudes", "b", 
    TRUE>>>>
R_ChoppedTransferCompound ==
    <<<<"transfer_forward", TRUE>>, <<"transfer_update", TRUE>>>>
F_DynamicTransferCompound ==
    <<<<"construction_seed", "i", TRUE>>, <<"gamma", "f", TRUE>>, <<"gamma_vec", "l", TRUE>>, <<"transfer_every", 
    "f", TRUE>>, <<"no_self_transfer", "b", TRUE>>, <<"transfer_every_vec", "l", TRUE>>, <<"units_in_mbatch", 
    "b", TRUE>>, <<"n_reads_per_transfer", "i", TRUE>>, <<"transfer_columns", "b", TRUE>>, 
    <<"with_reset_prob", "f", TRUE>>, <<"random_selection", "b", TRUE>>, <<"fast_lr", "f", TRUE>>, 
    <<"transfer_lr", "f", TRUE>>, <<"transfer_lr_vec", "l", TRUE>>, <<"scale_transfer_lr", "b", TRUE>>, 
    <<"scale_fast_lr", "b", TRUE>>, <<"in_chop_prob", "f", TRUE>>, <<"in_chop_random", "b", TRUE>>, 
    <<"out_chop_prob", "f", TRUE>>, <<"buffer_granularity", "f", TRUE>>, <<"auto_granularity", "f", TRUE>>, 
    <<"step", "f", TRUE>>, <<"momentum", "f", TRUE>>, <<"forget_buffer", "b", TRUE>>, <<"no_buffer", "b", 
    TRUE>>, <<"auto_scale", "b", TRUE>>, <<"auto_momentum", "f", TRUE>>, <<"correct_gradient_magnitudes", "b", 
    TRUE>>, <<"experimental_correct_accumulation", "b", TRUE>>, <<"buffer_cap", "f", TRUE>>, 
    <<"tail_weightening", "f", TRUE>>>>
R_DynamicTransferCompound ==
    <<<<"transfer_forward", TRUE>>, <<"transfer_update", TRUE>>>>
F_MixedPrecisionCompound ==
    <<<<"construction_seed", "i", TRUE>>, <<"transfer_every", "i", TRUE>>, <<"n_rows_per_transfer", "i", TRUE>>, 
    <<"random_row", "b", TRUE>>, <<"granularity", "f", TRUE>>, <<"transfer_lr", "f", TRUE>>, <<"n_x_bins", 
    "i", TRUE>>, <<"n_d_bins", "i", TRUE>>, <<"stoc_round_x", "b", TRUE>>, <<"stoc_round_d", "b", TRUE>>>>
R_MixedPrecisionCompound ==
    <<<<"device", FALSE>>>>
F_FloatingPointRPUConfig ==
    <<>>
R_FloatingPointRPUConfig ==
    <<<<"runtime", FALSE>>, <<"pre_post", FALSE>>, <<"mapping", FALSE>>, <<"device", FALSE>>>>
F_InferenceRPUConfig ==
    <<>>
R_InferenceRPUConfig ==
    <<<<"runtime", FALSE>>, <<"pre_post", FALSE>>, <<"mapping", FALSE>>, <<"forward", TRUE>>, <<"backward", 
    TRUE>>, <<"update", TRUE>>, <<"clip", FALSE>>, <<"remap", FALSE>>, <<"modifier", FALSE>>, <<"device", 
    FALSE>>>>
F_SingleRPUConfig ==
    <<>>
R_SingleRPUConfig ==
    <<<<"runtime", FALSE>>, <<"pre_post", FALSE>>, <<"mapping", FALSE>>, <<"forward", TRUE>>, <<"backward", 
    TRUE>>, <<"update", TRUE>>, <<"device", FALSE>>>>
F_UnitCellRPUConfig ==
    <<>>
R_UnitCellRPUConfig ==
    <<<<"runtime", FALSE>>, <<"pre_post", FALSE>>, <<"mapping", FALSE>>, <<"forward", TRUE>>, <<"backward", 
    TRUE>>, <<"update", TRUE>>, <<"device", FALSE>>>>
F_DigitalRankUpdateRPUConfig ==
    <<>>
R_DigitalRankUpdateRPUConfig ==
    <<<<"runtime", FALSE>>, <<"pre_post", FALSE>>, <<"mapping", FALSE>>, <<"forward", TRUE>>, <<"backward", 
    TRUE>>, <<"update", TRUE>>, <<"device", FALSE>>>>
F_TorchInferenceRPUConfig == F_InferenceRPUConfig
R_TorchInferenceRPUConfig == R_InferenceRPUConfig
F_PresetIOParameters == F_IOParameters
R_PresetIOParameters == R_IOParameters
F_PresetUpdateParameters == F_UpdateParameters
R_PresetUpdateParameters == R_UpdateParameters
F_StandardIOParameters == F_IOParameters
R_StandardIOParameters == R_IOParameters
F_ReRamESPresetDevice == F_ExpStepDevice
R_ReRamESPresetDevice == R_ExpStepDevice
F_ReRamSBPresetDevice == F_SoftBoundsReferenceDevice
R_ReRamSBPresetDevice == R_SoftBoundsReferenceDevice
F_CapacitorPresetDevice == F_LinearStepDevice
R_CapacitorPresetDevice == R_LinearStepDevice
F_EcRamPresetDevice == F_LinearStepDevice
R_EcRamPresetDevice == R_LinearStepDevice
F_EcRamMOPresetDevice == F_LinearStepDevice
R_EcRamMOPresetDevice == R_LinearStepDevice
F_IdealizedPresetDevice == F_ConstantStepDevice
R_IdealizedPresetDevice == R_ConstantStepDevice
F_GokmenVlasovPresetDevice == F_ConstantStepDevice
R_GokmenVlasovPresetDevice == R_ConstantStepDevice
F_PCMPresetDevice == F_ExpStepDevice
R_PCMPresetDevice == R_ExpStepDevice
F_ReRamArrayOMPresetDevice == F_SoftBoundsReferenceDevice
R_ReRamArrayOMPresetDevice == R_SoftBoundsReferenceDevice
F_ReRamArrayHfO2PresetDevice == F_SoftBoundsReferenceDevice
R_ReRamArrayHfO2PresetDevice == R_SoftBoundsReferenceDevice
F_PCMPresetUnitCell == F_OneSidedUnitCell
R_PCMPresetUnitCell == R_OneSidedUnitCell
F_FloatingPointPreset == F_TorchInferenceRPUConfig
R_FloatingPointPreset == R_TorchInferenceRPUConfig
F_StandardHWATrainingPreset == F_InferenceRPUConfig
R_StandardHWATrainingPreset == R_InferenceRPUConfig
F_ReRamESPreset == F_SingleRPUConfig
R_ReRamESPreset == R_SingleRPUConfig
F_ReRamSBPreset == F_SingleRPUConfig
R_ReRamSBPreset == R_SingleRPUConfig
F_CapacitorPreset == F_SingleRPUConfig
R_CapacitorPreset == R_SingleRPUConfig
F_EcRamPreset == F_SingleRPUConfig
R_EcRamPreset == R_SingleRPUConfig
F_EcRamMOPreset == F_SingleRPUConfig
R_EcRamMOPreset == R_SingleRPUConfig
F_IdealizedPreset == F_SingleRPUConfig
R_IdealizedPreset == R_SingleRPUConfig
F_GokmenVlasovPreset == F_SingleRPUConfig
R_GokmenVlasovPreset == R_SingleRPUConfig
F_PCMPreset == F_UnitCellRPUConfig
R_PCMPreset == R_UnitCellRPUConfig
F_ReRamES2Preset == F_UnitCellRPUConfig
R_ReRamES2Preset == R_UnitCellRPUConfig
F_ReRamSB2Preset == F_UnitCellRPUConfig
R_ReRamSB2Preset == R_UnitCellRPUConfig
F_Capacitor2Preset == F_UnitCellRPUConfig
R_Capacitor2Preset == R_UnitCellRPUConfig
F_EcRam2Preset == F_UnitCellRPUConfig
R_EcRam2Preset == R_UnitCellRPUConfig
F_EcRamMO2Preset == F_UnitCellRPUConfig
R_EcRamMO2Preset == R_UnitCellRPUConfig
F_Idealized2Preset == F_UnitCellRPUConfig
R_Idealized2Preset == R_UnitCellRPUConfig
F_ReRamES4Preset == F_UnitCellRPUConfig
R_ReRamES4Preset == R_UnitCellRPUConfig
F_ReRamSB4Preset == F_UnitCellRPUConfig
R_ReRamSB4Preset == R_UnitCellRPUConfig
F_Capacitor4Preset == F_UnitCellRPUConfig
R_Capacitor4Preset == R_UnitCellRPUConfig
F_EcRam4Preset == F_UnitCellRPUConfig
R_EcRam4Preset == R_UnitCellRPUConfig
F_EcRamMO4Preset == F_UnitCellRPUConfig
R_EcRamMO4Preset == R_UnitCellRPUConfig
F_Idealized4Preset == F_UnitCellRPUConfig
R_Idealized4Preset == R_UnitCellRPUConfig
F_TikiTakaReRamESPreset == F_UnitCellRPUConfig
R_TikiTakaReRamESPreset == R_UnitCellRPUConfig
F_TikiTakaReRamSBPreset == F_UnitCellRPUConfig
R_TikiTakaReRamSBPreset == R_UnitCellRPUConfig
F_TikiTakaCapacitorPreset == F_UnitCellRPUConfig
R_TikiTakaCapacitorPreset == R_UnitCellRPUConfig
F_TikiTakaEcRamPreset == F_UnitCellRPUConfig
R_TikiTakaEcRamPreset == R_UnitCellRPUConfig
F_TikiTakaEcRamMOPreset == F_UnitCellRPUConfig
R_TikiTakaEcRamMOPreset == R_UnitCellRPUConfig
F_TikiTakaIdealizedPreset == F_UnitCellRPUConfig
R_TikiTakaIdealizedPreset == R_UnitCellRPUConfig
F_TTv2ReRamESPreset == F_UnitCellRPUConfig
R_TTv2ReRamESPreset == R_UnitCellRPUConfig
F_TTv2ReRamSBPreset == F_UnitCellRPUConfig
R_TTv2ReRamSBPreset == R_UnitCellRPUConfig
F_TTv2CapacitorPreset == F_UnitCellRPUConfig
R_TTv2CapacitorPreset == R_UnitCellRPUConfig
F_TTv2EcRamPreset == F_UnitCellRPUConfig
R_TTv2EcRamPreset == R_UnitCellRPUConfig
F_TTv2EcRamMOPreset == F_UnitCellRPUConfig
R_TTv2EcRamMOPreset == R_UnitCellRPUConfig
F_TTv2IdealizedPreset == F_UnitCellRPUConfig
R_TTv2IdealizedPreset == R_UnitCellRPUConfig
F_ChoppedTTv2ReRamESPreset == F_UnitCellRPUConfig
R_ChoppedTTv2ReRamESPreset == R_UnitCellRPUConfig
F_ChoppedTTv2ReRamSBPreset == F_UnitCellRPUConfig
R_ChoppedTTv2ReRamSBPreset == R_UnitCellRPUConfig
F_ChoppedTTv2CapacitorPreset == F_UnitCellRPUConfig
R_ChoppedTTv2CapacitorPreset == R_UnitCellRPUConfig
F_ChoppedTTv2EcRamPreset == F_UnitCellRPUConfig
R_ChoppedTTv2EcRamPreset == R_UnitCellRPUConfig
F_ChoppedTTv2EcRamMOPreset == F_UnitCellRPUConfig
R_ChoppedTTv2EcRamMOPreset == R_UnitCellRPUConfig
F_ChoppedTTv2IdealizedPreset == F_UnitCellRPUConfig
R_ChoppedTTv2IdealizedPreset == R_UnitCellRPUConfig
F_AGADReRamESPreset == F_UnitCellRPUConfig
R_AGADReRamESPreset == R_UnitCellRPUConfig
F_AGADReRamSBPreset == F_UnitCellRPUConfig
R_AGADReRamSBPreset == R_UnitCellRPUConfig
F_AGADCapacitorPreset == F_UnitCellRPUConfig
R_AGADCapacitorPreset == R_UnitCellRPUConfig
F_AGADEcRamPreset == F_UnitCellRPUConfig
R_AGADEcRamPreset == R_UnitCellRPUConfig
F_AGADEcRamMOPreset == F_UnitCellRPUConfig
R_AGADEcRamMOPreset == R_UnitCellRPUConfig
F_AGADIdealizedPreset == F_UnitCellRPUConfig
R_AGADIdealizedPreset == R_UnitCellRPUConfig
F_MixedPrecisionReRamESPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionReRamESPreset == R_DigitalRankUpdateRPUConfig
F_MixedPrecisionReRamSBPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionReRamSBPreset == R_DigitalRankUpdateRPUConfig
F_MixedPrecisionCapacitorPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionCapacitorPreset == R_DigitalRankUpdateRPUConfig
F_MixedPrecisionEcRamPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionEcRamPreset == R_DigitalRankUpdateRPUConfig
F_MixedPrecisionEcRamMOPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionEcRamMOPreset == R_DigitalRankUpdateRPUConfig
F_MixedPrecisionIdealizedPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionIdealizedPreset == R_DigitalRankUpdateRPUConfig
F_MixedPrecisionGokmenVlasovPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionGokmenVlasovPreset == R_DigitalRankUpdateRPUConfig
F_MixedPrecisionPCMPreset == F_DigitalRankUpdateRPUConfig
R_MixedPrecisionPCMPreset == R_DigitalRankUpdateRPUConfig

FieldsOf == [
  IOParameters |-> F_IOParameters,
  IOParametersIRDropT |-> F_IOParametersIRDropT,
  UpdateParameters |-> F_UpdateParameters,
  WeightModifierParameter |-> F_WeightModifierParameter,
  WeightClipParameter |-> F_WeightClipParameter,
  WeightRemapParameter |-> F_WeightRemapParameter,
  SimpleDriftParameter |-> F_SimpleDriftParameter,
  DriftParameter |-> F_DriftParameter,
  MappingParameter |-> F_MappingParameter,
  InputRangeParameter |-> F_InputRangeParameter,
  PrePostProcessingParameter |-> F_PrePostProcessingParameter,
  RuntimeParameter |-> F_RuntimeParameter,
  FloatingPointDevice |-> F_FloatingPointDevice,
  IdealDevice |-> F_IdealDevice,
  ConstantStepDevice |-> F_ConstantStepDevice,
  LinearStepDevice |-> F_LinearStepDevice,
  SoftBoundsDevice |-> F_SoftBoundsDevice,
  SoftBoundsReferenceDevice |-> F_SoftBoundsReferenceDevice,
  ExpStepDevice |-> F_ExpStepDevice,
  PowStepDevice |-> F_PowStepDevice,
  PowStepReferenceDevice |-> F_PowStepReferenceDevice,
  PiecewiseStepDevice |-> F_PiecewiseStepDevice,
  UnitCell |-> F_UnitCell,
  VectorUnitCell |-> F_VectorUnitCell,
  DigitalRankUpdateCell |-> F_DigitalRankUpdateCell,
  ReferenceUnitCell |-> F_ReferenceUnitCell,
  OneSidedUnitCell |-> F_OneSidedUnitCell,
  TransferCompound |-> F_TransferCompound,
  BufferedTransferCompound |-> F_BufferedTransferCompound,
  ChoppedTransferCompound |-> F_ChoppedTransferCompound,
  DynamicTransferCompound |-> F_DynamicTransferCompound,
  MixedPrecisionCompound |-> F_MixedPrecisionCompound,
  FloatingPointRPUConfig |-> F_FloatingPointRPUConfig,
  InferenceRPUConfig |-> F_InferenceRPUConfig,
  SingleRPUConfig |-> F_SingleRPUConfig,
  UnitCellRPUConfig |-> F_UnitCellRPUConfig,
  DigitalRankUpdateRPUConfig |-> F_DigitalRankUpdateRPUConfig,
  TorchInferenceRPUConfig |-> F_TorchInferenceRPUConfig,
  PresetIOParameters |-> F_PresetIOParameters,
  PresetUpdateParameters |-> F_PresetUpdateParameters,
  StandardIOParameters |-> F_StandardIOParameters,
  ReRamESPresetDevice |-> F_ReRamESPresetDevice,
  ReRamSBPresetDevice |-> F_ReRamSBPresetDevice,
  CapacitorPresetDevice |-> F_CapacitorPresetDevice,
  EcRamPresetDevice |-> F_EcRamPresetDevice,
  EcRamMOPresetDevice |-> F_EcRamMOPresetDevice,
  IdealizedPresetDevice |-> F_IdealizedPresetDevice,
  GokmenVlasovPresetDevice |-> F_GokmenVlasovPresetDevice,
  PCMPresetDevice |-> F_PCMPresetDevice,
  ReRamArrayOMPresetDevice |-> F_ReRamArrayOMPresetDevice,
  ReRamArrayHfO2PresetDevice |-> F_ReRamArrayHfO2PresetDevice,
  PCMPresetUnitCell |-> F_PCMPresetUnitCell,
  FloatingPointPreset |-> F_FloatingPointPreset,
  StandardHWATrainingPreset |-> F_StandardHWATrainingPreset,
  ReRamESPreset |-> F_ReRamESPreset,
  ReRamSBPreset |-> F_ReRamSBPreset,
  CapacitorPreset |-> F_CapacitorPreset,
  EcRamPreset |-> F_EcRamPreset,
  EcRamMOPreset |-> F_EcRamMOPreset,
  IdealizedPreset |-> F_IdealizedPreset,
  GokmenVlasovPreset |-> F_GokmenVlasovPreset,
  PCMPreset |-> F_PCMPreset,
  ReRamES2Preset |-> F_ReRamES2Preset,
  ReRamSB2Preset |-> F_ReRamSB2Preset,
  Capacitor2Preset |-> F_Capacitor2Preset,
  EcRam2Preset |-> F_EcRam2Preset,
  EcRamMO2Preset |-> F_EcRamMO2Preset,
  Idealized2Preset |-> F_Idealized2Preset,
  ReRamES4Preset |-> F_ReRamES4Preset,
  ReRamSB4Preset |-> F_ReRamSB4Preset,
  Capacitor4Preset |-> F_Capacitor4Preset,
  EcRam4Preset |-> F_EcRam4Preset,
  EcRamMO4Preset |-> F_EcRamMO4Preset,
  Idealized4Preset |-> F_Idealized4Preset,
  TikiTakaReRamESPreset |-> F_TikiTakaReRamESPreset,
  TikiTakaReRamSBPreset |-> F_TikiTakaReRamSBPreset,
  TikiTakaCapacitorPreset |-> F_TikiTakaCapacitorPreset,
  TikiTakaEcRamPreset |-> F_TikiTakaEcRamPreset,
  TikiTakaEcRamMOPreset |-> F_TikiTakaEcRamMOPreset,
  TikiTakaIdealizedPreset |-> F_TikiTakaIdealizedPreset,
  TTv2ReRamESPreset |-> F_TTv2ReRamESPreset,
  TTv2ReRamSBPreset |-> F_TTv2ReRamSBPreset,
  TTv2CapacitorPreset |-> F_TTv2CapacitorPreset,
  TTv2EcRamPreset |-> F_TTv2EcRamPreset,
  TTv2EcRamMOPreset |-> F_TTv2EcRamMOPreset,
  TTv2IdealizedPreset |-> F_TTv2IdealizedPreset,
  ChoppedTTv2ReRamESPreset |-> F_ChoppedTTv2ReRamESPreset,
  ChoppedTTv2ReRamSBPreset |-> F_ChoppedTTv2ReRamSBPreset,
  ChoppedTTv2CapacitorPreset |-> F_ChoppedTTv2CapacitorPreset,
  ChoppedTTv2EcRamPreset |-> F_ChoppedTTv2EcRamPreset,
  ChoppedTTv2EcRamMOPreset |-> F_ChoppedTTv2EcRamMOPreset,
  ChoppedTTv2IdealizedPreset |-> F_ChoppedTTv2IdealizedPreset,
  AGADReRamESPreset |-> F_AGADReRamESPreset,
  AGADReRamSBPreset |-> F_AGADReRamSBPreset,
  AGADCapacitorPreset |-> F_AGADCapacitorPreset,
  AGADEcRamPreset |-> F_AGADEcRamPreset,
  AGADEcRamMOPreset |-> F_AGADEcRamMOPreset,
  AGADIdealizedPreset |-> F_AGADIdealizedPreset,
  MixedPrecisionReRamESPreset |-> F_MixedPrecisionReRamESPreset,
  MixedPrecisionReRamSBPreset |-> F_MixedPrecisionReRamSBPreset,
  MixedPrecisionCapacitorPreset |-> F_MixedPrecisionCapacitorPreset,
  MixedPrecisionEcRamPreset |-> F_MixedPrecisionEcRamPreset,
  MixedPrecisionEcRamMOPreset |-> F_MixedPrecisionEcRamMOPreset,
  MixedPrecisionIdealizedPreset |-> F_MixedPrecisionIdealizedPreset,
  MixedPrecisionGokmenVlasovPreset |-> F_MixedPrecisionGokmenVlasovPreset,
  MixedPrecisionPCMPreset |-> F_MixedPrecisionPCMPreset]
RefsOf == [
  IOParameters |-> R_IOParameters,
  IOParametersIRDropT |-> R_IOParametersIRDropT,
  UpdateParameters |-> R_UpdateParameters,
  WeightModifierParameter |-> R_WeightModifierParameter,
  WeightClipParameter |-> R_WeightClipParameter,
  WeightRemapParameter |-> R_WeightRemapParameter,
  SimpleDriftParameter |-> R_SimpleDriftParameter,
  DriftParameter |-> R_DriftParameter,
  MappingParameter |-> R_MappingParameter,
  InputRangeParameter |-> R_InputRangeParameter,
  PrePostProcessingParameter |-> R_PrePostProcessingParameter,
  RuntimeParameter |-> R_RuntimeParameter,
  FloatingPointDevice |-> R_FloatingPointDevice,
  IdealDevice |-> R_IdealDevice,
  ConstantStepDevice |-> R_ConstantStepDevice,
  LinearStepDevice |-> R_LinearStepDevice,
  SoftBoundsDevice |-> R_SoftBoundsDevice,
  SoftBoundsReferenceDevice |-> R_SoftBoundsReferenceDevice,
  ExpStepDevice |-> R_ExpStepDevice,
  PowStepDevice |-> R_PowStepDevice,
  PowStepReferenceDevice |-> R_PowStepReferenceDevice,
  PiecewiseStepDevice |-> R_PiecewiseStepDevice,
  UnitCell |-> R_UnitCell,
  VectorUnitCell |-> R_VectorUnitCell,
  DigitalRankUpdateCell |-> R_DigitalRankUpdateCell,
  ReferenceUnitCell |-> R_ReferenceUnitCell,
  OneSidedUnitCell |-> R_OneSidedUnitCell,
  TransferCompound |-> R_TransferCompound,
  BufferedTransferCompound |-> R_BufferedTransferCompound,
  ChoppedTransferCompound |-> R_ChoppedTransferCompound,
  DynamicTransferCompound |-> R_DynamicTransferCompound,
  MixedPrecisionCompound |-> R_MixedPrecisionCompound,
  FloatingPointRPUConfig |-> R_FloatingPointRPUConfig,
  InferenceRPUConfig |-> R_InferenceRPUConfig,
  SingleRPUConfig |-> R_SingleRPUConfig,
  UnitCellRPUConfig |-> R_UnitCellRPUConfig,
  DigitalRankUpdateRPUConfig |-> R_DigitalRankUpdateRPUConfig,
  TorchInferenceRPUConfig |-> R_TorchInferenceRPUConfig,
  PresetIOParameters |-> R_PresetIOParameters,
  PresetUpdateParameters |-> R_PresetUpdateParameters,
  StandardIOParameters |-> R_StandardIOParameters,
  ReRamESPresetDevice |-> R_ReRamESPresetDevice,
  ReRamSBPresetDevice |-> R_ReRamSBPresetDevice,
  CapacitorPresetDevice |-> R_CapacitorPresetDevice,
  EcRamPresetDevice |-> R_EcRamPresetDevice,
  EcRamMOPresetDevice |-> R_EcRamMOPresetDevice,
  IdealizedPresetDevice |-> R_IdealizedPresetDevice,
  GokmenVlasovPresetDevice |-> R_GokmenVlasovPresetDevice,
  PCMPresetDevice |-> R_PCMPresetDevice,
  ReRamArrayOMPresetDevice |-> R_ReRamArrayOMPresetDevice,
  ReRamArrayHfO2PresetDevice |-> R_ReRamArrayHfO2PresetDevice,
  PCMPresetUnitCell |-> R_PCMPresetUnitCell,
  FloatingPointPreset |-> R_FloatingPointPreset,
  StandardHWATrainingPreset |-> R_StandardHWATrainingPreset,
  ReRamESPreset |-> R_ReRamESPreset,
  ReRamSBPreset |-> R_ReRamSBPreset,
  CapacitorPreset |-> R_CapacitorPreset,
  EcRamPreset |-> R_EcRamPreset,
  EcRamMOPreset |-> R_EcRamMOPreset,
  IdealizedPreset |-> R_IdealizedPreset,
  GokmenVlasovPreset |-> R_GokmenVlasovPreset,
  PCMPreset |-> R_PCMPreset,
  ReRamES2Preset |-> R_ReRamES2Preset,
  ReRamSB2Preset |-> R_ReRamSB2Preset,
  Capacitor2Preset |-> R_Capacitor2Preset,
  EcRam2Preset |-> R_EcRam2Preset,
  EcRamMO2Preset |-> R_EcRamMO2Preset,
  Idealized2Preset |-> R_Idealized2Preset,
  ReRamES4Preset |-> R_ReRamES4Preset,
  ReRamSB4Preset |-> R_ReRamSB4Preset,
  Capacitor4Preset |-> R_Capacitor4Preset,
  EcRam4Preset |-> R_EcRam4Preset,
  EcRamMO4Preset |-> R_EcRamMO4Preset,
  Idealized4Preset |-> R_Idealized4Preset,
  TikiTakaReRamESPreset |-> R_TikiTakaReRamESPreset,
  TikiTakaReRamSBPreset |-> R_TikiTakaReRamSBPreset,
  TikiTakaCapacitorPreset |-> R_TikiTakaCapacitorPreset,
  TikiTakaEcRamPreset |-> R_TikiTakaEcRamPreset,
  TikiTakaEcRamMOPreset |-> R_TikiTakaEcRamMOPreset,
  TikiTakaIdealizedPreset |-> R_TikiTakaIdealizedPreset,
  TTv2ReRamESPreset |-> R_TTv2ReRamESPreset,
  TTv2ReRamSBPreset |-> R_TTv2ReRamSBPreset,
  TTv2CapacitorPreset |-> R_TTv2CapacitorPreset,
  TTv2EcRamPreset |-> R_TTv2EcRamPreset,
  TTv2EcRamMOPreset |-> R_TTv2EcRamMOPreset,
  TTv2IdealizedPreset |-> R_TTv2IdealizedPreset,
  ChoppedTTv2ReRamESPreset |-> R_ChoppedTTv2ReRamESPreset,
  ChoppedTTv2ReRamSBPreset |-> R_ChoppedTTv2ReRamSBPreset,
  ChoppedTTv2CapacitorPreset |-> R_ChoppedTTv2CapacitorPreset,
  ChoppedTTv2EcRamPreset |-> R_ChoppedTTv2EcRamPreset,
  ChoppedTTv2EcRamMOPreset |-> R_ChoppedTTv2EcRamMOPreset,
  ChoppedTTv2IdealizedPreset |-> R_ChoppedTTv2IdealizedPreset,
  AGADReRamESPreset |-> R_AGADReRamESPreset,
  AGADReRamSBPreset |-> R_AGADReRamSBPreset,
  AGADCapacitorPreset |-> R_AGADCapacitorPreset,
  AGADEcRamPreset |-> R_AGADEcRamPreset,
  AGADEcRamMOPreset |-> R_AGADEcRamMOPreset,
  AGADIdealizedPreset |-> R_AGADIdealizedPreset,
  MixedPrecisionReRamESPreset |-> R_MixedPrecisionReRamESPreset,
  MixedPrecisionReRamSBPreset |-> R_MixedPrecisionReRamSBPreset,
  MixedPrecisionCapacitorPreset |-> R_MixedPrecisionCapacitorPreset,
  MixedPrecisionEcRamPreset |-> R_MixedPrecisionEcRamPreset,
  MixedPrecisionEcRamMOPreset |-> R_MixedPrecisionEcRamMOPreset,
  MixedPrecisionIdealizedPreset |-> R_MixedPrecisionIdealizedPreset,
  MixedPrecisionGokmenVlasovPreset |-> R_MixedPrecisionGokmenVlasovPreset,
  MixedPrecisionPCMPreset |-> R_MixedPrecisionPCMPreset]
\* the class a preset specializes
BaseOf == [
  IOParameters |-> "IOParameters",
  IOParametersIRDropT |-> "IOParametersIRDropT",
  UpdateParameters |-> "UpdateParameters",
  WeightModifierParameter |-> "WeightModifierParameter",
  WeightClipParameter |-> "WeightClipParameter",
  WeightRemapParameter |-> "WeightRemapParameter",
  SimpleDriftParameter |-> "SimpleDriftParameter",
  DriftParameter |-> "DriftParameter",
  MappingParameter |-> "MappingParameter",
  InputRangeParameter |-> "InputRangeParameter",
  PrePostProcessingParameter |-> "PrePostProcessingParameter",
  RuntimeParameter |-> "RuntimeParameter",
  FloatingPointDevice |-> "FloatingPointDevice",
  IdealDevice |-> "IdealDevice",
  ConstantStepDevice |-> "ConstantStepDevice",
  LinearStepDevice |-> "LinearStepDevice",
  SoftBoundsDevice |-> "SoftBoundsDevice",
  SoftBoundsReferenceDevice |-> "SoftBoundsReferenceDevice",
  ExpStepDevice |-> "ExpStepDevice",
  PowStepDevice |-> "PowStepDevice",
  PowStepReferenceDevice |-> "PowStepReferenceDevice",
  PiecewiseStepDevice |-> "PiecewiseStepDevice",
  UnitCell |-> "UnitCell",
  VectorUnitCell |-> "VectorUnitCell",
  DigitalRankUpdateCell |-> "DigitalRankUpdateCell",
  ReferenceUnitCell |-> "ReferenceUnitCell",
  OneSidedUnitCell |-> "OneSidedUnitCell",
  TransferCompound |-> "TransferCompound",
  BufferedTransferCompound |-> "BufferedTransferCompound",
  ChoppedTransferCompound |-> "ChoppedTransferCompound",
  DynamicTransferCompound |-> "DynamicTransferCompound",
  MixedPrecisionCompound |-> "MixedPrecisionCompound",
  FloatingPointRPUConfig |-> "FloatingPointRPUConfig",
  InferenceRPUConfig |-> "InferenceRPUConfig",
  SingleRPUConfig |-> "SingleRPUConfig",
  UnitCellRPUConfig |-> "UnitCellRPUConfig",
  DigitalRankUpdateRPUConfig |-> "DigitalRankUpdateRPUConfig",
  TorchInferenceRPUConfig |-> "TorchInferenceRPUConfig",
  PresetIOParameters |-> "IOParameters",
  PresetUpdateParameters |-> "UpdateParameters",
  StandardIOParameters |-> "IOParameters",
  ReRamESPresetDevice |-> "ExpStepDevice",
  ReRamSBPresetDevice |-> "SoftBoundsReferenceDevice",
  CapacitorPresetDevice |-> "LinearStepDevice",
  EcRamPresetDevice |-> "LinearStepDevice",
  EcRamMOPresetDevice |-> "LinearStepDevice",
  IdealizedPresetDevice |-> "ConstantStepDevice",
  GokmenVlasovPresetDevice |-> "ConstantStepDevice",
  PCMPresetDevice |-> "ExpStepDevice",
  ReRamArrayOMPresetDevice |-> "SoftBoundsReferenceDevice",
  ReRamArrayHfO2PresetDevice |-> "SoftBoundsReferenceDevice",
  PCMPresetUnitCell |-> "OneSidedUnitCell",
  FloatingPointPreset |-> "TorchInferenceRPUConfig",
  StandardHWATrainingPreset |-> "InferenceRPUConfig",
  ReRamESPreset |-> "SingleRPUConfig",
  ReRamSBPreset |-> "SingleRPUConfig",
  CapacitorPreset |-> "SingleRPUConfig",
  EcRamPreset |-> "SingleRPUConfig",
  EcRamMOPreset |-> "SingleRPUConfig",
  IdealizedPreset |-> "SingleRPUConfig",
  GokmenVlasovPreset |-> "SingleRPUConfig",
  PCMPreset |-> "UnitCellRPUConfig",
  ReRamES2Preset |-> "UnitCellRPUConfig",
  ReRamSB2Preset |-> "UnitCellRPUConfig",
  Capacitor2Preset |-> "UnitCellRPUConfig",
  EcRam2Preset |-> "UnitCellRPUConfig",
  EcRamMO2Preset |-> "UnitCellRPUConfig",
  Idealized2Preset |-> "UnitCellRPUConfig",
  ReRamES4Preset |-> "UnitCellRPUConfig",
  ReRamSB4Preset |-> "UnitCellRPUConfig",
  Capacitor4Preset |-> "UnitCellRPUConfig",
  EcRam4Preset |-> "UnitCellRPUConfig",
  EcRamMO4Preset |-> "UnitCellRPUConfig",
  Idealized4Preset |-> "UnitCellRPUConfig",
  TikiTakaReRamESPreset |-> "UnitCellRPUConfig",
  TikiTakaReRamSBPreset |-> "UnitCellRPUConfig",
  TikiTakaCapacitorPreset |-> "UnitCellRPUConfig",
  TikiTakaEcRamPreset |-> "UnitCellRPUConfig",
  TikiTakaEcRamMOPreset |-> "UnitCellRPUConfig",
  TikiTakaIdealizedPreset |-> "UnitCellRPUConfig",
  TTv2ReRamESPreset |-> "UnitCellRPUConfig",
  TTv2ReRamSBPreset |-> "UnitCellRPUConfig",
  TTv2CapacitorPreset |-> "UnitCellRPUConfig",
  TTv2EcRamPreset |-> "UnitCellRPUConfig",
  TTv2EcRamMOPreset |-> "UnitCellRPUConfig",
  TTv2IdealizedPreset |-> "UnitCellRPUConfig",
  ChoppedTTv2ReRamESPreset |-> "UnitCellRPUConfig",
  ChoppedTTv2ReRamSBPreset |-> "UnitCellRPUConfig",
  ChoppedTTv2CapacitorPreset |-> "UnitCellRPUConfig",
  ChoppedTTv2EcRamPreset |-> "UnitCellRPUConfig",
  ChoppedTTv2EcRamMOPreset |-> "UnitCellRPUConfig",
  ChoppedTTv2IdealizedPreset |-> "UnitCellRPUConfig",
  AGADReRamESPreset |-> "UnitCellRPUConfig",
  AGADReRamSBPreset |-> "UnitCellRPUConfig",
  AGADCapacitorPreset |-> "UnitCellRPUConfig",
  AGADEcRamPreset |-> "UnitCellRPUConfig",
  AGADEcRamMOPreset |-> "UnitCellRPUConfig",
  AGADIdealizedPreset |-> "UnitCellRPUConfig",
  MixedPrecisionReRamESPreset |-> "DigitalRankUpdateRPUConfig",
  MixedPrecisionReRamSBPreset |-> "DigitalRankUpdateRPUConfig",
  MixedPrecisionCapacitorPreset |-> "DigitalRankUpdateRPUConfig",
  MixedPrecisionEcRamPreset |-> "DigitalRankUpdateRPUConfig",
  MixedPrecisionEcRamMOPreset |-> "DigitalRankUpdateRPUConfig",
  MixedPrecisionIdealizedPreset |-> "DigitalRankUpdateRPUConfig",
  MixedPrecisionGokmenVlasovPreset |-> "DigitalRankUpdateRPUConfig",
  MixedPrecisionPCMPreset |-> "DigitalRankUpdateRPUConfig"]

FIdx(cls, n) == CHOOSE i \in 1..Len(FieldsOf[cls]) : FieldsOf[cls][i][1] = n
RIdx(cls, n) == CHOOSE i \in 1..Len(RefsOf[cls]) : RefsOf[cls][i][1] = n
SetF(t, n, v) == [t EXCEPT !.f[FIdx(t.cls, n)] = v]
SetR(t, n, u) == [t EXCEPT !.r[RIdx(t.cls, n)] = u]
SetD(t, us) == [t EXCEPT !.d = us]
Rename(t, n) == [t EXCEPT !.cls = n]

D_IOParameters ==
    [cls |-> "IOParameters", f |-> <<"False", "OnePass", "1", "0", "0.0079365", "False", "0", "12", "0.06", "0", 
    "0.0019608", "False", "1", "0", "Iterative", "AbsMax", "0", "None", "0", "5.7143e+05", "0", "0", "0", "0", 
    "-1", "0", "0", "1000", "0.25", "True", "0">>, r |-> <<>>, d |-> <<>>]
D_IOParametersIRDropT ==
    [cls |-> "IOParametersIRDropT", f |-> <<"False", "OnePass", "1", "0", "0.0079365", "False", "0", "12", "0.06", 
    "0", "0.0019608", "False", "1", "0", "Iterative", "AbsMax", "0", "None", "1", "5.7143e+05", "0", "0", "0", 
    "0", "-1", "0", "0", "1000", "0.25", "True", "0", "0.15", "8", "1", "0.4005", "False", "1", "True", 
    "6.24", "False">>, r |-> <<>>, d |-> <<>>]
D_UpdateParameters ==
    [cls |-> "UpdateParameters", f |-> <<"31", "True", "StochasticCompressed", "0", "0", "0", "False", "False", 
    "True", "True", "1">>, r |-> <<>>, d |-> <<>>]
D_WeightModifierParameter ==
    [cls |-> "WeightModifierParameter", f |-> <<"0", "False", "0", "False", "0.6", "0", "False", "True", "1", 
    "False", "0.010539,0.0768,-0.046925", "None", "25", "0", "0", "0", "0", "0", "20">>, r |-> <<>>, d |-> 
    <<>>]
D_WeightClipParameter ==
    [cls |-> "WeightClipParameter", f |-> <<"-1", "2.5", "None">>, r |-> <<>>, d |-> <<>>]
D_WeightRemapParameter ==
    [cls |-> "WeightRemapParameter", f |-> <<"1", "0", "0", "None">>, r |-> <<>>, d |-> <<>>]
D_SimpleDriftParameter ==
    [cls |-> "SimpleDriftParameter", f |-> <<"0", "1", "1e-07">>, r |-> <<>>, d |-> <<>>]
D_DriftParameter ==
    [cls |-> "DriftParameter", f |-> <<"0", "1", "1e-07", "0", "0", "1", "0", "0", "0", "0", "0">>, r |-> <<>>, d 
    |-> <<>>]
D_MappingParameter ==
    [cls |-> "MappingParameter", f |-> <<"True", "0", "False", "False", "False", "False", "512", "512">>, r |-> 
    <<>>, d |-> <<>>]
D_InputRangeParameter ==
    [cls |-> "InputRangeParameter", f |-> <<"False", "True", "3", "100", "3", "0.001", "0.95", "False", "0.95", 
    "1", "True">>, r |-> <<>>, d |-> <<>>]
D_PrePostProcessingParameter ==
    [cls |-> "PrePostProcessingParameter", f |-> <<>>, r |-> <<D_InputRangeParameter>>, d |-> <<>>]
D_RuntimeParameter ==
    [cls |-> "RuntimeParameter", f |-> <<"float", "False", "False", "False">>, r |-> <<>>, d |-> <<>>]
D_FloatingPointDevice ==
    [cls |-> "FloatingPointDevice", f |-> <<"0", "0">>, r |-> <<D_SimpleDriftParameter>>, d |-> <<>>]
D_IdealDevice ==
    [cls |-> "IdealDevice", f |-> <<"0", "0", "0", "0.01">>, r |-> <<>>, d |-> <<>>]
D_ConstantStepDevice ==
    [cls |-> "ConstantStepDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", "True", "0", 
    "0", "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False">>, r |-> 
    <<D_DriftParameter>>, d |-> <<>>]
D_LinearStepDevice ==
    [cls |-> "LinearStepDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", "True", "0", 
    "0", "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False", "0", "0", "0.05", 
    "0.05", "False", "True", "True", "0", "True", "False", "False", "0.01">>, r |-> <<D_DriftParameter>>, d 
    |-> <<>>]
D_SoftBoundsDevice ==
    [cls |-> "SoftBoundsDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", "True", "0", 
    "0", "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False", "True", "0", "True", 
    "False", "False", "0.01">>, r |-> <<D_DriftParameter>>, d |-> <<>>]
D_SoftBoundsReferenceDevice ==
    [cls |-> "SoftBoundsReferenceDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", 
    "True", "0", "0", "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False", "False", 
    "0", "True", "0", "0", "0", "0", "False">>, r |-> <<D_DriftParameter>>, d |-> <<>>]
D_ExpStepDevice ==
    [cls |-> "ExpStepDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", "True", "0", "0", 
    "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False", "0.00081", "0.36833", 
    "12.446", "12.788", "0.244", "0.2425", "0", "0", "0", "True">>, r |-> <<D_DriftParameter>>, d |-> <<>>]
D_PowStepDevice ==
    [cls |-> "PowStepDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", "True", "0", "0", 
    "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False", "1", "0.1", "0", "0", "0", 
    "True">>, r |-> <<D_DriftParameter>>, d |-> <<>>]
D_PowStepReferenceDevice ==
    [cls |-> "PowStepReferenceDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", "True", 
    "0", "0", "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False", "1", "0.1", "0", 
    "0", "False", "-1", "0", "0">>, r |-> <<D_DriftParameter>>, d |-> <<>>]
D_PiecewiseStepDevice ==
    [cls |-> "PiecewiseStepDevice", f |-> <<"0", "0", "0.1", "0", "0", "0.001", "0.3", "False", "0.3", "True", 
    "0", "0", "False", "0", "0", "0.01", "0", "0.01", "0.6", "0.3", "-0.6", "0.3", "False", "1", "1", "0", 
    "True">>, r |-> <<D_DriftParameter>>, d |-> <<>>]
D_UnitCell ==
    [cls |-> "UnitCell", f |-> <<"0">>, r |-> <<>>, d |-> <<>>]
D_VectorUnitCell ==
    [cls |-> "VectorUnitCell", f |-> <<"0", "All", "0", "">>, r |-> <<>>, d |-> <<>>]
D_DigitalRankUpdateCell ==
    [cls |-> "DigitalRankUpdateCell", f |-> <<"0">>, r |-> <<D_VectorUnitCell>>, d |-> <<>>]
D_ReferenceUnitCell ==
    [cls |-> "ReferenceUnitCell", f |-> <<"0", "SingleFixed", "0", "1,-1">>, r |-> <<>>, d |-> <<>>]
D_OneSidedUnitCell ==
    [cls |-> "OneSidedUnitCell", f |-> <<"0", "0", "True", "0.75", "0.25", "False">>, r |-> <<D_IOParameters, 
    D_UpdateParameters>>, d |-> <<>>]
D_TransferCompound ==
    [cls |-> "TransferCompound", f |-> <<"0", "0", "", "1", "True", "", "True", "1", "True", "0", "False", "1", 
    "1", "", "True", "True">>, r |-> <<D_IOParameters, D_UpdateParameters>>, d |-> <<>>]
D_BufferedTransferCompound ==
    [cls |-> "BufferedTransferCompound", f |-> <<"0", "0", "", "1", "True", "", "True", "1", "True", "0", "False", 
    "1", "1", "", "True", "True", "1", "1", "0.1", "True">>, r |-> <<D_IOParameters, 
    SetF(SetF(SetF(D_UpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")>>, d |-> <<>>]
D_ChoppedTransferCompound ==
    [cls |-> "ChoppedTransferCompound", f |-> <<"0", "0", "", "1", "True", "", "False", "1", "True", "0", "False", 
    "1", "1", "", "True", "False", "0.1", "True", "0", "1", "0", "1", "0", "True", "False", "False", "0.99", 
    "False">>, r |-> <<D_IOParameters, SetF(SetF(SetF(D_UpdateParameters, "desired_bl", "1"), 
    "update_bl_management", "False"), "update_management", "False")>>, d |-> <<>>]
D_DynamicTransferCompound ==
    [cls |-> "DynamicTransferCompound", f |-> <<"0", "0", "", "1", "True", "", "False", "1", "True", "0", "False", 
    "1", "1", "", "True", "False", "0.1", "False", "0", "1", "0", "1", "0", "True", "False", "False", "0.99", 
    "False", "False", "0", "5">>, r |-> <<D_IOParameters, SetF(SetF(SetF(D_UpdateParameters, "desired_bl", 
    "1"), "update_bl_management", "False"), "update_management", "False")>>, d |-> <<>>]
D_MixedPrecisionCompound ==
    [cls |-> "MixedPrecisionCompound", f |-> <<"0", "1", "-1", "False", "0", "1", "0", "0", "True", "True">>, r 
    |-> <<D_VectorUnitCell>>, d |-> <<>>]
D_FloatingPointRPUConfig ==
    [cls |-> "FloatingPointRPUConfig", f |-> <<>>, r |-> <<D_RuntimeParameter, D_PrePostProcessingParameter, 
    D_MappingParameter, D_FloatingPointDevice>>, d |-> <<>>]
D_InferenceRPUConfig ==
    [cls |-> "InferenceRPUConfig", f |-> <<>>, r |-> <<D_RuntimeParameter, D_PrePostProcessingParameter, 
    D_MappingParameter, D_IOParameters, SetF(D_IOParameters, "is_perfect", "True"), SetF(D_UpdateParameters, 
    "pulse_type", "None"), D_WeightClipParameter, D_WeightRemapParameter, D_WeightModifierParameter, 
    D_IdealDevice>>, d |-> <<>>]
D_SingleRPUConfig ==
    [cls |-> "SingleRPUConfig", f |-> <<>>, r |-> <<D_RuntimeParameter, D_PrePostProcessingParameter, 
    D_MappingParameter, D_IOParameters, D_IOParameters, D_UpdateParameters, D_ConstantStepDevice>>, d |-> 
    <<>>]
D_UnitCellRPUConfig ==
    [cls |-> "UnitCellRPUConfig", f |-> <<>>, r |-> <<D_RuntimeParameter, D_PrePostProcessingParameter, 
    D_MappingParameter, D_IOParameters, D_IOParameters, D_UpdateParameters, D_UnitCell>>, d |-> <<>>]
D_DigitalRankUpdateRPUConfig ==
    [cls |-> "DigitalRankUpdateRPUConfig", f |-> <<>>, r |-> <<D_RuntimeParameter, D_PrePostProcessingParameter, 
    D_MappingParameter, D_IOParameters, D_IOParameters, D_UpdateParameters, D_DigitalRankUpdateCell>>, d |-> 
    <<>>]
D_TorchInferenceRPUConfig ==
    Rename(D_InferenceRPUConfig, "TorchInferenceRPUConfig")
D_PresetIOParameters ==
    SetF(SetF(Rename(D_IOParameters, "PresetIOParameters"), "out_bound", "20"), "out_noise", "0.1")
D_PresetUpdateParameters ==
    Rename(D_UpdateParameters, "PresetUpdateParameters")
D_StandardIOParameters ==
    SetF(SetF(SetF(SetF(Rename(D_IOParameters, "StandardIOParameters"), "inp_res", "0.003937"), "out_bound", 
    "10"), "out_noise", "0.04"), "out_res", "0.003937")
D_ReRamESPresetDevice ==
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_ExpStepDevice, 
    "ReRamESPresetDevice"), "dw_min", "0.00135"), "dw_min_dtod", "0.2"), "dw_min_std", "5"), "up_down", 
    "0.25936"), "up_down_dtod", "0.05"), "w_max", "1"), "w_min", "-1"), "A_up", "-1.1845"), "A_down", 
    "-0.081404"), "gamma_up", "5"), "gamma_down", "5"), "a", "-0.5"), "b", "-0.5"), "write_noise_std", "75")
D_ReRamSBPresetDevice ==
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_SoftBoundsReferenceDevice, "ReRamSBPresetDevice"), "dw_min", 
    "0.002"), "dw_min_std", "3.75"), "w_max", "1.25"), "w_max_dtod", "0.24"), "w_min", "-0.75"), "w_min_dtod", 
    "0.4"), "write_noise_std", "56")
D_CapacitorPresetDevice ==
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_LinearStepDevice, 
    "CapacitorPresetDevice"), "dw_min", "0.005"), "dw_min_dtod", "0.1"), "lifetime", "1e+06"), 
    "lifetime_dtod", "0.3"), "up_down_dtod", "0.06"), "w_max", "1"), "w_max_dtod", "0.07"), "w_min", "-1"), 
    "w_min_dtod", "0.07"), "gamma_up", "0.05"), "gamma_down", "0.05"), "gamma_up_dtod", "0.01"), 
    "gamma_down_dtod", "0.01"), "mult_noise", "False")
D_EcRamPresetDevice ==
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_LinearStepDevice, "EcRamPresetDevice"), "dw_min", "0.002"), 
    "dw_min_dtod", "0.1"), "w_max", "1.1724"), "w_max_dtod", "0.05"), "w_min", "-0.8276"), "w_min_dtod", 
    "0.05"), "gamma_up", "0.1153"), "gamma_down", "0.5085")
D_EcRamMOPresetDevice ==
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_LinearStepDevice, "EcRamMOPresetDevice"), "dw_min", 
    "0.00028214"), "dw_min_dtod", "0.1"), "dw_min_std", "2"), "w_max", "1.1714"), "w_max_dtod", "0.05"), 
    "w_min", "-0.8286"), "w_min_dtod", "0.05"), "gamma_up", "0.4152"), "gamma_down", "0.7342")
D_IdealizedPresetDevice ==
    SetF(SetF(SetF(SetF(Rename(D_ConstantStepDevice, "IdealizedPresetDevice"), "dw_min", "0.0002"), 
    "up_down_dtod", "0"), "w_max", "1"), "w_min", "-1")
D_GokmenVlasovPresetDevice ==
    SetF(SetF(SetF(Rename(D_ConstantStepDevice, "GokmenVlasovPresetDevice"), "dw_min", "0.0016"), "w_max", "1"), 
    "w_min", "-1")
D_PCMPresetDevice ==
    
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_ExpStepDevice, 
    "PCMPresetDevice"), "dw_min", "0.01"), "dw_min_dtod", "0.2"), "dw_min_std", "0.6"), "reset", "0.01"), 
    "reset_dtod", "0.02"), "up_down_dtod", "0.05"), "w_max", "2"), "w_max_dtod", "0.1"), "w_min", "0"), 
    "w_min_dtod", "0"), "A_up", "-27.235"), "A_down", "-2.235"), "gamma_up", "2.5"), "gamma_down", "2.5"), 
    "a", "-1"), "b", "0"), "dw_min_std_add", "0.042"), "dw_min_std_slope", "0.108")
D_ReRamArrayOMPresetDevice ==
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_SoftBoundsReferenceDevice, 
    "ReRamArrayOMPresetDevice"), "corrupt_devices_range", "0.01"), "dw_min", "0.0949"), "dw_min_dtod", 
    "0.7829"), "dw_min_dtod_log_normal", "True"), "dw_min_std", "0.4158"), "w_max", "1"), "w_max_dtod", 
    "0.3499"), "w_min", "-1"), "w_min_dtod", "0.5695"), "write_noise_std", "1.4113"), "reference_std", 
    "0.05"), "subtract_symmetry_point", "True")
D_ReRamArrayHfO2PresetDevice ==
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(Rename(D_SoftBoundsReferenceDevice, 
    "ReRamArrayHfO2PresetDevice"), "corrupt_devices_range", "0.01"), "dw_min", "0.4622"), "dw_min_dtod", 
    "0.7125"), "dw_min_dtod_log_normal", "True"), "dw_min_std", "0.2174"), "w_max", "1"), "w_max_dtod", 
    "0.4295"), "w_min", "-1"), "w_min_dtod", "0.599"), "write_noise_std", "0.5841"), "reference_std", "0.05"), 
    "subtract_symmetry_point", "True")
D_PCMPresetUnitCell ==
    SetD(SetR(SetR(SetF(Rename(D_OneSidedUnitCell, "PCMPresetUnitCell"), "refresh_every", "1"), "refresh_forward", 
    D_PresetIOParameters), "refresh_update", D_PresetUpdateParameters), <<D_PCMPresetDevice, 
    D_PCMPresetDevice>>)
D_FloatingPointPreset ==
    SetR(SetR(Rename(D_TorchInferenceRPUConfig, "FloatingPointPreset"), "mapping", SetF(SetF(D_MappingParameter, 
    "max_input_size", "0"), "max_output_size", "0")), "forward", SetF(D_IOParameters, "is_perfect", "True"))
D_StandardHWATrainingPreset ==
    SetR(SetR(SetR(SetR(SetR(Rename(D_InferenceRPUConfig, "StandardHWATrainingPreset"), "pre_post", 
    SetR(D_PrePostProcessingParameter, "input_range", SetF(D_InputRangeParameter, "enable", "True"))), 
    "mapping", SetF(SetF(SetF(SetF(SetF(D_MappingParameter, "weight_scaling_omega", "1"), 
    "weight_scaling_columnwise", "True"), "learn_out_scaling", "True"), "out_scaling_columnwise", "True"), 
    "max_output_size", "0")), "forward", 
    SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(SetF(D_PresetIOParameters, "inp_res", "254"), "out_bound", 
    "10"), "out_noise", "0.04"), "out_res", "254"), "bound_management", "None"), "noise_management", 
    "Constant"), "w_noise", "0.0175"), "w_noise_type", "PCMRead"), "ir_drop", "1"), "nm_thres", "1")), "clip", 
    SetF(SetF(D_WeightClipParameter, "fixed_value", "1"), "type", "FixedValue")), "remap", 
    SetF(D_WeightRemapParameter, "type", "ChannelwiseSymmetric"))
D_ReRamESPreset ==
    SetR(SetR(SetR(SetR(Rename(D_SingleRPUConfig, "ReRamESPreset"), "forward", D_PresetIOParameters), "backward", 
    D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", D_ReRamESPresetDevice)
D_ReRamSBPreset ==
    SetR(SetR(SetR(SetR(Rename(D_SingleRPUConfig, "ReRamSBPreset"), "forward", D_PresetIOParameters), "backward", 
    D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", D_ReRamSBPresetDevice)
D_CapacitorPreset ==
    SetR(SetR(SetR(SetR(Rename(D_SingleRPUConfig, "CapacitorPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", D_CapacitorPresetDevice)
D_EcRamPreset ==
    SetR(SetR(SetR(SetR(Rename(D_SingleRPUConfig, "EcRamPreset"), "forward", D_PresetIOParameters), "backward", 
    D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", D_EcRamPresetDevice)
D_EcRamMOPreset ==
    SetR(SetR(SetR(SetR(Rename(D_SingleRPUConfig, "EcRamMOPreset"), "forward", D_PresetIOParameters), "backward", 
    D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", D_EcRamMOPresetDevice)
D_IdealizedPreset ==
    SetR(SetR(SetR(SetR(Rename(D_SingleRPUConfig, "IdealizedPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", D_IdealizedPresetDevice)
D_GokmenVlasovPreset ==
    SetR(SetR(SetR(SetR(Rename(D_SingleRPUConfig, "GokmenVlasovPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    D_GokmenVlasovPresetDevice)
D_PCMPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "PCMPreset"), "forward", D_PresetIOParameters), "backward", 
    D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", D_PCMPresetUnitCell)
D_ReRamES2Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ReRamES2Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_ReRamESPresetDevice, 
    D_ReRamESPresetDevice>>))
D_ReRamSB2Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ReRamSB2Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_ReRamSBPresetDevice, 
    D_ReRamSBPresetDevice>>))
D_Capacitor2Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "Capacitor2Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_CapacitorPresetDevice, 
    D_CapacitorPresetDevice>>))
D_EcRam2Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "EcRam2Preset"), "forward", D_PresetIOParameters), "backward", 
    D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", SetD(SetF(D_VectorUnitCell, 
    "update_policy", "SingleRandom"), <<D_EcRamPresetDevice, D_EcRamPresetDevice>>))
D_EcRamMO2Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "EcRamMO2Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_EcRamMOPresetDevice, 
    D_EcRamMOPresetDevice>>))
D_Idealized2Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "Idealized2Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_IdealizedPresetDevice, 
    D_IdealizedPresetDevice>>))
D_ReRamES4Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ReRamES4Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_ReRamESPresetDevice, 
    D_ReRamESPresetDevice, D_ReRamESPresetDevice, D_ReRamESPresetDevice>>))
D_ReRamSB4Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ReRamSB4Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_ReRamSBPresetDevice, 
    D_ReRamSBPresetDevice, D_ReRamSBPresetDevice, D_ReRamSBPresetDevice>>))
D_Capacitor4Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "Capacitor4Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_CapacitorPresetDevice, 
    D_CapacitorPresetDevice, D_CapacitorPresetDevice, D_CapacitorPresetDevice>>))
D_EcRam4Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "EcRam4Preset"), "forward", D_PresetIOParameters), "backward", 
    D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", SetD(SetF(D_VectorUnitCell, 
    "update_policy", "SingleRandom"), <<D_EcRamPresetDevice, D_EcRamPresetDevice, D_EcRamPresetDevice, 
    D_EcRamPresetDevice>>))
D_EcRamMO4Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "EcRamMO4Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_EcRamMOPresetDevice, 
    D_EcRamMOPresetDevice, D_EcRamMOPresetDevice, D_EcRamMOPresetDevice>>))
D_Idealized4Preset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "Idealized4Preset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetF(D_VectorUnitCell, "update_policy", "SingleRandom"), <<D_IdealizedPresetDevice, 
    D_IdealizedPresetDevice, D_IdealizedPresetDevice, D_IdealizedPresetDevice>>))
D_TikiTakaReRamESPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TikiTakaReRamESPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(D_TransferCompound, "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", 
    "None"), "noise_management", "None")), "transfer_update", D_PresetUpdateParameters), 
    <<D_ReRamESPresetDevice, D_ReRamESPresetDevice>>))
D_TikiTakaReRamSBPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TikiTakaReRamSBPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(D_TransferCompound, "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", 
    "None"), "noise_management", "None")), "transfer_update", D_PresetUpdateParameters), 
    <<SetF(D_ReRamSBPresetDevice, "subtract_symmetry_point", "True"), SetF(D_ReRamSBPresetDevice, 
    "subtract_symmetry_point", "True")>>))
D_TikiTakaCapacitorPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TikiTakaCapacitorPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(D_TransferCompound, "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", 
    "None"), "noise_management", "None")), "transfer_update", D_PresetUpdateParameters), 
    <<D_CapacitorPresetDevice, D_CapacitorPresetDevice>>))
D_TikiTakaEcRamPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TikiTakaEcRamPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(D_TransferCompound, "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", 
    "None"), "noise_management", "None")), "transfer_update", D_PresetUpdateParameters), 
    <<D_EcRamPresetDevice, D_EcRamPresetDevice>>))
D_TikiTakaEcRamMOPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TikiTakaEcRamMOPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(D_TransferCompound, "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", 
    "None"), "noise_management", "None")), "transfer_update", D_PresetUpdateParameters), 
    <<D_EcRamMOPresetDevice, D_EcRamMOPresetDevice>>))
D_TikiTakaIdealizedPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TikiTakaIdealizedPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(D_TransferCompound, "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", 
    "None"), "noise_management", "None")), "transfer_update", D_PresetUpdateParameters), 
    <<D_IdealizedPresetDevice, D_IdealizedPresetDevice>>))
D_TTv2ReRamESPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TTv2ReRamESPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.5"), "in_chop_prob", "0"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<D_ReRamESPresetDevice, D_ReRamESPresetDevice>>))
D_TTv2ReRamSBPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TTv2ReRamSBPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.5"), "in_chop_prob", "0"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<SetF(D_ReRamSBPresetDevice, "subtract_symmetry_point", "True"), 
    SetF(D_ReRamSBPresetDevice, "subtract_symmetry_point", "True")>>))
D_TTv2CapacitorPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TTv2CapacitorPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.1"), "in_chop_prob", "0"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<D_CapacitorPresetDevice, D_CapacitorPresetDevice>>))
D_TTv2EcRamPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TTv2EcRamPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, "desired_bl", "100")), 
    "device", SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.1"), "in_chop_prob", 
    "0"), "auto_granularity", "500"), "auto_scale", "True"), "transfer_forward", 
    SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", "None")), 
    "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", 
    "False"), "update_management", "False")), <<D_EcRamPresetDevice, D_EcRamPresetDevice>>))
D_TTv2EcRamMOPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TTv2EcRamMOPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, "desired_bl", "100")), 
    "device", SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.1"), "in_chop_prob", 
    "0"), "auto_granularity", "500"), "auto_scale", "True"), "transfer_forward", 
    SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", "None")), 
    "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", 
    "False"), "update_management", "False")), <<D_EcRamMOPresetDevice, D_EcRamMOPresetDevice>>))
D_TTv2IdealizedPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "TTv2IdealizedPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, "desired_bl", "100")), 
    "device", SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.1"), "in_chop_prob", 
    "0"), "auto_granularity", "500"), "auto_scale", "True"), "transfer_forward", 
    SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", "None")), 
    "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", 
    "False"), "update_management", "False")), <<D_IdealizedPresetDevice, D_IdealizedPresetDevice>>))
D_ChoppedTTv2ReRamESPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ChoppedTTv2ReRamESPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.5"), "in_chop_prob", "0.01"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<D_ReRamESPresetDevice, D_ReRamESPresetDevice>>))
D_ChoppedTTv2ReRamSBPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ChoppedTTv2ReRamSBPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.5"), "in_chop_prob", "0.01"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<SetF(D_ReRamSBPresetDevice, "subtract_symmetry_point", "True"), 
    SetF(D_ReRamSBPresetDevice, "subtract_symmetry_point", "True")>>))
D_ChoppedTTv2CapacitorPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ChoppedTTv2CapacitorPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.1"), "in_chop_prob", "0.01"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<D_CapacitorPresetDevice, D_CapacitorPresetDevice>>))
D_ChoppedTTv2EcRamPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ChoppedTTv2EcRamPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, "desired_bl", "100")), 
    "device", SetD(SetR(SetR(SetF(SetF(SetF(D_ChoppedTransferCompound, "in_chop_prob", "0.01"), 
    "auto_granularity", "500"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<D_EcRamPresetDevice, D_EcRamPresetDevice>>))
D_ChoppedTTv2EcRamMOPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ChoppedTTv2EcRamMOPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, "desired_bl", "100")), 
    "device", SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", "0.1"), "in_chop_prob", 
    "0.001"), "auto_granularity", "500"), "auto_scale", "True"), "transfer_forward", 
    SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", "None")), 
    "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", 
    "False"), "update_management", "False")), <<D_EcRamMOPresetDevice, D_EcRamMOPresetDevice>>))
D_ChoppedTTv2IdealizedPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "ChoppedTTv2IdealizedPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, 
    "desired_bl", "100")), "device", SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_ChoppedTransferCompound, "fast_lr", 
    "0.1"), "in_chop_prob", "0.001"), "auto_granularity", "500"), "auto_scale", "True"), "transfer_forward", 
    SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", "None")), 
    "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", 
    "False"), "update_management", "False")), <<D_IdealizedPresetDevice, D_IdealizedPresetDevice>>))
D_AGADReRamESPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "AGADReRamESPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_DynamicTransferCompound, "fast_lr", "0.5"), "in_chop_prob", "0.02"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<D_ReRamESPresetDevice, D_ReRamESPresetDevice>>))
D_AGADReRamSBPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "AGADReRamSBPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(D_DynamicTransferCompound, "fast_lr", "0.5"), "in_chop_prob", "0.02"), 
    "auto_granularity", "1000"), "auto_scale", "True"), "transfer_forward", SetF(SetF(D_PresetIOParameters, 
    "bound_management", "None"), "noise_management", "None")), "transfer_update", 
    SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), "update_bl_management", "False"), 
    "update_management", "False")), <<SetF(D_ReRamSBPresetDevice, "subtract_symmetry_point", "True"), 
    SetF(D_ReRamSBPresetDevice, "subtract_symmetry_point", "True")>>))
D_AGADCapacitorPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "AGADCapacitorPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(SetF(D_DynamicTransferCompound, "fast_lr", "0.1"), "in_chop_prob", 
    "0.01"), "auto_granularity", "1000"), "auto_scale", "True"), "tail_weightening", "20"), 
    "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", 
    "None")), "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), 
    "update_bl_management", "False"), "update_management", "False")), <<D_CapacitorPresetDevice, 
    D_CapacitorPresetDevice>>))
D_AGADEcRamPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "AGADEcRamPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetD(SetR(SetR(SetF(SetF(SetF(SetF(SetF(D_DynamicTransferCompound, "fast_lr", "0.1"), "in_chop_prob", 
    "0.005"), "auto_granularity", "750"), "auto_scale", "True"), "tail_weightening", "50"), 
    "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", 
    "None")), "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), 
    "update_bl_management", "False"), "update_management", "False")), <<D_EcRamPresetDevice, 
    D_EcRamPresetDevice>>))
D_AGADEcRamMOPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "AGADEcRamMOPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, "desired_bl", "100")), 
    "device", SetD(SetR(SetR(SetF(SetF(SetF(SetF(SetF(D_DynamicTransferCompound, "fast_lr", "0.1"), 
    "in_chop_prob", "0.005"), "auto_granularity", "500"), "auto_scale", "True"), "tail_weightening", "50"), 
    "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", 
    "None")), "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), 
    "update_bl_management", "False"), "update_management", "False")), <<D_EcRamMOPresetDevice, 
    D_EcRamMOPresetDevice>>))
D_AGADIdealizedPreset ==
    SetR(SetR(SetR(SetR(Rename(D_UnitCellRPUConfig, "AGADIdealizedPreset"), "forward", D_PresetIOParameters), 
    "backward", D_PresetIOParameters), "update", SetF(D_PresetUpdateParameters, "desired_bl", "100")), 
    "device", SetD(SetR(SetR(SetF(SetF(SetF(SetF(SetF(D_DynamicTransferCompound, "fast_lr", "0.1"), 
    "in_chop_prob", "0.005"), "auto_granularity", "500"), "auto_scale", "True"), "tail_weightening", "50"), 
    "transfer_forward", SetF(SetF(D_PresetIOParameters, "bound_management", "None"), "noise_management", 
    "None")), "transfer_update", SetF(SetF(SetF(D_PresetUpdateParameters, "desired_bl", "1"), 
    "update_bl_management", "False"), "update_management", "False")), <<D_IdealizedPresetDevice, 
    D_IdealizedPresetDevice>>))
D_MixedPrecisionReRamESPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionReRamESPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_ReRamESPresetDevice))
D_MixedPrecisionReRamSBPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionReRamSBPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_ReRamSBPresetDevice))
D_MixedPrecisionCapacitorPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionCapacitorPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_CapacitorPresetDevice))
D_MixedPrecisionEcRamPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionEcRamPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_EcRamPresetDevice))
D_MixedPrecisionEcRamMOPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionEcRamMOPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_EcRamMOPresetDevice))
D_MixedPrecisionIdealizedPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionIdealizedPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_IdealizedPresetDevice))
D_MixedPrecisionGokmenVlasovPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionGokmenVlasovPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_GokmenVlasovPresetDevice))
D_MixedPrecisionPCMPreset ==
    SetR(SetR(SetR(SetR(Rename(D_DigitalRankUpdateRPUConfig, "MixedPrecisionPCMPreset"), "forward", 
    D_PresetIOParameters), "backward", D_PresetIOParameters), "update", D_PresetUpdateParameters), "device", 
    SetR(D_MixedPrecisionCompound, "device", D_PCMPresetUnitCell))

Def == [
  IOParameters |-> D_IOParameters,
  IOParametersIRDropT |-> D_IOParametersIRDropT,
  UpdateParameters |-> D_UpdateParameters,
  WeightModifierParameter |-> D_WeightModifierParameter,
  WeightClipParameter |-> D_WeightClipParameter,
  WeightRemapParameter |-> D_WeightRemapParameter,
  SimpleDriftParameter |-> D_SimpleDriftParameter,
  DriftParameter |-> D_DriftParameter,
  MappingParameter |-> D_MappingParameter,
  InputRangeParameter |-> D_InputRangeParameter,
  PrePostProcessingParameter |-> D_PrePostProcessingParameter,
  RuntimeParameter |-> D_RuntimeParameter,
  FloatingPointDevice |-> D_FloatingPointDevice,
  IdealDevice |-> D_IdealDevice,
  ConstantStepDevice |-> D_ConstantStepDevice,
  LinearStepDevice |-> D_LinearStepDevice,
  SoftBoundsDevice |-> D_SoftBoundsDevice,
  SoftBoundsReferenceDevice |-> D_SoftBoundsReferenceDevice,
  ExpStepDevice |-> D_ExpStepDevice,
  PowStepDevice |-> D_PowStepDevice,
  PowStepReferenceDevice |-> D_PowStepReferenceDevice,
  PiecewiseStepDevice |-> D_PiecewiseStepDevice,
  UnitCell |-> D_UnitCell,
  VectorUnitCell |-> D_VectorUnitCell,
  DigitalRankUpdateCell |-> D_DigitalRankUpdateCell,
  ReferenceUnitCell |-> D_ReferenceUnitCell,
  OneSidedUnitCell |-> D_OneSidedUnitCell,
  TransferCompound |-> D_TransferCompound,
  BufferedTransferCompound |-> D_BufferedTransferCompound,
  ChoppedTransferCompound |-> D_ChoppedTransferCompound,
  DynamicTransferCompound |-> D_DynamicTransferCompound,
  MixedPrecisionCompound |-> D_MixedPrecisionCompound,
  FloatingPointRPUConfig |-> D_FloatingPointRPUConfig,
  InferenceRPUConfig |-> D_InferenceRPUConfig,
  SingleRPUConfig |-> D_SingleRPUConfig,
  UnitCellRPUConfig |-> D_UnitCellRPUConfig,
  DigitalRankUpdateRPUConfig |-> D_DigitalRankUpdateRPUConfig,
  TorchInferenceRPUConfig |-> D_TorchInferenceRPUConfig,
  PresetIOParameters |-> D_PresetIOParameters,
  PresetUpdateParameters |-> D_PresetUpdateParameters,
  StandardIOParameters |-> D_StandardIOParameters,
  ReRamESPresetDevice |-> D_ReRamESPresetDevice,
  ReRamSBPresetDevice |-> D_ReRamSBPresetDevice,
  CapacitorPresetDevice |-> D_CapacitorPresetDevice,
  EcRamPresetDevice |-> D_EcRamPresetDevice,
  EcRamMOPresetDevice |-> D_EcRamMOPresetDevice,
  IdealizedPresetDevice |-> D_IdealizedPresetDevice,
  GokmenVlasovPresetDevice |-> D_GokmenVlasovPresetDevice,
  PCMPresetDevice |-> D_PCMPresetDevice,
  ReRamArrayOMPresetDevice |-> D_ReRamArrayOMPresetDevice,
  ReRamArrayHfO2PresetDevice |-> D_ReRamArrayHfO2PresetDevice,
  PCMPresetUnitCell |-> D_PCMPresetUnitCell,
  FloatingPointPreset |-> D_FloatingPointPreset,
  StandardHWATrainingPreset |-> D_StandardHWATrainingPreset,
  ReRamESPreset |-> D_ReRamESPreset,
  ReRamSBPreset |-> D_ReRamSBPreset,
  CapacitorPreset |-> D_CapacitorPreset,
  EcRamPreset |-> D_EcRamPreset,
  EcRamMOPreset |-> D_EcRamMOPreset,
  IdealizedPreset |-> D_IdealizedPreset,
  GokmenVlasovPreset |-> D_GokmenVlasovPreset,
  PCMPreset |-> D_PCMPreset,
  ReRamES2Preset |-> D_ReRamES2Preset,
  ReRamSB2Preset |-> D_ReRamSB2Preset,
  Capacitor2Preset |-> D_Capacitor2Preset,
  EcRam2Preset |-> D_EcRam2Preset,
  EcRamMO2Preset |-> D_EcRamMO2Preset,
  Idealized2Preset |-> D_Idealized2Preset,
  ReRamES4Preset |-> D_ReRamES4Preset,
  ReRamSB4Preset |-> D_ReRamSB4Preset,
  Capacitor4Preset |-> D_Capacitor4Preset,
  EcRam4Preset |-> D_EcRam4Preset,
  EcRamMO4Preset |-> D_EcRamMO4Preset,
  Idealized4Preset |-> D_Idealized4Preset,
  TikiTakaReRamESPreset |-> D_TikiTakaReRamESPreset,
  TikiTakaReRamSBPreset |-> D_TikiTakaReRamSBPreset,
  TikiTakaCapacitorPreset |-> D_TikiTakaCapacitorPreset,
  TikiTakaEcRamPreset |-> D_TikiTakaEcRamPreset,
  TikiTakaEcRamMOPreset |-> D_TikiTakaEcRamMOPreset,
  TikiTakaIdealizedPreset |-> D_TikiTakaIdealizedPreset,
  TTv2ReRamESPreset |-> D_TTv2ReRamESPreset,
  TTv2ReRamSBPreset |-> D_TTv2ReRamSBPreset,
  TTv2CapacitorPreset |-> D_TTv2CapacitorPreset,
  TTv2EcRamPreset |-> D_TTv2EcRamPreset,
  TTv2EcRamMOPreset |-> D_TTv2EcRamMOPreset,
  TTv2IdealizedPreset |-> D_TTv2IdealizedPreset,
  ChoppedTTv2ReRamESPreset |-> D_ChoppedTTv2ReRamESPreset,
  ChoppedTTv2ReRamSBPreset |-> D_ChoppedTTv2ReRamSBPreset,
  ChoppedTTv2CapacitorPreset |-> D_ChoppedTTv2CapacitorPreset,
  ChoppedTTv2EcRamPreset |-> D_ChoppedTTv2EcRamPreset,
  ChoppedTTv2EcRamMOPreset |-> D_ChoppedTTv2EcRamMOPreset,
  ChoppedTTv2IdealizedPreset |-> D_ChoppedTTv2IdealizedPreset,
  AGADReRamESPreset |-> D_AGADReRamESPreset,
  AGADReRamSBPreset |-> D_AGADReRamSBPreset,
  AGADCapacitorPreset |-> D_AGADCapacitorPreset,
  AGADEcRamPreset |-> D_AGADEcRamPreset,
  AGADEcRamMOPreset |-> D_AGADEcRamMOPreset,
  AGADIdealizedPreset |-> D_AGADIdealizedPreset,
  MixedPrecisionReRamESPreset |-> D_MixedPrecisionReRamESPreset,
  MixedPrecisionReRamSBPreset |-> D_MixedPrecisionReRamSBPreset,
  MixedPrecisionCapacitorPreset |-> D_MixedPrecisionCapacitorPreset,
  MixedPrecisionEcRamPreset |-> D_MixedPrecisionEcRamPreset,
  MixedPrecisionEcRamMOPreset |-> D_MixedPrecisionEcRamMOPreset,
  MixedPrecisionIdealizedPreset |-> D_MixedPrecisionIdealizedPreset,
  MixedPrecisionGokmenVlasovPreset |-> D_MixedPrecisionGokmenVlasovPreset,
  MixedPrecisionPCMPreset |-> D_MixedPrecisionPCMPreset]
=============================================================================
