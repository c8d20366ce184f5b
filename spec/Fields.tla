------------------------------- MODULE Fields -------------------------------
(* The context indicator words: name, indicator bit and format of every      *)
(* field the definition language offers, in wire order (descending bits).     *)
EXTENDS Structs

T(n) == [t |-> n]
Cif0Table == <<
  <<"reference_point_id", 30, "u32">>, <<"bandwidth", 29, "fx64r20">>,
  <<"if_ref_frequency", 28, "fx64r20">>, <<"rf_ref_frequency", 27, "fx64r20">>,
  <<"rf_ref_frequency_offset", 26, "fx64r20">>, <<"if_band_offset", 25, "fx64r20">>,
  <<"reference_level", 24, "fx16r7">>, <<"gain", 23, "Gain">>, <<"over_range_count", 22, "u32">>,
  <<"sample_rate", 21, "fx64r20">>, <<"timestamp_adjustment", 20, "u64">>,
  <<"timestamp_calibration_time", 19, "u32">>, <<"temperature", 18, "fx16r6">>,
  <<"device_id", 17, "DeviceIdentifier">>, <<"state_event_indicators", 16, "StateEventIndicators">>,
  <<"signal_data_format", 15, "PayloadFormat">>, <<"formatted_gps", 14, "Geolocation">>,
  <<"formatted_ins", 13, "Geolocation">>, <<"ecef_ephemeris", 12, "Ephemeris">>,
  <<"relative_ephemeris", 11, "Ephemeris">>, <<"ephemeris_ref_id", 10, "u32">>,
  <<"gps_ascii", 9, "GPS_ASCII">>, <<"context_association_lists", 8, "ContextAssociationLists">> >>
Cif1Table == <<
  <<"phase_offset", 31, "fx16r7">>, <<"polarization", 30, "Polarization">>,
  <<"pointing_vector", 29, "PointingVector">>, <<"spatial_scan_type", 27, "id16">>,
  <<"beam_width", 25, "BeamWidth">>, <<"range", 24, "fx32r6">>, <<"ebno_ber", 20, "EbNoBER">>,
  <<"threshold", 19, "Threshold">>, <<"compression_point", 18, "fx16r7">>,
  <<"intercept_points", 17, "InterceptPoints">>, <<"snr_noise_figure", 16, "SNRNoise">>,
  <<"aux_frequency", 15, "fx64r20">>, <<"aux_gain", 14, "Gain">>, <<"aux_bandwidth", 13, "fx64r20">>,
  <<"spectrum", 10, "Spectrum">>, <<"sector_step_scan", 9, "sss">>, <<"index_list", 7, "IndexList32">>,
  <<"discrete_io_32", 6, "dio32">>, <<"discrete_io_64", 5, "dio64">>, <<"health_status", 4, "id16">>,
  <<"v49_spec_compliance", 3, "u32">>, <<"version_information", 2, "VersionInformation">>,
  <<"buffer_size", 1, "fx64r20">> >>
Cif2Table == <<
  <<"bind", 31, "u32">>, <<"cited_sid", 30, "u32">>, <<"sibling_sid", 29, "u32">>,
  <<"parent_sid", 28, "u32">>, <<"child_sid", 27, "u32">>, <<"cited_message_id", 26, "u32">>,
  <<"controllee_id", 25, "u32">>, <<"controllee_uuid", 24, "uuid">>, <<"controller_id", 23, "u32">>,
  <<"controller_uuid", 22, "uuid">>, <<"information_source", 21, "u32">>, <<"track_id", 20, "u32">>,
  <<"country_code", 19, "u32">>, <<"operator_id", 18, "u32">>, <<"platform_class", 17, "u32">>,
  <<"platform_instance", 16, "u32">>, <<"platform_display", 15, "u32">>,
  <<"ems_device_class", 14, "u32">>, <<"ems_device_type", 13, "u32">>,
  <<"ems_device_instance", 12, "u32">>, <<"modulation_class", 11, "u32">>,
  <<"modulation_type", 10, "u32">>, <<"function_id", 9, "u32">>, <<"mode_id", 8, "u32">>,
  <<"event_id", 7, "u32">>, <<"function_priority_id", 6, "u32">>,
  <<"communication_priority_id", 5, "u32">>, <<"rf_footprint", 4, "u32">>,
  <<"rf_footprint_range", 3, "u32">> >>
CifTables == <<Cif0Table, Cif1Table, Cif2Table>>
\* Attributes (CIF7), in wire order
Cif7Table == <<
  <<"current_value", 31>>, <<"mean_value", 30>>, <<"median_value", 29>>, <<"standard_deviation", 28>>,
  <<"max_value", 27>>, <<"min_value", 26>>, <<"precision", 25>>, <<"accuracy", 24>>,
  <<"first_derivative", 23>>, <<"second_derivative", 22>>, <<"third_derivative", 21>>,
  <<"probability", 20>>, <<"belief", 19>> >>
=============================================================================
