static TABLE: &[(&str, extern "C" fn())] = &[
    ("h_game87", p_bitevents::h_game87),
    ("h_game75", p_bitevents::h_game75),
    ("h_game87_deep", p_bitevents::h_game87_deep),
    ("h_game75_deep", p_bitevents::h_game75_deep),
    ("h_msg87", p_bitevents::h_msg87),
    ("h_game87_trunc", p_bitevents::h_game87_trunc),
    ("h_game75_trunc", p_bitevents::h_game75_trunc),
    ("h_msg87_trunc", p_bitevents::h_msg87_trunc),
    ("h_empty_string", p_bitevents::h_empty_string),
    ("h_conv_game87", p_convert::h_conv_game87),
    ("h_conv_game75", p_convert::h_conv_game75),
    ("h_conv_msg", p_convert::h_conv_msg),
    ("h_conv_tracker", p_convert::h_conv_tracker),
    ("h_conv_tracker_deep", p_convert::h_conv_tracker_deep),
    ("h_conv_details", p_convert::h_conv_details),
    ("h_conv_details_text", p_convert::h_conv_details_text),
    ("h_conv_init", p_convert::h_conv_init),
    ("h_conv_handles", p_convert::h_conv_handles),
    ("h_init", p_convert::h_init),
    ("h_init_deep", p_convert::h_init_deep),
    ("h_init_trunc", p_convert::h_init_trunc),
    ("h_init75", p_convert::h_init75),
    ("h_map_info", p_map::h_map_info),
    ("h_map_info_short", p_map::h_map_info_short),
    ("h_map_info_magic", p_map::h_map_info_magic),
    ("h_height_map", p_map::h_height_map),
    ("h_height_map_short", p_map::h_height_map_short),
    ("h_document", p_map::h_document),
    ("h_document_short", p_map::h_document_short),
    ("h_document_any", p_map::h_document_any),
    ("h_coords", p_map::h_coords),
    ("h_coords_nearest", p_map::h_coords_nearest),
    ("h_merge", p_merge::h_merge),
    ("h_merge_deep", p_merge::h_merge_deep),
    ("h_filter", p_merge::h_filter),
    ("h_filter_max", p_merge::h_filter_max),
    ("h_filter_max_deep", p_merge::h_filter_max_deep),
    ("h_filter_user", p_merge::h_filter_user),
    ("h_join", p_players::h_join),
    ("h_state_of_players", p_players::h_state_of_players),
    ("h_flat_row", p_players::h_flat_row),
    ("h_flat_row_short", p_players::h_flat_row_short),
    ("h_names", p_players::h_names),
    ("h_metadata", p_players::h_metadata),
    ("h_vlq", p_prim::h_vlq),
    ("h_vlq_encode", p_prim::h_vlq_encode),
    ("h_bits_int", p_prim::h_bits_int),
    ("h_bits_packed", p_prim::h_bits_packed),
    ("h_bits_array", p_prim::h_bits_array),
    ("h_bits_small", p_prim::h_bits_small),
    ("h_tag_int", p_prim::h_tag_int),
    ("h_tag_blob", p_prim::h_tag_blob),
    ("h_tag_bitarray", p_prim::h_tag_bitarray),
    ("h_tag_fixed", p_prim::h_tag_fixed),
    ("h_row_stats", p_rows::h_row_stats),
    ("h_row_born", p_rows::h_row_born),
    ("h_row_died", p_rows::h_row_died),
    ("h_row_cmd", p_rows::h_row_cmd),
    ("h_row_users", p_rows::h_row_users),
    ("h_rows_stats", p_rows::h_rows_stats),
    ("h_rows_units", p_rows::h_rows_units),
    ("h_rows_units_deep", p_rows::h_rows_units_deep),
    ("h_rows_cmd", p_rows::h_rows_cmd),
    ("h_groups", p_select::h_groups),
    ("h_groups_sets", p_select::h_groups_sets),
    ("h_groups_deep", p_select::h_groups_deep),
    ("h_selection", p_select::h_selection),
    ("h_groups_death", p_select::h_groups_death),
    ("h_cmd", p_select::h_cmd),
    ("h_target_point", p_select::h_target_point),
    ("h_target_unit", p_select::h_target_unit),
    ("h_positions", p_select::h_positions),
    ("h_positions_deep", p_select::h_positions_deep),
    ("h_positions_list", p_select::h_positions_list),
    ("h_tag", p_select::h_tag),
    ("h_player_setup", p_select::h_player_setup),
    ("h_camera", p_select::h_camera),
    ("h_ability_name", p_select::h_ability_name),
    ("h_tracker_stream", p_stream::h_tracker_stream),
    ("h_tracker_stream2", p_stream::h_tracker_stream2),
    ("h_tracker_list", p_stream::h_tracker_list),
    ("h_game_stream87", p_stream::h_game_stream87),
    ("h_game_stream75", p_stream::h_game_stream75),
    ("h_game_stream87_any", p_stream::h_game_stream87_any),
    ("h_game_stream75_any", p_stream::h_game_stream75_any),
    ("h_game_stream87_deep", p_stream::h_game_stream87_deep),
    ("h_game_stream75_deep", p_stream::h_game_stream75_deep),
    ("h_tracker_stream_deep", p_stream::h_tracker_stream_deep),
    ("h_game_list87", p_stream::h_game_list87),
    ("h_game_list75", p_stream::h_game_list75),
    ("h_msg_list", p_stream::h_msg_list),
    ("h_version_game87", p_stream::h_version_game87),
    ("h_version_game75", p_stream::h_version_game75),
    ("h_version_init", p_stream::h_version_init),
    ("h_version_details", p_stream::h_version_details),
    ("h_signature_ok", p_stream::h_signature_ok),
    ("h_signature", p_stream::h_signature),
    ("h_missing_sector", p_stream::h_missing_sector),
    ("h_tracker", p_tagged::h_tracker),
    ("h_tracker_deep", p_tagged::h_tracker_deep),
    ("h_header", p_tagged::h_header),
    ("h_details_shape", p_tagged::h_details_shape),
    ("h_details_range", p_tagged::h_details_range),
    ("h_header_deep", p_tagged::h_header_deep),
    ("h_details_deep", p_tagged::h_details_deep),
    ("h_tracker_strict", p_tagged::h_tracker_strict),
    ("h_header_strict", p_tagged::h_header_strict),
    ("h_details_strict", p_tagged::h_details_strict),
    ("h_tracker_unknown", p_tagged::h_tracker_unknown),
    ("h_date", p_time::h_date),
    ("h_date_deep", p_time::h_date_deep),
    ("h_date_ends", p_time::h_date_ends),
    ("h_date_any", p_time::h_date_any),
    ("h_game_seconds", p_time::h_game_seconds),
    ("h_tracker_seconds", p_time::h_tracker_seconds),
    ("h_tracker_seconds_deep", p_time::h_tracker_seconds_deep),
    ("h_unit_init", p_units::h_unit_init),
    ("h_unit_born", p_units::h_unit_born),
    ("h_unit_change", p_units::h_unit_change),
    ("h_unit_done", p_units::h_unit_done),
    ("h_unit_died", p_units::h_unit_died),
    ("h_unit_other", p_units::h_unit_other),
];
