table! {
    h_ap::h_ap_line,
    h_ap::h_ap_line4,
    h_ap::h_ap_ranked,
    h_ap::h_ap_ranked9,
    h_ap::h_ap_line4_full,
    h_ap::h_aph_two,
    h_ap::h_aph_many,
    h_ap::h_ap_modes,
    h_ap::h_heading_yaw,
    h_ap::h_heading_any,
    h_ap::h_aph_pair,
    h_ap::h_aph_any,
    h_config::h_config_text,
    h_config::h_config_filter,
    h_config::h_config_score,
    h_config::h_config_bad,
    h_config::h_config_cut,
    h_config::h_config_twice,
    h_data::h_data_one,
    h_data::h_ref,
    h_data::h_chain2,
    h_data::h_chain3,
    h_data::h_data_two,
    h_data::h_boxes,
    h_data::h_sorted,
    h_data::h_data_map,
    h_data::h_cloud,
    h_data::h_cloud_many,
    h_data::h_cloud_no,
    h_filter::h_filter_one,
    h_filter::h_filter_uuid,
    h_filter::h_filter_list,
    h_filter::h_filter_dup,
    h_filter::h_filter_texts,
    h_filter::h_filter_twin,
    h_frame::h_frame_space,
    h_frame::h_frame_line,
    h_frame::h_frame_line5,
    h_frame::h_frame_labels,
    h_frame::h_frame_plane,
    h_frame::h_frame_iou,
    h_frame::h_frame_many,
    h_frame::h_frame_same,
    h_geom::h_center,
    h_geom::h_center_thr,
    h_geom::h_footprint_yaw,
    h_geom::h_footprint_any,
    h_geom::h_area,
    h_geom::h_plane,
    h_geom::h_plane_size,
    h_geom::h_plane_self,
    h_geom::h_iou_x,
    h_geom::h_iou_z,
    h_geom::h_iou_xy,
    h_geom::h_iou_size,
    h_geom::h_iou_at,
    h_geom::h_iou_both,
    h_geom::h_iou_turned,
    h_geom::h_modes,
    h_geom::h_iou_self,
    h_match::h_match_2x2,
    h_match::h_match_2x2_full,
    h_match::h_match_kinds,
    h_match::h_match_line,
    h_match::h_match_3x3,
    h_match::h_match_labels,
    h_match::h_match_order,
    h_match::h_match_many,
    h_match::h_match_same,
    h_math::h_rot_direction,
    h_math::h_rot_norm,
    h_math::h_rot_inverse,
    h_math::h_rot_matrix,
    h_math::h_quat_inverse,
    h_math::h_quat_compose,
    h_math::h_quat_point,
    h_math::h_euler_axis,
    h_math::h_euler_any,
    h_misc::h_nearest,
    h_misc::h_nearest4,
    h_misc::h_nearest_many,
    h_misc::h_nearest_far,
    h_misc::h_token,
    h_misc::h_token_round,
    h_misc::h_token_len,
    h_misc::h_token_edge,
    h_misc::h_names,
    h_misc::h_label_case,
    h_misc::h_label_any,
    h_misc::h_threshold,
    h_record::h_rec_sensor,
    h_record::h_rec_intrinsic,
    h_record::h_rec_pose,
    h_record::h_rec_time,
    h_record::h_rec_sample,
    h_record::h_rec_annotation,
    h_record::h_rec_data,
    h_record::h_rec_other,
    h_report::h_report,
    h_score::h_score_frames,
    h_score::h_score_many,
    h_score::h_score_more,
    h_score::h_score_targets,
    h_score::h_score_task,
    h_score::h_score_filter,
    h_score::h_score_long,
}
