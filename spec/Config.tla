------------------------------- MODULE Config -------------------------------
(* The effective settings of the map builder as a function of the             *)
(* configuration file.  All values are strings; truth values are "0" and "1", *)
(* fractional values are in thousandths.                                      *)
EXTENDS Integers, Sequences, TLC

VARIABLES conf,   \* <<>> or the effective settings
          picked  \* the matcher parameter blocks in use, by position in the file; -1: none
cvars == <<conf, picked>>

Default ==
  "whole_options.export_file_path" :> "./"
  @@ "whole_options.map_package_path" :> "./"
  @@ "whole_options.odom_calib_mode" :> 1
  @@ "whole_options.separate_output" :> 0
  @@ "whole_options.output_direct_combined_map" :> 1
  @@ "whole_options.output_mrvm" :> 1
  @@ "whole_options.output_kitti_pose" :> 0
  @@ "whole_options.separate_step" :> 200
  @@ "output_mrvm_settings.output_average" :> 0
  @@ "output_mrvm_settings.output_rgb" :> 0
  @@ "output_mrvm_settings.use_max_intensity" :> 1
  @@ "output_mrvm_settings.prob_threshold" :> 600
  @@ "output_mrvm_settings.low_resolution" :> 1000
  @@ "output_mrvm_settings.high_resolution" :> 100
  @@ "output_mrvm_settings.hit_prob" :> 550
  @@ "output_mrvm_settings.miss_prob" :> 480
  @@ "output_mrvm_settings.z_offset" :> 0
  @@ "output_mrvm_settings.max_point_num_in_cell" :> 10
  @@ "front_end_options.accumulate_cloud_num" :> 1
  @@ "front_end_options/scan_matcher_options.type" :> 1
  @@ "front_end_options/scan_matcher_options.accepted_min_score" :> 700
  @@ "front_end_options/motion_filter.translation_range" :> 350
  @@ "front_end_options/motion_filter.angle_range" :> 1500
  @@ "front_end_options/motion_filter.time_range" :> 0
  @@ "front_end_options/motion_compensation_options.enable" :> 1
  @@ "front_end_options/motion_compensation_options.use_average" :> 1
  @@ "front_end_options/imu_options.use_imu" :> 1
  @@ "front_end_options/imu_options.type" :> 0
  @@ "front_end_options/imu_options.imu_frequency" :> 100000
  @@ "front_end_options/imu_options.gravity_constant" :> 9800
  @@ "back_end_options/submap_matcher_options.type" :> 1
  @@ "back_end_options/submap_matcher_options.accepted_min_score" :> 700
  @@ "back_end_options/submap_options.frame_count" :> 5
  @@ "back_end_options/submap_options.enable_inner_mrvm" :> 0
  @@ "back_end_options/submap_options.enable_voxel_filter" :> 0
  @@ "back_end_options/submap_options.enable_random_sampleing" :> 0
  @@ "back_end_options/submap_options.random_sampling_rate" :> 500
  @@ "back_end_options/submap_options.voxel_size" :> 100
  @@ "back_end_options/submap_options.enable_disk_saving" :> 0
  @@ "back_end_options/submap_options.enable_check" :> 1
  @@ "back_end_options/submap_options.disk_saving_delay" :> 10
  @@ "back_end_options/submap_options.saving_name_prefix" :> "submap_"
  @@ "back_end_options/isam_optimizer_options.use_odom" :> 0
  @@ "back_end_options/isam_optimizer_options.use_gps" :> 0
  @@ "back_end_options/isam_optimizer_options.output_graph_pic" :> 0
  @@ "back_end_options/isam_optimizer_options.enable_extrinsic_calib" :> 1
  @@ "back_end_options/isam_optimizer_options.gps_factor_init_num" :> 25
  @@ "back_end_options/isam_optimizer_options.gps_factor_sample_step" :> 1
  @@ "back_end_options/isam_optimizer_options.gps_factor_init_angle_rad" :> 1600
  @@ "back_end_options/loop_detector_setting.use_gps" :> 0
  @@ "back_end_options/loop_detector_setting.use_descriptor" :> 0
  @@ "back_end_options/loop_detector_setting.output_matched_cloud" :> 0
  @@ "back_end_options/loop_detector_setting.trying_detect_loop_count" :> 1
  @@ "back_end_options/loop_detector_setting.loop_ignore_threshold" :> 15
  @@ "back_end_options/loop_detector_setting.nearest_history_pos_num" :> 4
  @@ "back_end_options/loop_detector_setting.max_close_loop_distance" :> 25000
  @@ "back_end_options/loop_detector_setting.max_close_loop_z_distance" :> 1000
  @@ "back_end_options/loop_detector_setting.m2dp_match_score" :> 990
  @@ "back_end_options/loop_detector_setting.accept_scan_match_score" :> 750
  @@ "map_package_options.enable" :> 1
  @@ "map_package_options.border_offset" :> 100000
  @@ "map_package_options.piece_width" :> 500000
  @@ "map_package_options.cloud_file_prefix" :> "part_"
  @@ "map_package_options.descript_filename" :> "map_package.xml"

Names == DOMAIN Default
Begin == conf = <<>> /\ picked = <<>>

(* given: a sequence of <<name, value>> *)
Effective(given) ==
  [n \in Names |-> IF \E k \in DOMAIN given : given[k][1] = n
                   THEN given[CHOOSE k \in DOMAIN given : given[k][1] = n][2]
                   ELSE Default[n]]

Loop(n) == "back_end_options/loop_detector_setting." \o n
Valid(c) ==
  /\ c[Loop("use_gps")] = 1 \/ c[Loop("use_descriptor")] = 1
  /\ c[Loop("nearest_history_pos_num")] >= 1
  /\ c["front_end_options.accumulate_cloud_num"] >= 1
  /\ c["output_mrvm_settings.hit_prob"] > 500
  /\ c["output_mrvm_settings.miss_prob"] < 500
  /\ c["output_mrvm_settings.max_point_num_in_cell"] >= 1
  /\ c["front_end_options/imu_options.use_imu"] = 0 \/ c["front_end_options/imu_options.imu_frequency"] > 0

(* the first block of the chosen type *)
Pick(blocks, type) ==
  LET same == {k \in DOMAIN blocks : blocks[k] = type} IN
  IF same = {} THEN -1 ELSE (CHOOSE k \in same : \A j \in same : k <= j) - 1

(* starting with a file; FALSE if the start must be refused *)
Accepts(given) == Valid(Effective(given))
Load(given, front, back) ==
  /\ Accepts(given)
  /\ conf' = Effective(given)
  /\ picked' = <<Pick(front, Effective(given)["front_end_options/scan_matcher_options.type"]),
                 Pick(back, Effective(given)["back_end_options/submap_matcher_options.type"])>>

(* no usable file *)
Fallback == conf' = Default /\ picked' = <<-1, -1>>

Clear(ns) == conf' = [n \in Names |-> IF n \in ns THEN 0 ELSE conf[n]] /\ UNCHANGED picked
Isam(n) == "back_end_options/isam_optimizer_options." \o n
Switch(what, on) ==
  IF on THEN UNCHANGED cvars
  ELSE IF what = "gps" THEN Clear({Loop("use_gps"), Isam("use_gps")})
  ELSE Clear({Isam("use_odom")})
=============================================================================
