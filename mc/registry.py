"""The checks: property id -> how to build and run it."""
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check("P17", name="probability_values", src=["probability_values.cc"],
      quick_budget=300, thorough_budget=3000)
check("P01", name="thread_pool", src=["thread_pool.cc"], sched=True,
      instrument=["cartographer/common/task.cc", "cartographer/common/thread_pool.cc"],
      instrument_harness=True)
check("P02", name="blocking_queue", src=["blocking_queue.cc"], sched=True,
      instrument_harness=True)
SENSOR = ["cartographer/common/*", "cartographer/sensor/*", "cartographer/metrics/*",
          "cartographer/transform/*"]
check("P10", name="collator", src=["collator.cc"], only=SENSOR)
check("P12", name="range_data_collator", src=["range_data_collator.cc"],
      only=SENSOR + ["cartographer/mapping/internal/range_data_collator.cc"])
check("P15", name="containers", src=["containers.cc"], only=SENSOR)
CLOUDS = SENSOR + ["cartographer/mapping/probability_values.cc",
                   "cartographer/mapping/3d/hybrid_grid.cc"]
check("P13", name="compression", src=["point_clouds.cc"], only=CLOUDS,
      defs=["-DCHECK_COMPRESSION"])
check("P14", name="voxel_filter", src=["point_clouds.cc"], only=CLOUDS)
MAP2D = SENSOR + ["cartographer/mapping/probability_values.cc",
                  "cartographer/mapping/value_conversion_tables.cc",
                  "cartographer/mapping/2d/*", "cartographer/mapping/internal/2d/tsd*",
                  "cartographer/mapping/internal/2d/ray_to*",
                  "cartographer/mapping/internal/2d/normal*",
                  "cartographer/mapping/range_data_inserter_interface.cc"]
check("P18", name="grid_2d", src=["grid_2d.cc"], only=MAP2D)
check("P19", name="insertion_2d", src=["insertion_2d.cc"], only=MAP2D)
check("P20", name="insertion_tsdf", src=["insertion_2d.cc"], only=MAP2D,
      defs=["-DCHECK_TSDF"])
check("P22", name="grid_3d", src=["grid_3d.cc"], only=CLOUDS)
check("P23", name="insertion_3d", src=["grid_3d.cc"], defs=["-DCHECK_INSERTION"],
      only=CLOUDS + ["cartographer/mapping/3d/*"])
check("P21", name="submaps", src=["submaps.cc"],
      only=MAP2D + ["cartographer/mapping/3d/*",
                    "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc"])
MATCH2D = MAP2D + ["cartographer/mapping/internal/2d/scan_matching/*correlative*"]
check("P24", name="fast_matcher_2d", src=["matchers_2d.cc"], only=MATCH2D)
check("P26", name="real_time_matcher_2d", src=["matchers_2d.cc"], only=MATCH2D,
      defs=["-DCHECK_REAL_TIME"])
MATCH3D = CLOUDS + ["cartographer/mapping/3d/*", "cartographer/mapping/trajectory_node.cc",
                    "cartographer/mapping/internal/3d/scan_matching/*correlative*",
                    "cartographer/mapping/internal/3d/scan_matching/precomp*",
                    "cartographer/mapping/internal/3d/scan_matching/rotational*",
                    "cartographer/mapping/internal/3d/scan_matching/low_res*",
                    "cartographer/mapping/2d/*", "cartographer/mapping/value*"]
check("P25", name="fast_matcher_3d", src=["matchers_3d.cc"], only=MATCH3D)
check("P27", name="real_time_matcher_3d", src=["matchers_3d.cc"], only=MATCH3D,
      defs=["-DCHECK_REAL_TIME"])
BUILDER2D = MATCH2D + ["cartographer/mapping/internal/2d/scan_matching/*",
                       "cartographer/mapping/internal/constraints/constraint_builder_2d.cc",
                       "cartographer/mapping/trajectory_node.cc"]
BUILDER3D = MATCH3D + MAP2D + ["cartographer/mapping/internal/3d/scan_matching/*",
                       "cartographer/mapping/internal/constraints/constraint_builder_3d.cc",
                       "cartographer/mapping/internal/optimization/ceres_pose.cc",
                       "cartographer/mapping/internal/2d/*"]
NUMERIC = ["cartographer/mapping/internal/?d/scan_matching/*", "cartographer/mapping/?d/*",
           "cartographer/sensor/*"]
POOL = ["cartographer/common/task.cc", "cartographer/common/thread_pool.cc"]
check("P03", name="constraint_builder_2d", src=["constraint_builder.cc"], sched=True,
      only=BUILDER2D, instrument_harness=True, plain_first=NUMERIC,
      instrument=POOL + ["cartographer/mapping/internal/constraints/constraint_builder_2d.cc"])
check("P04", name="constraint_builder_3d", src=["constraint_builder.cc"], sched=True,
      only=BUILDER3D, instrument_harness=True, defs=["-DCHECK_3D"], plain_first=NUMERIC,
      instrument=POOL + ["cartographer/mapping/internal/constraints/constraint_builder_3d.cc"])
GRAPH_COMMON = ["cartographer/mapping/pose_graph*", "cartographer/mapping/internal/*.cc",
                "cartographer/mapping/internal/optimization/*", "cartographer/mapping/internal/constraints/*",
                "cartographer/common/*", "cartographer/metrics/*", "cartographer/sensor/*"]
GRAPH_INSTRUMENT = POOL + ["cartographer/mapping/internal/?d/pose_graph_?d.cc",
                           "cartographer/mapping/internal/constraints/constraint_builder_?d.cc",
                           "cartographer/mapping/internal/trajectory_connectivity_state.cc",
                           "cartographer/mapping/internal/connected_components.cc",
                           "cartographer/mapping/internal/optimization/optimization_problem_?d.cc"]
check("P05", name="pose_graph_2d", src=["pose_graph.cc", "pose_graph_world.cc"], sched=True,
      instrument_harness=["pose_graph.cc"], plain_first=NUMERIC, instrument=GRAPH_INSTRUMENT,
      plain_src=["pose_graph_costs.cc"])
check("P08", name="pose_graph_3d", src=["pose_graph.cc", "pose_graph_world.cc"], sched=True,
      instrument_harness=["pose_graph.cc"], plain_first=NUMERIC, instrument=GRAPH_INSTRUMENT,
      plain_src=["pose_graph_costs.cc"],
      defs=["-DCHECK_3D"])
check("P09", name="serialization_2d", src=["serialization.cc", "pose_graph_world.cc"], sched=True,
      instrument_harness=["none"], plain_first=NUMERIC, instrument=GRAPH_INSTRUMENT,
      plain_src=["pose_graph_costs.cc"])
check("P06", name="serialization_3d", src=["serialization.cc", "pose_graph_world.cc"], sched=True,
      instrument_harness=["none"], plain_first=NUMERIC, instrument=GRAPH_INSTRUMENT,
      plain_src=["pose_graph_costs.cc"], defs=["-DCHECK_3D"])
check("P28", name="file_io", src=["file_io.cc"],
      only=["cartographer/common/*", "cartographer/io/proto_stream.cc",
            "cartographer/io/file_writer.cc"])
check("P33", name="pipeline", src=["pipeline.cc"])
check("P42", name="assets", src=["assets.cc"])
check("P07", name="extrapolator", src=["extrapolator.cc"],
      only=SENSOR + ["cartographer/mapping/imu_tracker.cc", "cartographer/mapping/pose_extrapolator.cc",
                     "cartographer/mapping/internal/eigen_quaterniond_from_two_vectors.cc"])
check("P30", name="connectivity", src=["connectivity.cc"], sched=True, instrument_harness=True,
      only=SENSOR + ["cartographer/mapping/internal/connected_components.cc",
                     "cartographer/mapping/internal/trajectory_connectivity_state.cc"],
      instrument=["cartographer/mapping/internal/connected_components.cc",
                  "cartographer/mapping/internal/trajectory_connectivity_state.cc"])
check("P31", name="trimmers", src=["trimmers.cc"],
      only=MAP2D + ["cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc",
                    "cartographer/mapping/trajectory_node.cc",
                    "cartographer/mapping/pose_graph_trimmer.cc"])
check("P11", name="local_slam_2d", src=["local_slam.cc"])
check("P16", name="local_slam_3d", src=["local_slam.cc"], defs=["-DCHECK_3D"])
check("P29", name="map_builder_2d", src=["map_builder.cc"], sched=True,
      instrument_harness=["none"], plain_first=NUMERIC, instrument=GRAPH_INSTRUMENT)
check("P32", name="map_builder_3d", src=["map_builder.cc"], sched=True,
      instrument_harness=["none"], plain_first=NUMERIC, instrument=GRAPH_INSTRUMENT,
      defs=["-DCHECK_3D"])
OPT = SENSOR + ["cartographer/mapping/internal/optimization/*", "cartographer/mapping/imu_tracker.cc",
                "cartographer/mapping/internal/eigen*", "cartographer/mapping/internal/imu*",
                "cartographer/mapping/pose_graph_interface.cc", "cartographer/mapping/pose_graph_data.cc"]
check("P34", name="optimization_2d", src=["optimization.cc"], only=OPT)
check("P35", name="optimization_3d", src=["optimization.cc"], only=OPT, defs=["-DCHECK_3D"])
check("P39", name="transforms", src=["transforms.cc"], only=SENSOR)
check("P40", name="ground_truth", src=["ground_truth.cc"],
      only=SENSOR + ["cartographer/ground_truth/autogenerate_ground_truth.cc",
                     "cartographer/ground_truth/relations_text_file.cc"])
check("P41", name="configuration", src=["configuration.cc"])
CERES2D = MAP2D + ["cartographer/mapping/internal/2d/scan_matching/*", ]
check("P37", name="ceres_matcher_2d", src=["ceres_matchers.cc"], only=CERES2D)
check("P38", name="ceres_matcher_3d", src=["ceres_matchers.cc"], only=BUILDER3D,
      defs=["-DCHECK_3D"])
check("P36", name="images", src=["images.cc"],
      only=MAP2D + ["cartographer/mapping/3d/*", "cartographer/io/image.cc",
                    "cartographer/io/submap_painter.cc", "cartographer/io/draw_trajectories.cc",
                    "cartographer/io/proto_stream*.cc", "cartographer/io/file_writer.cc",
                    "cartographer/io/color.cc", "cartographer/io/internal/in_mem*",
                    "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc"])
