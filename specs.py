"""What each check compiles and links. Sources are relative to /repo."""

# Library sources known when the framework was written; sources added to a used package later are compiled as well.
KNOWN_SOURCES = {
    "camera_tools/src/change_frame_id.cpp", "camera_tools/src/image_operations.cpp",
    "camera_tools/src/publish_info.cpp", "camera_tools/src/split_image.cpp", "eigen_gtsam/src/geometry.cpp",
    "eigen_ros/src/body_frames.cpp", "eigen_ros/src/body_frames_tf.cpp", "eigen_ros/src/eigen_ros.cpp",
    "eigen_ros/src/geometry_msgs.cpp", "eigen_ros/src/imu.cpp", "eigen_ros/src/nav_msgs.cpp",
    "eigen_ros/src/odometry.cpp", "eigen_ros/src/pose.cpp", "eigen_ros/src/sensor_msgs.cpp",
    "eigen_ros/src/statistics_msgs.cpp", "eigen_ros/src/std_msgs.cpp", "eigen_ros/src/twist.cpp",
    "imu_tools/src/imu_analysis.cpp", "imu_tools/src/imu_transform.cpp",
    "navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/integrate_imu.cpp",
    "navigation_tools/src/odometry_to_tf.cpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp",
    "pointcloud_tools/src/point_types.cpp", "pointcloud_tools/src/pointcloud_analyser.cpp",
    "pointcloud_tools/src/pointcloud_file_converter.cpp", "serpent/src/back_end/graph_manager.cpp",
    "serpent/src/back_end/optimisation.cpp", "serpent/src/front_end/frontend.cpp",
    "serpent/src/front_end/lidar/point_types.cpp", "serpent/src/front_end/lidar/pointcloud_add_unit_vectors.cpp",
    "serpent/src/front_end/lidar/pointcloud_filter.cpp", "serpent/src/front_end/lidar/pointcloud_formatter.cpp",
    "serpent/src/front_end/lidar/registration_covariance.cpp", "serpent/src/front_end/lidar/registration_methods.cpp",
    "serpent/src/front_end/stereo/match_filters.cpp", "serpent/src/front_end/stereo/sensor_point_types.cpp",
    "serpent/src/front_end/stereo/stereo_cost_functions.cpp", "serpent/src/front_end/stereo/stereo_factor_finder.cpp",
    "serpent/src/front_end/stereo/stereo_feature_tracker.cpp",
    "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp", "serpent/src/front_end/stereo/window_functions.cpp",
    "serpent/src/utils/ros_conversion.cpp", "serpent/src/utils/utilities.cpp",
}

FP = "floating-point comparisons use tolerances scaled to the magnitude of the generated values"
SHIM = "ROS is replaced by in-process stand-ins (shim/); message definitions not in /repo are written from the ROS 1 ones"

MUTEX = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock"]  # see lib/mutex_use.hpp

SPECS = {
    "P01": dict(assumptions=[FP]),
    "P02": dict(assumptions=[FP]),
    "P03": dict(assumptions=[FP]),
    "P05": dict(scale=10, sources=["eigen_ros/src/*"], libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P06": dict(scale=8, sources=["eigen_ros/src/*"], libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P07": dict(scale=10, sources=["eigen_ros/src/*", "imu_tools/src/*"], libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P08": dict(scale=6, sources=["pointcloud_tools/src/pclpointcloud2_utilities.cpp"], libs=["pcl"], ros=True, assumptions=[SHIM]),
    "P09": dict(scale=20, sources=["pointcloud_tools/src/pclpointcloud2_utilities.cpp", "pointcloud_tools/src/pointcloud_analyser.cpp"],
                libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P10": dict(scale=20, sources=["pointcloud_tools/src/pclpointcloud2_utilities.cpp"], libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P11": dict(scale=8, sources=["pointcloud_tools/src/point_types.cpp"], libs=["pcl"], assumptions=[FP]),
    "P12": dict(scale=8, sources=["pointcloud_tools/src/point_types.cpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp",
                         "eigen_ros/src/*"], libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P13": dict(scale=10, sources=["pointcloud_tools/src/point_types.cpp",
                         "serpent/src/front_end/lidar/registration_covariance.cpp"], libs=["pcl"], assumptions=[FP]),
    "P14": dict(scale=4, opt="-O0", sources=["pointcloud_tools/src/point_types.cpp",
                         "serpent/src/front_end/lidar/registration_covariance.cpp"], libs=["pcl"], assumptions=[FP]),
    "P15": dict(scale=5, assumptions=[FP]),
    "P16": dict(scale=4, sources=["serpent/src/front_end/stereo/window_functions.cpp",
                         "serpent/src/front_end/stereo/stereo_cost_functions.cpp"], libs=["opencv"], assumptions=[FP]),
    "P17": dict(scale=20, sources=["serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp",
                         "serpent/src/front_end/stereo/window_functions.cpp",
                         "serpent/src/front_end/stereo/stereo_cost_functions.cpp"], libs=["opencv"], assumptions=[FP]),
    "P18": dict(scale=4, sources=["serpent/src/front_end/stereo/match_filters.cpp"], libs=["opencv"], assumptions=[FP]),
    "P19": dict(link_flags=MUTEX, scale=4, sources=["serpent/src/front_end/stereo/*", "eigen_ros/src/*", "pointcloud_tools/src/pclpointcloud2_utilities.cpp"], libs=["pcl", "opencv"], ros=True, assumptions=[FP, SHIM]),
    "P23": dict(scale=2, sources=["serpent/src/front_end/lidar/pointcloud_add_unit_vectors.cpp", "serpent/src/front_end/lidar/pointcloud_filter.cpp", "serpent/src/front_end/lidar/pointcloud_formatter.cpp", "serpent/src/front_end/stereo/sensor_point_types.cpp", "eigen_ros/src/*", "pointcloud_tools/src/pclpointcloud2_utilities.cpp", "pointcloud_tools/src/point_types.cpp"], libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P22": dict(link_flags=MUTEX, scale=5, case_timeout=20, sources=["serpent/src/front_end/frontend.cpp", "serpent/src/utils/*", "eigen_ros/src/*", "eigen_gtsam/src/*", "pointcloud_tools/src/pclpointcloud2_utilities.cpp"], libs=["pcl", "gtsam"], ros=True, assumptions=[FP, SHIM]),
    "P21": dict(link_flags=MUTEX, scale=4, case_timeout=20, sources=["serpent/src/back_end/*", "serpent/src/utils/*", "eigen_ros/src/*", "eigen_gtsam/src/*"], libs=["pcl", "gtsam"], ros=True, assumptions=[FP, SHIM]),
    "P20": dict(scale=5, sources=["serpent/src/back_end/graph_manager.cpp"], libs=["gtsam"], ros=True, assumptions=[FP, SHIM]),
    "P29": dict(link_flags=MUTEX, scale=10, sources=["serpent/src/utils/*", "eigen_ros/src/*"], libs=["gtsam"], ros=True, assumptions=[FP, SHIM]),
    "P24": dict(link_flags=MUTEX, scale=8, flags=["-fno-sanitize=signed-integer-overflow"], sources=["eigen_ros/src/*", "pointcloud_tools/src/pclpointcloud2_utilities.cpp", "pointcloud_tools/src/point_types.cpp"], libs=["pcl"], ros=True, assumptions=[FP, SHIM]),
    "P25": dict(scale=4, sources=["camera_tools/src/*"], libs=["pcl", "opencv"], ros=True, assumptions=[FP, SHIM]),
    "P26": dict(scale=4, sources=["navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/integrate_imu.cpp", "navigation_tools/src/odometry_to_tf.cpp", "eigen_ros/src/*", "eigen_gtsam/src/*"], libs=["pcl", "gtsam"], ros=True, assumptions=[FP, SHIM]),
    "P30": dict(link_flags=MUTEX, scale=20, case_timeout=20, sources=["serpent/src/front_end/lidar/registration_methods.cpp", "serpent/src/front_end/lidar/registration_covariance.cpp", "serpent/src/utils/*", "eigen_ros/src/*", "pointcloud_tools/src/pclpointcloud2_utilities.cpp", "pointcloud_tools/src/point_types.cpp"], libs=["pcl", "gtsam"], ros=True, assumptions=[FP, SHIM, "fast_gicp is replaced by a stand-in with its configuration surface that aligns by PCL's ICP"]),
    "P28": dict(scale=20, sources=["pointcloud_tools/src/pointcloud_file_converter.cpp"], libs=["pcl"], ros=True, assumptions=[SHIM, "files are written by the installed PCL 1.14"]),
    "P27": dict(kind="python", harness="p27.py", assumptions=["rospy, rosbag and genpy are replaced by in-memory stand-ins with their documented behaviour"]),
    "P04": dict(sources=["eigen_gtsam/src/geometry.cpp"], libs=["gtsam"], assumptions=[FP]),
    "P31": dict(sources=["serpent/src/*", "eigen_ros/src/*", "eigen_gtsam/src/*", "pointcloud_tools/src/pclpointcloud2_utilities.cpp",
                         "pointcloud_tools/src/point_types.cpp"],
                mains=[("serpent/src/nodes/node.cpp", "serpent_node_main"), ("serpent/src/nodes/frontend_node.cpp", "serpent_frontend_main"),
                       ("serpent/src/nodes/backend_node.cpp", "serpent_backend_main"),
                       ("serpent/src/nodes/stereo_pipeline_node.cpp", "serpent_stereo_pipeline_main")],
                link_flags=["-Wl,-z,muldefs"] + MUTEX, libs=["pcl", "gtsam", "opencv"], ros=True, case_timeout=120,
                assumptions=[FP, SHIM]),
    "P32": dict(sources=["serpent/src/*", "eigen_ros/src/*", "eigen_gtsam/src/*", "pointcloud_tools/src/pclpointcloud2_utilities.cpp",
                         "pointcloud_tools/src/point_types.cpp"],
                mains=[("serpent/src/nodes/node.cpp", "serpent_node_main"), ("serpent/src/nodes/frontend_node.cpp", "serpent_frontend_main"),
                       ("serpent/src/nodes/backend_node.cpp", "serpent_backend_main"),
                       ("serpent/src/nodes/stereo_pipeline_node.cpp", "serpent_stereo_pipeline_main")],
                link_flags=["-Wl,-z,muldefs"] + MUTEX + ["-ldl"], libs=["pcl", "gtsam", "opencv"], ros=True, case_timeout=240,
                sanitizer="thread",
                technique="property-based testing: generated drives, configurations and callback schedules; the oracle is a happens-before "
                          "analysis (thread sanitizer with one logical thread per subscription, all on one real thread)",
                assumptions=[SHIM, "accesses inside the installed libraries (PCL, GTSAM, OpenCV) are not observed, except through functions that the sanitizer intercepts"]),
}

NOT_APPLICABLE = {}
