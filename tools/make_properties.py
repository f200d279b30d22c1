#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os
import sys

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


EE = "eigen_ext/include/eigen_ext/"
PT = "pointcloud_tools/include/pointcloud_tools/"
SL = "serpent/include/serpent/front_end/lidar/"
SS = "serpent/include/serpent/front_end/stereo/"

prop("P01", "Rigid transforms compose, invert and change frame consistently",
     "For any rigid transforms, the relative-transform, frame-change, transform-building, compact-transform and "
     "linear-rate helpers agree with matrix algebra: recomposing a relative transform restores the pose, and "
     "changing frame there and back is the identity. A transform built from a rotation vector and a translation "
     "(zero and tiny rotations included) acts like its 4x4 matrix, and rates are displacement and rotation vector "
     "over the time step. Cartesian-to-polar conversion gives a range, an azimuth between 0 and 2 pi and an "
     "inclination that convert back to the same point, and rejects points on the vertical axis.",
     ["inputs"], "all rigid transforms (any rotation angle up to pi, translations over many magnitudes), rotation "
     "vectors including zero and tiny ones, time steps and non-axis points",
     "Existing tests fix two or three hand-picked transforms; a wrong side, transpose or small-angle branch shows only "
     "on other rotations.",
     [EE + "geometry.hpp", EE + "precomputed_transform_components.hpp"],
     [("relative_transform / change_relative_transform_frame / to_transform / linear_rates", EE + "geometry.hpp"),
      ("PrecomputedTransformComponents", EE + "precomputed_transform_components.hpp"),
      ("cartesian_to_polar", EE + "geometry.hpp")])

prop("P02", "Twists and covariances move between frames by the exact adjoint",
     "Changing the frame of a six-dimensional twist or transform covariance uses the adjoint of the same rigid "
     "transform: conjugating a small motion by the transform gives the adjoint times the motion, adjoints of composed "
     "transforms multiply, and adjoints of inverses invert. Covariances stay symmetric positive semi-definite, return "
     "to themselves when moved back, and composing two uncertain transforms or rotating a point covariance matches "
     "first-order propagation.",
     ["inputs"], "all rigid transforms, twists and positive semi-definite covariances",
     "Tests check single numeric cases; a swapped rotation/translation block or missing transpose cancels in "
     "symmetric or axis-aligned examples.",
     [EE + "geometry.hpp", EE + "covariance.hpp"],
     [("transform_adjoint / change_covariance_frame / compose_transform_covariance / change_twist_reference_frame /"
       " rotate_point_covariance", EE + "geometry.hpp")])

prop("P03", "Covariance checks, reordering and matrix helpers keep their contracts",
     "A matrix is accepted as a valid covariance exactly when it is finite, symmetric within the given precision "
     "and positive definite; block reordering swaps the two groups of variables in rows and columns, is undone by "
     "reordering at the complementary boundary and rejects boundaries outside the matrix. Skew-symmetric "
     "construction, extraction (rejecting non-skew input), linear interpolation and extrapolation, and zero-safe "
     "normalisation agree with their mathematical definitions.",
     ["inputs"], "all matrices (including nearly symmetric, indefinite, non-finite), all block boundaries, vectors and "
     "interpolation ranges",
     "Acceptance depends on tolerances and on every entry of the matrix; tests look at a few fixed matrices.",
     [EE + "covariance.hpp", EE + "matrix.hpp", EE + "geometry.hpp"],
     [("is_valid_covariance / reorder_covariance", EE + "covariance.hpp"),
      ("is_symmetric / is_positive_definite / linear_interpolate / from_skew_symmetric", EE + "matrix.hpp")])

prop("P04", "Poses survive conversion between Eigen and GTSAM unchanged",
     "Converting a pose, rotation or point between the geometry library's and the factor-graph library's "
     "representations and back gives the same rigid transform, and the two representations act identically on every "
     "point and compose identically. The covariance ordering (rotation before translation) is the same on both sides.",
     ["inputs"], "all rigid transforms and vectors",
     "There are no tests of this conversion at all; an inverse or transpose agrees on identity and 180-degree poses.",
     ["eigen_gtsam/include/eigen_gtsam/eigen_gtsam.hpp", "eigen_gtsam/include/eigen_gtsam/geometry.hpp",
      "eigen_gtsam/src/geometry.cpp"],
     [("to_eigen / to_gtsam", "eigen_gtsam/src/geometry.cpp")])

prop("P05", "Robot messages round-trip through the internal geometry types",
     "Converting any pose, twist, odometry, transform, vector, quaternion, matrix, IMU or covariance message to the "
     "internal types and back reproduces every value, timestamp and frame, with the message's "
     "translation-first covariance mapped to and from the internal rotation-first order. Applying a transform to a "
     "pose equals composing the rigid transforms and moving its covariance to the new frame, and malformed "
     "covariance messages (wrong size or not square) are rejected.",
     ["inputs"], "all message values with valid quaternions and arbitrary covariances, timestamps and frame ids; all "
     "covariance dimensions",
     "Round trips are tested on one constructed instance with special covariances, which cannot tell the two "
     "orders of every block apart.",
     ["eigen_ros/src/geometry_msgs.cpp", "eigen_ros/src/pose.cpp", "eigen_ros/src/twist.cpp",
      "eigen_ros/src/odometry.cpp", "eigen_ros/src/imu.cpp", "eigen_ros/src/statistics_msgs.cpp",
      "eigen_ros/src/nav_msgs.cpp", "eigen_ros/src/sensor_msgs.cpp", "eigen_ros/src/std_msgs.cpp"],
     [("to_ros / from_ros", "eigen_ros/src/*.cpp"), ("apply_transform", "eigen_ros/src/pose.cpp")])

prop("P06", "The body-frame tree answers every frame query consistently",
     "For any configured set of sensor frames (nested, with aliases, looked up or dynamic), body-to-frame and "
     "frame-to-body transforms are mutually inverse, frame-to-frame queries equal their composition through the "
     "body frame, frame ids and aliases resolve to the frame they name, and dynamic frames are looked up at the "
     "requested time. Duplicate or unknown names and malformed configuration (incomplete rotations, dynamic frames "
     "with fixed settings) are rejected. Every static frame that was configured rather than looked up, and every "
     "alias, is broadcast exactly once with the same values and frame names, and the lookup service gives the same "
     "answers.",
     ["configurations", "histories"], "all sequences of frame and alias additions, parameter-server configurations and "
     "queries",
     "The tests have no body-frame case; consistency must hold over every pair of frames of every configuration.",
     ["eigen_ros/include/eigen_ros/body_frames.hpp", "eigen_ros/src/body_frames.cpp",
      "eigen_ros/src/body_frames_tf.cpp"],
     [("BodyFrames", "eigen_ros/src/body_frames.cpp"), ("BodyFramesTf", "eigen_ros/src/body_frames_tf.cpp")])

prop("P07", "IMU measurements change frame and interpolate by rigid-body kinematics",
     "Re-expressing an IMU measurement in another sensor frame rotates its angular velocity, acceleration and "
     "their covariances into that frame and composes the orientation with the frame's rotation, and is undone by "
     "the inverse. Interpolating between two measurements reproduces the end points, gives linear rates and "
     "spherical orientation in between, takes covariances and frame of the nearer one, keeps an unknown "
     "orientation unknown and rejects times outside the interval. The transform node rotates only the orientation "
     "by the configured rotation and optionally renames the frame; the analysis node broadcasts the measured and "
     "the additionally rotated orientation with the message's time.",
     ["inputs", "histories"], "all IMU measurements, frames and interpolation times, including equal timestamps",
     "One interpolation mid-point is tested; boundaries, unknown orientations and rotated covariances are not.",
     ["eigen_ros/src/imu.cpp", "eigen_ros/include/eigen_ros/imu.hpp", "imu_tools/src/imu_transform.cpp",
      "imu_tools/src/imu_analysis.cpp"],
     [("Imu::change_frame / interpolate", "eigen_ros/src/imu.cpp"),
      ("ImuTransform / ImuAnalysis", "imu_tools/src/")])

prop("P08", "Field edits of packed point clouds never disturb other fields",
     "Adding fields (including computed unit vectors), renaming, casting (optionally with a scale), scaling or writing a "
     "field, and resizing a packed point cloud preserve every value of every untouched field of every remaining point, "
     "keep the layout description (offsets, point size, row size, dimensions) consistent with the data and free of "
     "overlaps, keep the header, and give the new or changed field exactly the requested values. Missing fields, "
     "accessors of the wrong type and casts between types of different size are rejected without changing the cloud, and "
     "nothing outside the buffer is touched.",
     ["inputs", "histories"], "all cloud layouts (field order, types, counts, padding, organised or not, empty) and "
     "all sequences of such edits",
     "Tests use one or two fixed layouts without padding; corruption depends on layout, type widths and order of "
     "operations.",
     [PT + "pclpointcloud2_utilities.hpp", PT + "impl/pclpointcloud2_utilities.hpp",
      "pointcloud_tools/src/pclpointcloud2_utilities.cpp"],
     [("add_fields / add_unit_vectors / resize / scale_field / change_field_name",
       "pointcloud_tools/src/pclpointcloud2_utilities.cpp"),
      ("cast_field / cast_field_with_scale / create_get_field_data_function / create_set_field_data_function",
       PT + "impl/pclpointcloud2_utilities.hpp")])

prop("P09", "Cloud filters and statistics equal their per-point definition",
     "Filtering a packed cloud by an upper bound on a field keeps exactly the points whose value is at most the bound, in "
     "order and bit-identical (a NaN never passes). The minimum, maximum, sum, mean, population variance and standard "
     "deviation of a field, the textual report, the unit vectors and polar coordinates of the points, the count of "
     "unnormalised normals and the statistics published by the analysis node equal the values computed point by point from "
     "the cloud's own data, and statistics of an empty cloud are refused.",
     ["inputs"], "all clouds, fields of every numeric type, bounds and empty results",
     "The definition must hold for all values and types; tests compute a few numbers on one cloud.",
     ["pointcloud_tools/src/pclpointcloud2_utilities.cpp", PT + "impl/pclpointcloud2_utilities.hpp",
      "pointcloud_tools/src/pointcloud_analyser.cpp"],
     [("filter_max / min / max / mean / variance / unit_vectors / polar_coordinates", PT + "impl/pclpointcloud2_utilities.hpp"),
      ("PointcloudAnalyser::analyse", "pointcloud_tools/src/pointcloud_analyser.cpp")])

prop("P10", "Deskewing moves each point to where it was at the requested time",
     "Given the sensor's rigid motion over a sweep, deskewing a cloud to any time maps every point, captured at its own "
     "time offset with motion interpolated at constant velocity (translation linearly, rotation about a fixed axis), to "
     "its position in the sensor frame at that time, sets the cloud's timestamp to the new time and, when the sensor "
     "moved, the points' time offsets to zero, and leaves the layout and all other fields unchanged. A motionless sensor "
     "leaves the points in place; for a moving one, a cloud without the required fields or a non-positive duration is "
     "rejected.",
     ["inputs"], "all motions, sweep durations, new times (before, within and after the sweep) and clouds",
     "Correctness couples every point's time with interpolation and frame algebra; the tests do not deskew.",
     ["pointcloud_tools/src/pclpointcloud2_utilities.cpp", PT + "pclpointcloud2_utilities.hpp"],
     [("deskew", "pointcloud_tools/src/pclpointcloud2_utilities.cpp")])

prop("P11", "Typed cloud transforms act rigidly on positions, normals and covariances",
     "Transforming a cloud applies the rigid transform to positions, only its rotation to normals and unit vectors, and "
     "rotation on both sides to per-point covariances, for every supported point type; all remaining fields, the "
     "order, size, header and density flag are kept, and non-finite points of non-dense clouds are left untouched. "
     "The result is the same in place or out of place, composes like the transforms, and is undone by the inverse.",
     ["inputs"], "all rigid transforms and clouds of every supported point type, with and without non-finite points",
     "Tests transform a two-point cloud of one type with one transform.",
     [PT + "pclpointcloud_transform.hpp", PT + "impl/pclpointcloud_transform.hpp", PT + "point_types.hpp",
      "pointcloud_tools/src/point_types.cpp", SL + "transform_pointcloud.hpp", SL + "transform_pointcloud-inl.hpp"],
     [("transform_pointcloud", PT + "impl/pclpointcloud_transform.hpp"),
      ("transform_pointcloud dispatch", SL + "transform_pointcloud-inl.hpp"),
      ("point type conversions", PT + "point_types.hpp")])

prop("P12", "Registration correspondences and cloud distances equal brute force",
     "For any source and target clouds, the correspondences computed after registration pair each registered "
     "source point with its nearest target point within the maximum distance (with reciprocal matching: each "
     "target point with its nearest registered source point) and refer to points of the original clouds. The "
     "point-to-nearest-point distances written by the comparison tool equal those of exhaustive search.",
     ["inputs", "configurations"], "all pairs of clouds, alignment transforms, maximum distances and reciprocal settings",
     "Nearest-neighbour pairing depends on all points together; tests do not cover it.",
     [PT + "impl/registration_utilities.hpp", PT + "impl/compute_distances.hpp",
      PT + "impl/pclpointcloud_utilities.hpp"],
     [("compute_registration_correspondences", PT + "impl/registration_utilities.hpp"),
      ("compute_distances", PT + "impl/compute_distances.hpp"),
      ("correspondence subset helpers", PT + "impl/pclpointcloud_utilities.hpp")])

prop("P13", "Registration-cost derivatives are the true derivatives",
     "For both point-to-point and point-to-plane costs, in nonlinear and linearised form, the closed-form second "
     "derivatives with respect to the pose, and with respect to the pose and the measured source and target "
     "points, equal the derivatives of the stated cost at any rotation, translation, point pair and normal. The "
     "pose Hessian is symmetric and uses the documented rotation-then-translation order.",
     ["inputs"], "all rotation vectors (including near-zero ones), translations, point pairs and normals",
     "The expressions are thousands of machine-generated terms; a wrong sign or index in one term escapes any few "
     "fixed data points.",
     [SL + "registration_covariance.hpp", SL + "registration_covariance-inl.hpp"],
     [("derivative blocks of the cost functions", SL + "registration_covariance-inl.hpp"),
      ("precomputed transform terms", EE + "precomputed_transform_components.hpp")])

prop("P14", "Registration covariances are assembled from all correspondences",
     "Each registration-covariance method combines the per-correspondence derivatives of exactly the supplied "
     "correspondences by its published formula (constant, linearised least squares, or Censi with point, range or "
     "range-and-bias noise), giving a finite symmetric positive semi-definite matrix that does not depend on the "
     "order of correspondences. With range-and-bias noise, all measurements share the bias variance along their "
     "unit vectors and each adds its own range variance. Method and noise-model names convert to options and back, "
     "and unknown names are rejected.",
     ["inputs", "configurations"], "all correspondence sets, aligned cloud pairs, noise parameters and option names",
     "Assembly errors (dropped correspondence, transposed block, wrong index) need varied correspondence sets.",
     [SL + "registration_covariance.hpp", SL + "registration_covariance-inl.hpp",
      "serpent/src/front_end/lidar/registration_covariance.cpp"],
     [("estimate_registration_covariance and enum conversions", SL + "registration_covariance-inl.hpp")])

prop("P15", "Stereo projection and back-projection are mutually inverse",
     "Back-projecting a stereo observation with positive disparity gives the three-dimensional point whose projection "
     "in both rectified cameras is that observation, and projecting any point in front of the cameras and "
     "back-projecting restores it, for any focal length, baseline and principal point. Depth equals focal length "
     "times baseline over disparity.",
     ["inputs"], "all calibrations, image points with positive disparity, and points in front of the camera",
     "The relation must hold for every calibration and point; there is no test.",
     [SS + "stereo_equations.hpp", SS + "stereo_equations-inl.hpp"],
     [("stereo_backproject / stereo_project", SS + "stereo_equations-inl.hpp")])

prop("P16", "Window costs equal their definition over the image windows",
     "Every stereo matching cost (absolute or squared differences, zero-mean, locally scaled and normalised cross- "
     "correlation variants) and the window sums and means equal the textbook formula over exactly the window's "
     "pixels, are independent of anything outside it, and are minimal for identical windows. Windows that leave "
     "the image are recognised as such, and images that are not 8-bit single-channel are rejected.",
     ["inputs"], "all images, window sizes and positions, and all cost functions",
     "Integer window arithmetic depends on every pixel; uninitialised or overflowing sums appear only on some inputs.",
     [SS + "stereo_cost_functions.hpp", SS + "window_functions.hpp",
      "serpent/src/front_end/stereo/stereo_cost_functions.cpp", "serpent/src/front_end/stereo/window_functions.cpp"],
     [("cost functions", "serpent/src/front_end/stereo/stereo_cost_functions.cpp"),
      ("window functions", "serpent/src/front_end/stereo/window_functions.cpp")])

prop("P17", "Stereo keypoint matching returns the best admissible candidate",
     "For each keypoint the matcher returns the candidate with the lowest cost among exactly those on the correct "
     "side, within the vertical tolerance and with a window inside the image (or among all positions along the "
     "scan line), together with that cost, and reports no match when none is admissible. With the ratio test a "
     "match is kept only if its cost is below the stated fraction of the second-best cost or it has no competitor; "
     "with two-way matching only if the reverse search confirms it, so that no two keypoints share a match. "
     "Invalid windows, ratios, filter names and image pairs of different size are rejected.",
     ["inputs", "configurations"], "all image pairs, keypoint sets, and matcher configurations",
     "The result is an arg-min over all candidates under combinations of constraints; tests cannot sample these.",
     [SS + "stereo_keypoint_matcher.hpp", "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp"],
     [("StereoKeypointMatcher", SS + "stereo_keypoint_matcher.hpp")])

prop("P18", "Match filters keep exactly the matches that satisfy the bound",
     "Each stereo match filter (descriptor distance; left of the other with a bounded vertical offset; stereo "
     "depth within bounds) keeps exactly those matches that satisfy its bound, in their original order and "
     "unmodified, and reports the indices it kept, so that keypoints, matches and track ids stay aligned. "
     "Filtering twice changes nothing more, an empty input gives an empty output, and matches to keypoints that do "
     "not exist are rejected.",
     ["inputs", "configurations"], "all keypoint lists, match lists and thresholds",
     "The bound must hold for every match of every list; there is no filter test.",
     [SS + "match_filters.hpp", "serpent/src/front_end/stereo/match_filters.cpp"],
     [("match filters", "serpent/src/front_end/stereo/match_filters.cpp")])

prop("P19", "Feature tracks keep one identity per physical feature over time",
     "Over any sequence of stereo frames, every reported match pairs one left with one right keypoint under an identity "
     "that is unique in the frame. A feature keeps its identity, and its keypoint attributes, exactly as long as optical "
     "flow finds it in both images and its new positions satisfy the stereo geometry and distance filters; it is reported "
     "at the positions found. Every other reported feature is new: a detection inside the region of interest, farther than "
     "the threshold from all features found by optical flow, stereo-matched below the cost threshold, and it gets the next "
     "identity, never one used before. Statistics describe exactly the processed frame, whatever the statistics object "
     "held before. Image pairs of different sizes are refused without effect. The node publishes, per synchronised stereo "
     "pair, these features with their pixel coordinates, header and calibration, as configured by its parameters, and "
     "on request the statistics and back-projected points; unusable calibration is refused.",
     ["histories", "configurations"], "all image sequences, tracker settings and calls",
     "Identity is a property of whole histories of frames; no test runs the tracker.",
     [SS + "stereo_feature_tracker.hpp", "serpent/src/front_end/stereo/stereo_feature_tracker.cpp",
      SS + "stereo_factor_finder.hpp", "serpent/src/front_end/stereo/stereo_factor_finder.cpp"],
     [("StereoFeatureTracker::process", "serpent/src/front_end/stereo/stereo_feature_tracker.cpp"),
      ("StereoFactorFinder", "serpent/src/front_end/stereo/stereo_factor_finder.cpp")])

prop("P20", "The factor-graph bookkeeping matches a reference ledger",
     "Over any sequence of added poses, velocities, biases, priors, IMU, registration, stereo and barometer factors, "
     "key increments and optimiser updates, the graph store returns for every key exactly the value, timestamp and "
     "factors last recorded for it, hands the optimiser each new factor and value exactly once, and reports absence "
     "truthfully. A stereo feature seen in two successive feature sets becomes a landmark at its back-projected position, "
     "tied to the states at which it was seen even when keys in between have no features; reacquired features are "
     "rejected. Optimised values are those of an optimiser given the same factors. Reading a key or landmark that was "
     "never stored is an error, not garbage.",
     ["histories"], "all sequences of store operations and queries",
     "Bookkeeping errors need particular orders of operations; the tests follow one order.",
     ["serpent/include/serpent/back_end/graph_manager.hpp", "serpent/include/serpent/back_end/graph_manager-inl.hpp",
      "serpent/src/back_end/graph_manager.cpp"],
     [("GraphManager / ISAM2GraphManager", "serpent/src/back_end/graph_manager.cpp")])

prop("P21", "The optimisation back end turns each input into one consistent factor",
     "For every enabled input the back end adds each IMU block, LiDAR transform, stereo set at a state and pressure once, "
     "between the right states, with the configured noises (robust kernels included), optimises a state as soon as IMU, "
     "transform and stereo have reached it, and publishes odometry, biases, predicted LiDAR transform and path with the "
     "optimised states' values, stamps and frames, in any arrival order; without IMU factors velocities come from the poses. "
     "Exact inputs give the true trajectory. Invalid covariances, times and settings are rejected, valid ones accepted; "
     "no callback blocks after shutdown.",
     ["histories", "configurations", "schedules"], "all message sequences and arrival orders within the protocol, and "
     "sensor combinations",
     "Behaviour depends on interleaving of several inputs over many keyframes.",
     ["serpent/src/back_end/optimisation.cpp", "serpent/include/serpent/back_end/optimisation.hpp"],
     [("Optimisation callbacks", "serpent/src/back_end/optimisation.cpp")])

prop("P22", "The front end splits the IMU stream and keyframes exactly",
     "The state of a cloud is the first stereo frame (stamps cut to microseconds) from its start until the next cloud, or "
     "its start. Each state-to-state IMU block holds the measurement in force at its first state and all until the next, in "
     "order, noise overwritten when configured. Each cloud is deskewed to its state by the LiDAR's motion over the sweep "
     "predicted from the last optimised state; IMU-rate odometry, base_link pose and transform, initial odometry, "
     "interpolated pressures and stereo frames passed on agree with state times, biases and frames, in any arrival order.",
     ["histories", "schedules"], "all message sequences and arrival orders within the protocol",
     "Interval boundaries, buffering and frame algebra only show over generated streams; there is no front-end test.",
     ["serpent/src/front_end/frontend.cpp", "serpent/include/serpent/front_end/frontend.hpp"],
     [("Frontend callbacks", "serpent/src/front_end/frontend.cpp")])

prop("P23", "Cloud preprocessing keeps exactly the configured points and values",
     "Formatting an OUSTER cloud casts times from nanoseconds to seconds and ranges from millimetres to metres, a CUSTOM "
     "cloud gets its time field renamed to t when it has none, and optionally points after a time limit and the first "
     "cloud are dropped; all else passes through, in the LiDAR's frame. The filter stage keeps exactly the points left by "
     "the enabled filters in order voxel grid, body (inside removed), range (inside kept), statistical outliers, random "
     "sample. Unit vectors have length one, and normals are the plane fits of the neighbours, facing the sensor.",
     ["inputs", "configurations"], "all clouds of the supported layouts and all filter configurations",
     "Which points survive depends on combinations of settings and values.",
     ["serpent/src/front_end/lidar/pointcloud_formatter.cpp", "serpent/src/front_end/lidar/pointcloud_filter.cpp",
      "serpent/src/front_end/lidar/pointcloud_add_unit_vectors.cpp", SL + "pointcloud_normal_estimation-inl.hpp"],
     [("PointcloudFormatter / PointcloudFilter / AddUnitVectors / NormalEstimation", "serpent/src/front_end/lidar/")])

prop("P24", "The map contains the right frames at their latest optimised poses",
     "A cloud becomes a keyframe exactly when the map is empty or the LiDAR's pose moved or turned beyond the thresholds "
     "since the last keyframe; later path corrections move every stored frame to its corrected pose. The local map is "
     "the union of the configured number of keyframes, the nearest in position or the most recent, in the cloud's own "
     "LiDAR frame at its time; the global map is the union of all in the map frame, and the pose graph all clouds with "
     "their poses. Normals and unit vectors turn along, each voxel filter applies only where it is enabled, and paths "
     "without the cloud's pose and unusable settings are rejected.",
     ["histories", "configurations"], "all sequences of clouds and corrected paths, and map settings",
     "Correctness is about accumulated history under later corrections; there is no mapping test.",
     ["serpent/include/serpent/mapping/mapping.hpp", "serpent/include/serpent/mapping/mapping-inl.hpp"],
     [("Mapping", "serpent/include/serpent/mapping/mapping-inl.hpp")])

prop("P25", "Camera tools transform images and calibration consistently",
     "Rotating an image by a multiple of 90 degrees, flipping it horizontally, vertically or both, or cropping it moves "
     "every pixel to its defined place for every size and pixel type, and the intrinsic calibration follows: image size, "
     "focal lengths and principal point (measured from the image corner) change so that a projected point lands on the "
     "moved pixel. Four quarter turns or two flips are the identity. The splitter publishes for every configured region "
     "the cropped and operated image (flip first, then anticlockwise, then clockwise rotation) and its calibration with "
     "the input timestamp, encoding and the configured frame id. Published stereo calibrations and changed frame ids "
     "equal their configuration and keep timestamps and data. Rotations that are not multiples of 90 degrees, regions "
     "outside the image and malformed configurations are rejected.",
     ["inputs", "configurations"], "all image sizes, encodings, operations sequences and configurations",
     "Pixel-exactness must hold for all sizes and operation sequences; there is no test.",
     ["camera_tools/src/image_operations.cpp", "camera_tools/src/split_image.cpp", "camera_tools/src/publish_info.cpp",
      "camera_tools/src/change_frame_id.cpp"],
     [("image operations", "camera_tools/src/image_operations.cpp"), ("ImageSplitter", "camera_tools/src/split_image.cpp")])

prop("P26", "Navigation tools combine and integrate motion exactly",
     "For every sequence of incremental transforms (of any of the three supported message types), the combined odometry is "
     "the composition of all transforms received so far, stamped like the latest, and the path lists every intermediate "
     "pose once, in order, with its own timestamp. Dead reckoning starts at the configured position, velocity and the "
     "first sample's orientation, integrates every later sample exactly once over the time since the previous sample, "
     "accounts for the sensor's pose in the body, gravity and noise parameters, publishes one odometry (pose, velocity, "
     "covariance, timestamp) and path per sample, and refuses repeated timestamps. Odometry is rebroadcast as the "
     "identical stamped transform between its frames.",
     ["histories", "inputs"], "all message sequences",
     "There are no tests; integration depends on whole sample sequences.",
     ["navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/integrate_imu.cpp",
      "navigation_tools/src/odometry_to_tf.cpp"],
     [("CombineTransforms / IntegrateImu / OdometryToTf", "navigation_tools/src/")])

prop("P27", "The Python tools repair and measure recorded data as documented",
     "The timestamp-repair script copies every message of a bag exactly once, in order, with its topic and record time, "
     "into a new bag, changing only clouds on the configured topic that have no timestamp: these get the previous cloud's "
     "timestamp plus one period. The metrics node publishes, each cycle, the registration variances per axis, the largest "
     "covariance entry and its index, and the distance and rotation angle (between 0 and pi, independent of quaternion "
     "sign) between the last two poses of the path and the last two poses received, with -1 for what it has not received "
     "yet.",
     ["inputs", "histories"], "all recorded trajectories and message sequences",
     "The scripts have no tests; double-cover and boundary errors appear only on particular data.",
     ["snowboard/scripts/repair_ouster_timestamps.py", "serpent/scripts"],
     [("scripts", "serpent/scripts, snowboard/scripts")])

prop("P28", "Saving a cloud to a file and loading it back is lossless",
     "Saving the cloud of a topic and loading the file publishes one message on the requested topic, in the requested "
     "message type, with the requested frame and the time of loading, holding the same points: PCD files keep every "
     "field, type, count, value and the organisation, PLY files every float field, IFS files the coordinates. Saving "
     "again replaces the file. Missing files, unsupported formats, folders and topics without a message within the "
     "timeout are reported as failure, publish nothing and create no file for a topic without a cloud.",
     ["inputs", "histories"], "all clouds, formats, file names, topics, message types and sequences of save and load requests",
     "There is no test of the service; losses depend on values, formats and on what was requested before.",
     ["pointcloud_tools/src/pointcloud_file_converter.cpp"],
     [("PointcloudFileConverter", "pointcloud_tools/src/pointcloud_file_converter.cpp")])

prop("P29", "IMU preintegration covers each interval exactly once",
     "Integrating buffered IMU measurements from any start to any end time holds each measurement until the next one "
     "and clips the first and the last at the interval, so every instant is integrated exactly once and splitting an "
     "interval at any time gives the same motion as integrating it whole; measurements outside the interval, at its "
     "very end or with repeated timestamps change nothing, and buffers that do not cover the start are refused. "
     "Interpolating, removing old measurements, waiting for data, checking required parameters and converting messages follow their "
     "definitions and reject invalid input.",
     ["inputs", "histories"], "all measurement buffers (including repeated timestamps and boundary coincidences), "
     "start and end times",
     "Boundary coincidences and splits need generated times; the test uses one recorded sequence.",
     ["serpent/src/utils/utilities.cpp", "serpent/include/serpent/utils/utilities.hpp",
      "serpent/src/utils/ros_conversion.cpp"],
     [("integrate_imu / interpolate / delete_old_measurements", "serpent/src/utils/utilities.cpp")])

prop("P30", "LiDAR registration publishes the true relative motion of the body",
     "For clouds of a static scene seen from moving poses, the registration node publishes once per cloud after the "
     "first (or once per local map, aligned to that map, when scan-to-map is enabled) the pose of the body at the "
     "cloud's time in the body at the previous one, stamped with the cloud's time in the body frame, with the "
     "covariance of the configured method, model and point noise carried to the body frame in ROS order. Each "
     "registration method receives its configured parameters, and unsupported names and settings are rejected.",
     ["histories", "configurations"], "all scenes, relative motions within the convergence basin, frames and settings",
     "Frame conventions (sensor or body, forward or inverse) agree only on identity calibrations, which are what simple "
     "tests use.",
     [SL + "registration.hpp", SL + "registration-inl.hpp", SL + "registration_methods-inl.hpp",
      "serpent/src/front_end/lidar/registration_methods.cpp"],
     [("Registration", SL + "registration-inl.hpp"), ("registration_method", SL + "registration_methods-inl.hpp")])

prop("P31", "The assembled programs track a robot end to end with the shipped configurations",
     "Given the IMU, LiDAR and pressure messages of a robot moving through a static scene, the serpent program (and the "
     "frontend and backend programs together) publish a path, optimised and IMU-rate odometry, output poses and "
     "transforms, registrations, a map and a pose graph that agree with the true motion, one state per cloud, whatever "
     "the robot's frames, the options chosen, late sensors and the order in which callbacks run, and without stopping or failing. This "
     "holds with every configuration shipped in the repository, and each value in those files is read by the programs "
     "when the options it applies to are chosen.",
     ["histories", "schedules", "configurations"], "all smooth motions, frame layouts, option combinations and callback interleavings",
     "Each module can honour its own contract while conventions, topics, parameter names or waits between modules disagree; "
     "only the whole system over many motions and interleavings shows it, and no test starts the programs.",
     ["serpent/src/nodes/node.cpp", "serpent/src/nodes/frontend_node.cpp", "serpent/src/nodes/backend_node.cpp",
      "serpent/src/front_end/frontend.cpp", "serpent/src/back_end/optimisation.cpp", "serpent/config/tuning_default.yaml"],
     [("main", "serpent/src/nodes/node.cpp"), ("Frontend", "serpent/src/front_end/frontend.cpp"), ("Optimisation", "serpent/src/back_end/optimisation.cpp")])

prop("P32", "Callbacks that may run at the same time do not race",
     "With any number of spinner threads, any two accesses that callbacks of the assembled program (IMU, pressure, images, "
     "clouds, transforms, optimised odometry, maps, and the map and pose graph services) make to the same data, one of them "
     "a write, are ordered by a lock or by publishing and receiving a message. Locks are taken in one order, released by the "
     "callback that took them, and a message is not changed after it has been published. This holds for every "
     "configuration, with and without stereo, registration and IMU factors, and for every interleaving.",
     ["schedules", "histories", "configurations"], "all interleavings of the callbacks of the program over generated drives and configurations",
     "A race is a property of the schedules that did not happen as much as of the one that did; no test runs two callbacks.",
     ["serpent/src/nodes/node.cpp", "serpent/src/front_end/frontend.cpp", "serpent/src/back_end/optimisation.cpp",
      "serpent/include/serpent/mapping/mapping-inl.hpp", "serpent/include/serpent/front_end/lidar/registration-inl.hpp",
      "serpent/src/front_end/stereo/stereo_factor_finder.cpp"],
     [("main", "serpent/src/nodes/node.cpp"), ("Frontend", "serpent/src/front_end/frontend.cpp"),
      ("Optimisation", "serpent/src/back_end/optimisation.cpp"), ("Mapping", "serpent/include/serpent/mapping/mapping-inl.hpp")])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
