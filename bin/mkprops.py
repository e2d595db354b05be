#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

EXT = "eigen_ext/include/eigen_ext/"
p("P01", "Rigid transforms, twists and rates obey one frame convention",
  "For every pair of poses, the relative transform composed onto the first pose gives the second, changing the reference frame of a relative motion gives the motion the other rigidly attached frame undergoes (and changing back restores it), and the 6x6 adjoint maps twists ordered [angular, linear] between frames and respects composition and inverse. Constant rates computed over dt > 0, applied for dt, reproduce the second pose in the first pose's frame, and dt <= 0 is refused. Building a transform from translation and rotation, and converting between vectors and skew-symmetric, polar, axis-angle and interpolated forms, loses nothing and refuses inputs that have no such form.",
  ["inputs"], "every rotation (including identity, tiny and half-turn rotations), every finite translation and every dt",
  "the tests check a handful of fixed poses, mostly with identity on one side; rotations near 0 and pi, round trips and the twist map are never exercised",
  [EXT+"geometry.hpp", EXT+"matrix.hpp", EXT+"precomputed_transform_components.hpp"],
  [("relative transform, frame change, adjoint, linear rates, polar conversion", EXT+"geometry.hpp"), ("skew-symmetric, interpolation, normalisation", EXT+"matrix.hpp"), ("precomputed rotation vector / matrix / angle", EXT+"precomputed_transform_components.hpp")])
p("P02", "Uncertainty propagation is exact and validity checks mean what they say",
  "For every covariance and transform: re-ordering moves each (row, column) entry to the place given by swapping the two blocks and swapping back restores the original; changing the frame multiplies by the adjoint on both sides; composing with a relative motion gives adj(T^-1) P adj(T^-1)^T + Q plus the cross terms; rotating a point covariance gives R C R^T. A matrix is accepted as a valid covariance exactly when all entries are finite, it is square, symmetric within the given precision and positive definite. Out-of-range block boundaries are refused.",
  ["inputs"], "every 3x3 and 6x6 matrix, block boundary, precision and transform",
  "tests use one or two matrices, only valid ones for the validity check and an identity transform for frame change; composition with a previous covariance or cross covariance is never run",
  [EXT+"covariance.hpp", EXT+"matrix.hpp", EXT+"geometry.hpp"],
  [("reorder / validity", EXT+"covariance.hpp"), ("positive definite / symmetric", EXT+"matrix.hpp"), ("compose, change frame, rotate", EXT+"geometry.hpp")])
p("P03", "IMU samples are moved between frames and interpolated consistently",
  "For every IMU sample and rotation, changing frame rotates the angular velocity, acceleration and their covariances into the new frame and the orientation and its covariance the matching way, an unknown (zero) orientation stays unknown, and changing back restores the sample. Interpolating at any instant between two samples gives the time-weighted linear combination of angular rate and acceleration and the shortest-arc interpolation of orientation (unknown if either is unknown), stamped with that instant, with the covariances and frame of the nearer sample; instants outside the interval are refused. Roll, pitch and yaw compose back to the orientation, and the IMU rotation node rotates the orientation and nothing else.",
  ["inputs"], "every pair of IMU samples, every rotation, every interpolation time",
  "the tests need ROS, do not run here, and try one sample each",
  ["eigen_ros/src/imu.cpp", "eigen_ros/include/eigen_ros/imu.hpp", "imu_tools/src/imu_transform.cpp"],
  [("change frame / interpolate", "eigen_ros/src/imu.cpp"), ("rotation node", "imu_tools/src/imu_transform.cpp")])
p("P04", "The body-frame tree answers every frame-to-frame query consistently",
  "For every configured tree of named frames (nested parents, frame ids, aliases, frames looked up once, dynamic frames), the transform reported between any two frames equals the composition of the edges between them (a dynamic frame's at the requested time) and is the inverse of the reverse query. Unknown frames are refused and never answered with a made-up transform; repeated names, ids or aliases, more than one root and inconsistent settings are refused at configuration. The static broadcast contains each fixed frame and alias exactly once and no looked-up or dynamic frame, and the lookup service answers like a direct query.",
  ["inputs", "configurations", "histories"], "every frame-tree configuration, query and query time",
  "there is no test of the frame tree at all",
  ["eigen_ros/src/body_frames.cpp", "eigen_ros/include/eigen_ros/body_frames.hpp", "eigen_ros/src/body_frames_tf.cpp"],
  [("frame tree", "eigen_ros/src/body_frames.cpp"), ("broadcast and lookup service", "eigen_ros/src/body_frames_tf.cpp")])
p("P05", "Conversions to and from message and graph types preserve the value",
  "Converting any pose, twist, odometry, IMU sample, transform, quaternion, matrix, covariance or bias to its message or graph-library type and back yields the same value, with every field, frame name, stamp and covariance entry in its place (message covariances are ordered [translation, rotation]), whatever the message held before. Messages whose sizes do not fit are refused, and two values compare equal exactly when no part differs.",
  ["inputs"], "every convertible value",
  "the round-trip tests need ROS, do not run here, and use one instance per type",
  ["eigen_ros/src/geometry_msgs.cpp", "eigen_ros/src/sensor_msgs.cpp", "eigen_ros/src/nav_msgs.cpp", "eigen_ros/src/statistics_msgs.cpp", "eigen_ros/include/eigen_ros/std_msgs.hpp", "eigen_gtsam/src/geometry.cpp", "serpent/src/utils/ros_conversion.cpp"],
  [("to_ros / from_ros", "eigen_ros/src"), ("to_gtsam / to_eigen", "eigen_gtsam/src/geometry.cpp")])
U2 = ["pointcloud_tools/src/pclpointcloud2_utilities.cpp", "pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp", "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp"]
p("P06", "Editing the fields of a binary cloud leaves every other value untouched",
  "Adding fields, renaming a field, casting a field to another type of the same size (with or without a scale) or resizing a binary point cloud changes exactly what was requested: every other field keeps its name, type, count and per-point value, the point count is kept (or becomes the requested one), and the layout that results is consistent (fields do not overlap, point step, row step and data size agree). Requests naming absent fields are refused without modifying the cloud, and casting a field to the type it already has changes nothing.",
  ["inputs", "histories"], "every field layout (order, padding, counts, types; rows without padding), cloud size and sequence of edits",
  "the tests need ROS message headers, do not run here, and use one layout",
  U2, [("field editing", U2[2])])
p("P07", "Typed field access, scaling and statistics are value-exact",
  "Reading or writing a single-valued field of a binary cloud through its type gives the stored value at the right point, scaling or casting a field with a scale multiplies each value exactly once, and the minimum, maximum, sum, mean, variance, nearest/farthest and unit-direction summaries equal those of the list of values. Type mismatches, absent fields and extrema of an empty cloud are refused.",
  ["inputs"], "every field type, requested type, offset and cloud content", "tests do not run here and use one cloud",
  U2, [("field access and statistics", U2[2])])
p("P08", "Range, voxel, body, outlier and sampling filters keep exactly the points they should",
  "For every cloud, the filter chain passes each cloud through the enabled filters in the order voxel grid, body, range, statistical outliers, random sample, and the last one feeds the output topic: the body filter removes exactly the points inside the configured (moved) box, the range and maximum-value filters keep exactly the points within the closed limits, the outlier filter exactly those whose mean neighbour distance is at most mean plus factor times deviation, and the random sample min(size, points) of them. All of these keep order, fields, header and all bytes of the points they keep; the voxel grid gives one point with the mean of every field for each cell holding enough points. Negative sample sizes or seeds, and clouds without a range field when the range filter is on, are refused.",
  ["inputs", "configurations"], "every cloud, threshold and combination of enabled filters", "the filters have no runnable tests",
  U2 + ["serpent/src/front_end/lidar/pointcloud_filter.cpp"], [("maximum-value filter", U2[2]), ("filter chain", "serpent/src/front_end/lidar/pointcloud_filter.cpp")])
p("P09", "De-skewing moves each point by the motion between its own time and the target",
  "For every cloud and relative motion over a period, de-skewing moves each point by the interpolated motion between the point's own time stamp and the requested reference time, leaves points captured at the reference time where they are, and afterwards every point carries the reference time and the cloud the reference stamp. Every field other than position and time is unchanged.",
  ["inputs"], "every point time, motion, target time, time field type and layout", "no runnable test",
  U2 + ["serpent/src/front_end/frontend.cpp"], [("deskew", U2[2]), ("caller", "serpent/src/front_end/frontend.cpp")])
p("P10", "The cloud formatter normalises sensor clouds without losing points",
  "For every input cloud the formatted cloud contains every input point (those at or before the time limit, when the time filter is on) once, in order, with point times in seconds and ranges in metres (converted once, for sensors that report integers) and every other byte unchanged, the stamp kept and the configured lidar frame id. A custom sensor's time field is renamed t, the first cloud is dropped when configured so, and unknown sensor types and clouds without usable time or range are refused.",
  ["inputs", "configurations", "histories"], "every sensor type, layout and configuration", "no test",
  ["serpent/src/front_end/lidar/pointcloud_formatter.cpp"], [("formatter", "serpent/src/front_end/lidar/pointcloud_formatter.cpp")])
PCT = "pointcloud_tools/include/pointcloud_tools/"
p("P11", "Rigidly transforming a cloud moves points, normals and covariances together",
  "Transforming a cloud by a rigid transform maps every finite point by R p + t, every normal and beam direction by R, and every per-point 3x3 covariance by R C R^T; all other per-point data, the point order, the header and the width and height are preserved, and points marked invalid stay invalid. The result is the same in place or out of place, for matrices and for isometries, on dense and non-dense clouds, and transforming by the inverse restores the cloud. A pose point built from a pose gives that pose back, and counting unnormalised normals and extracting beam directions report exactly those of the cloud.",
  ["inputs"], "every cloud (any size, dense or with invalid points, organised or not), every rigid transform, each supported point type",
  "tests transform a five-point dense cloud by one transform",
  [PCT+"impl/pclpointcloud_transform.hpp", PCT+"impl/pclpointcloud_utilities.hpp", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp", PCT+"point_types.hpp", "pointcloud_tools/src/point_types.cpp"],
  [("transform with normals and covariances", PCT+"impl/pclpointcloud_transform.hpp"), ("choice of transform by point type", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp")])
p("P12", "Registration correspondences are the nearest neighbours of the aligned source",
  "For every pair of clouds and alignment, each source point contributes one correspondence if and only if the closest target point to its aligned position lies within the maximum distance; the reported pair names the source point by its index in the source cloud, the closest target point by its index in the target cloud, and the distance between them. In the reciprocal mode each target point contributes one correspondence under the same condition with the roles exchanged, and only source points taking part are named.",
  ["inputs"], "every source/target cloud, alignment and maximum distance", "tests only use synthetic one-to-one correspondences",
  [PCT+"impl/registration_utilities.hpp"], [("correspondence estimation", PCT+"impl/registration_utilities.hpp")])
RC = "serpent/include/serpent/front_end/lidar/registration_covariance"
p("P13", "Registration covariance equals the closed form of the chosen noise model",
  "For every set of corresponding points, normals and alignment (including none), the registration covariance equals the closed form: for each of the point-to-point and point-to-plane (linearised and non-linear) models it is H^-1 S H^-1 where H is the Hessian of the summed squared residuals at the alignment and S the propagation of the measurement noise through the mixed derivatives (independent per coordinate, along each beam, or with a common range bias); the linear least squares variant is the given variance times H^-1. The result is symmetric, ordered [rotation, translation], scales linearly with the variances, and the number of correspondences used is reported.",
  ["inputs"], "every set of correspondences, alignment, noise level and model", "tests check one small example per model with loosened expectations",
  [RC+"-inl.hpp", RC+".hpp", "serpent/src/front_end/lidar/registration_covariance.cpp"],
  [("Hessians and measurement Jacobians", RC+"-inl.hpp"), ("model selection", "serpent/src/front_end/lidar/registration_covariance.cpp")])
p("P14", "Lidar registration pairs scans, maps and motion guesses consistently",
  "For every order and timing of incoming scans, motion guesses and maps, each consecutive pair of scans yields exactly one scan-to-scan relative motion expressed in the body frame and stamped with the newer scan, each scan refined against a map uses the map extracted for its predecessor, and no scan or map is used twice or skipped.",
  ["schedules", "histories", "inputs"], "every arrival order and every scan/map content", "the node has no test",
  ["serpent/include/serpent/front_end/lidar/registration-inl.hpp", "serpent/include/serpent/front_end/lidar/registration.hpp"],
  [("pairing of messages", "serpent/include/serpent/front_end/lidar/registration-inl.hpp")])
MAP = "serpent/include/serpent/mapping/mapping-inl.hpp"
p("P15", "The map holds one keyframe per sufficiently distant pose and follows corrections",
  "For every history of corrected poses and scans, a scan becomes a keyframe exactly when there is none yet or the pose of the lidar is further than the configured distance or turned more than the configured angle from the latest keyframe (as corrected so far), each keyframe is kept once, in time order, with its scan unchanged, and after every update the stored pose of a keyframe is the latest optimised pose for its time. A scan whose pose is not in the update is refused. The global map is the union of all keyframes' scans in the map frame (through the voxel filter exactly when it is enabled for the global map), and the pose graph lists every keyframe with its latest pose.",
  ["histories", "inputs"], "every history of poses, scans and path updates", "mapping has no test",
  [MAP, "serpent/include/serpent/mapping/mapping.hpp"], [("keyframes", MAP)])
p("P16", "The local map is exactly the chosen keyframes expressed in the current frame",
  "For every scan accepted exactly one local map is published, stamped with the scan and expressed in its lidar frame: the union of the scans of exactly the keyframes selected by the configured rule (the n nearest by position, or the n most recent), each moved - points and normals - by the relative pose between its keyframe's lidar pose and the current lidar pose, through the voxel filter exactly when it is enabled for local maps.",
  ["histories", "configurations"], "every keyframe set, pose and extraction configuration", "mapping has no test",
  [MAP], [("extraction", MAP)])
p("P17", "IMU preintegration covers the requested interval exactly once",
  "For every IMU stream and every interval, preintegration uses each measurement for exactly the part of the interval it is responsible for: the integrated duration equals the interval length, no measurement before or after the interval contributes, and integrating two adjacent intervals is the same as integrating their union. The angular velocity and acceleration used for a part is that of the latest measurement at or before it. A stream with fewer than two measurements or none at or before the start is refused; an end at or before the start contributes nothing; a stream that stops before the end is carried to the end with its last measurement.",
  ["inputs", "histories"], "every set of IMU stamps (including stamps equal to an end point and gaps) and every interval", "no test",
  ["serpent/src/utils/utilities.cpp", "navigation_tools/src/integrate_imu.cpp"], [("integrate", "serpent/src/utils/utilities.cpp")])
p("P18", "The front end cuts the IMU stream into gap-free state intervals",
  "For every interleaving of IMU and lidar messages, every scan yields exactly one state, in time order, stamped with the start of the scan or - when cameras are used - with the first camera frame at or after the start of the scan and before the next scan; the IMU samples handed over for a state are exactly those standing during the interval from the previous state to it (including the last at or before its beginning), so consecutive hand-overs cover the stream without a gap. For every scan one deskewed cloud is published whose points are moved to the state's time, and the image pairs handed to the tracker are those of the frame at the state's time.",
  ["schedules", "histories"], "every interleaving of sensor messages", "no test of the node",
  ["serpent/src/front_end/frontend.cpp"], [("state creation", "serpent/src/front_end/frontend.cpp")])
p("P19", "Barometer measurements are interpolated to state times",
  "For every stream of barometer messages and state times, each state receives exactly one pressure value, in order, as soon as a measurement at or after the state is there: linearly interpolated at the state's time between the measurements around it, with the stamp of the state; a state before the first measurement gets the value of that first measurement, and never an extrapolated one.",
  ["schedules", "histories", "inputs"], "every interleaving and timing", "no test",
  ["serpent/src/front_end/frontend.cpp"], [("interpolation", "serpent/src/front_end/frontend.cpp")])
p("P20", "Live odometry extends the latest optimised state by the measured motion",
  "At every IMU message after initialisation, the published live odometry is the latest optimised state propagated by the bias-corrected IMU motion since that state, stamped with the IMU time and expressed in the declared frames: the pose and velocity of the propagated state and the body's bias-corrected angular velocity. The broadcast transform and the published pose of the body in the map agree with the optimised state.",
  ["schedules", "histories"], "every interleaving of IMU and optimiser messages", "no test",
  ["serpent/src/front_end/frontend.cpp"], [("live odometry", "serpent/src/front_end/frontend.cpp")])
GM = ["serpent/src/back_end/graph_manager.cpp", "serpent/include/serpent/back_end/graph_manager.hpp", "serpent/include/serpent/back_end/graph_manager-inl.hpp"]
p("P21", "The graph store returns exactly what was stored, by key and key range",
  "After any history of calls that store poses, velocities, biases, timestamps, covariances, measurements, landmarks and factors, reading a key returns the last value stored for it (or reports it absent), a request for a key range returns exactly the values and factors that belong to that range - each once, none from outside - and every factor connects the keys and carries the measurement and noise it was created with. Reading never changes the store.",
  ["histories", "inputs"], "every sequence of store and read calls over all value and factor kinds", "the graph store's test needs ROS, does not run here, and covers a few fixed sequences",
  GM, [("value and factor store", GM[0])])
p("P22", "Every factor and value reaches the optimiser exactly once and results come back",
  "For every history of stored states, factors, feature frames and optimisation requests, each optimisation up to a state hands the incremental optimiser exactly the factors and values of that and earlier states that it has not received yet - so each is handed over exactly once over the whole history, a factor never before the values it connects - and afterwards every stored value the optimiser estimates equals its estimate while the others are unchanged.",
  ["histories", "schedules"], "every sequence of state additions and optimisation triggers", "no test",
  GM, [("optimise", GM[0])])
p("P23", "Marginalisation removes exactly the old part of the graph, once and for good",
  "For every history and requested key, marginalising up to a key reports each value key at or before it exactly once over the whole run, keeps every later value and factor readable, never lets the marginalisation point move backwards, and never reports a landmark as removable while a later state still observes it.",
  ["histories"], "every interleaving of additions and marginalisation requests", "graph store test does not run here",
  GM, [("marginalise", GM[0])])
p("P24", "Each stereo feature becomes one landmark and one factor per observation",
  "For every sequence of feature frames, a feature identity seen in consecutive frames has exactly one landmark, placed where its newest observation back-projects to from the pose of the state that made it, and every observation of it - including the first - creates exactly one factor that connects the landmark with the state in which it was seen and carries that observation, the stereo calibration and the stereo noise; an identity seen in a single frame creates neither.",
  ["histories", "inputs"], "every sequence of feature frames with recurring identities", "no runnable test",
  GM, [("stereo factors", GM[0])])
p("P25", "The back end reaches the same optimised states for every arrival order, each from its own messages",
  "For every order in which the IMU, registration, stereo and barometer messages of the same states arrive, the back end optimises each state exactly once and in order as soon as every enabled source has delivered for it; a message that arrives early waits and is never dropped or attached to another state. What the optimiser is given for a state is exactly that state's factors - priors on the first state, one IMU factor over its interval with the last estimated bias, one registration factor, one stereo factor per tracked observation, the barometer values that are ready - each with the measurement, noise and sensor mounting its message and the configuration give, and its variables start from the predicted or registered pose. What is published after it (odometry with velocity and covariance, biases, path, motion guess) is the optimiser's estimate, stamped with that state's time and frames. Messages with an invalid covariance, variance or time, and configurations that make no sense, are refused.",
  ["schedules", "histories", "inputs"], "every interleaving of callbacks and every message content", "no test",
  ["serpent/src/back_end/optimisation.cpp", "serpent/src/back_end/graph_manager.cpp"], [("callback synchronisation", "serpent/src/back_end/optimisation.cpp")])
p("P26", "Shutting down never leaves a callback blocked",
  "Whatever each callback is waiting for when the process is asked to stop, every waiting callback returns promptly and leaves no lock held.",
  ["schedules", "fault_sequences"], "every point of every callback at which shutdown can be requested", "no test",
  ["serpent/src/utils/utilities.cpp", "serpent/src/back_end/optimisation.cpp", "serpent/src/front_end/frontend.cpp", "serpent/include/serpent/front_end/lidar/registration-inl.hpp"],
  [("protected waiting", "serpent/src/utils/utilities.cpp")])
ST = "serpent/src/front_end/stereo/"
p("P27", "Feature tracks keep one identity for life and identities are never reused",
  "For every sequence of stereo images and every outcome of detection, optical flow and stereo matching, a tracked feature keeps its identity, its key point and its place in the order in every frame until it is lost, new features get the next identities in order and none is ever used again, and each identity in a frame names exactly one left and one right feature. A feature is reported exactly when it was found again in both images and satisfies the stereo constraint (and the distance limits, if any), or is a new one: found inside the region of interest, not too close to any feature being tracked in its own image, matched below the cost threshold, and satisfying the same constraints. The statistics of every frame, the first included, count exactly these.",
  ["histories", "inputs", "configurations"], "every sequence of tracking outcomes, positions, identities and settings", "no test",
  [ST+"stereo_feature_tracker.cpp"], [("tracker", ST+"stereo_feature_tracker.cpp")])
p("P34", "The stereo pipeline runs with the components and settings its configuration names",
  "For every configuration the stereo node uses the detector, optical flow, matching cost, matching filter, region of interest, thresholds and distance limits that the configuration names, each with its own settings, and refuses names it does not know. For every stereo pair whose four messages arrive, in whatever order, it publishes the tracked features once, with the left image's stamp and frame and the camera calibrations unchanged, and statistics, pictures and back-projected points exactly when they are switched on; incomplete pairs publish nothing, and cameras that are no stereo pair are refused where a baseline is needed.",
  ["configurations", "inputs", "histories"], "every configuration, image sequence, camera and message order", "no test",
  [ST+"stereo_factor_finder.cpp"], [("configuration and callback", ST+"stereo_factor_finder.cpp")])
p("P35", "The whole pipeline processes every scan, whatever sources are switched on and however its callbacks are scheduled",
  "For every combination of the registration, scan-to-map, stereo and barometer sources, run as one program or as separate front-end and back-end programs, with any permitted number of threads and any order in which callbacks run: each scan whose data has arrived becomes a state; each state gets its cloud, its IMU interval, its barometer value, its features, its filtered cloud with normals, its map and its registration with the previous state as far as those sources are on, each once and in order; each state is optimised and its pose published near the vehicle's true path; no callback is left waiting for something that cannot come because of the others, none fails, what was published is not changed afterwards, and all return at shutdown. A program is refused exactly when it is given no thread, and offers its services. The stereo program alone turns every image pair into features.",
  ["configurations", "schedules", "histories"], "every switch combination, split, thread count, callback order and preemption", "no test runs a node; a deadlock needs a particular combination of threads, switches and timing",
  ["serpent/src/nodes/node.cpp", "serpent/src/nodes/frontend_node.cpp", "serpent/src/nodes/backend_node.cpp", "serpent/src/nodes/stereo_pipeline_node.cpp", "serpent/src/front_end/frontend.cpp", "serpent/src/back_end/optimisation.cpp"],
  [("which modules run, topics between them, threads", "serpent/src/nodes/node.cpp"), ("waits", "serpent/src/front_end/frontend.cpp")])
p("P36", "The analysis tools report what their messages and files hold",
  "For every IMU message the analysis node sends one frame with the message's orientation, stamp and frame name in the fixed frame and, if so configured, a second with the configured translation and the configured rotation applied after the orientation. For every non-empty cloud of single-valued fields the cloud analyser publishes one message with the smallest and largest value, mean, variance and count of every field, in order. For every pair of clouds of one stamp whose frames are joined, the distance node publishes one cloud with each source point, in order, and its distance to the nearest target point, the target being moved into the source's frame with the transform of that time. For every history of save and load requests, a loaded cloud has the fields and values last saved to that file, the frame asked for and the current time, is published once on the topic asked for, and a request that cannot be served changes nothing.",
  ["inputs", "configurations", "histories"], "every message, configuration and sequence of requests", "no test runs these nodes",
  ["imu_tools/src/imu_analysis.cpp", "pointcloud_tools/src/pointcloud_analyser.cpp", "pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp", "pointcloud_tools/src/pointcloud_file_converter.cpp"],
  [("IMU frames", "imu_tools/src/imu_analysis.cpp"), ("field statistics", "pointcloud_tools/src/pointcloud_analyser.cpp"), ("distances", "pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp"), ("saving and loading", "pointcloud_tools/src/pointcloud_file_converter.cpp")])
p("P28", "Stereo matching returns the lowest-cost admissible candidate or none",
  "For every image pair and keypoint, the match returned is an admissible candidate (on the allowed side, within the vertical band, window inside both images) of minimum matching cost, and the cost reported is that minimum; no match is reported when there is no admissible candidate. With the ratio test (of the non-negative costs) a match is kept exactly when the best cost is below the ratio times the second-best cost or there is no second candidate, and with bidirectional matching exactly when matching back from the found candidate returns the original. Images of different sizes and invalid window sizes are refused.",
  ["inputs", "configurations"], "every image pair, keypoint set, cost function, matching filter, search direction, window and threshold", "there are no tests of stereo matching",
  [ST+"stereo_keypoint_matcher.cpp", "serpent/include/serpent/front_end/stereo/stereo_keypoint_matcher.hpp"],
  [("candidate search and filters", ST+"stereo_keypoint_matcher.cpp")])
p("P29", "Stereo matching costs and window sums equal their definitions",
  "For every pair of 8-bit images and window positions, window sums, means and sums of squares and each matching cost (sum of absolute differences, of squared differences, zero-mean, locally scaled, negated normalised cross-correlation) equal their mathematical definition on the window pixels, whether or not the reference window's statistic is supplied in advance; a window is reported inside the image exactly when all its pixels are. The matching costs refuse images of other pixel types.",
  ["inputs"], "every image content, window size and position", "there are no tests of the cost functions",
  [ST+"stereo_cost_functions.cpp", ST+"window_functions.cpp"], [("costs", ST+"stereo_cost_functions.cpp"), ("window statistics", ST+"window_functions.cpp")])
p("P30", "Match filters keep exactly the admissible matches; stereo geometry is invertible",
  "Each match filter returns, in order, exactly the matches that satisfy its condition (descriptor distance at most the threshold; left x greater than right x and vertical difference at most the threshold; triangulated distance within [minimum, maximum]) together with their positions in the input, after any sequence of calls and setting changes. Projecting a 3D point in front of a stereo camera and back-projecting the result gives the same point, and points on or behind the image plane or without disparity are refused.",
  ["inputs", "histories"], "every match list, threshold, camera and point", "no tests",
  [ST+"match_filters.cpp", "serpent/include/serpent/front_end/stereo/match_filters.hpp", "serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp"],
  [("filters", ST+"match_filters.cpp"), ("projection", "serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp")])
p("P31", "Image operations keep image and camera calibration consistent",
  "For every image and every sequence of image operations (quarter turns either way including none, mirror images, cutting out regions), each output pixel is the input pixel the operation maps there, and the size and intrinsic matrix published with the image describe the image produced, with the configured frame and the image's stamp. Operations that are not documented ones are refused when the configuration is read, and an image that does not contain a configured region is never published as if it did. The camera info node publishes exactly one camera info, as configured, for each image; the frame node changes the frame of an image and its camera info and nothing else.",
  ["inputs", "configurations"], "every image, encoding, operation sequence and region", "no tests",
  ["camera_tools/src/image_operations.cpp", "camera_tools/src/split_image.cpp", "camera_tools/src/publish_info.cpp", "camera_tools/src/change_frame_id.cpp"], [("image operations", "camera_tools/src/image_operations.cpp"), ("splitting and its configuration", "camera_tools/src/split_image.cpp")])
p("P32", "Accumulated odometry applies each motion once, in the moving frame",
  "Applying a relative motion to a pose gives the pose composed with the motion in its own frame, with the covariance carried along, for plain and stamped poses. For every sequence of relative motions the accumulation node publishes after each one exactly one odometry (the product of all motions so far, stamped with the motion's time) and a path holding every pose so far once and in order; the odometry-to-TF node broadcasts one transform per odometry with the same stamp, frames and pose.",
  ["inputs", "histories"], "every pose, motion and sequence of motions of each message type",
  "no runnable tests, and none for the nodes",
  ["eigen_ros/src/pose.cpp", "eigen_ros/src/odometry.cpp", "navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/odometry_to_tf.cpp"],
  [("apply_transform", "eigen_ros/src/pose.cpp"), ("accumulation", "navigation_tools/src/combine_transforms.cpp")])
p("P33", "Beam directions and surface normals belong to their points",
  "For every cloud, the unit-vector node appends the direction of each point as three fields and leaves everything else unchanged. The normal estimation node keeps every point (and beam direction) in place with its stamp and frame, and gives it a unit normal along the direction of least variance of its configured neighbourhood (k nearest or within the radius), turned towards the viewpoint, with the curvature of that neighbourhood, and a published cloud never changes again (subscribers in the same program share it); unknown methods are refused.",
  ["inputs", "configurations"], "every cloud and configuration", "no test",
  ["serpent/src/front_end/lidar/pointcloud_add_unit_vectors.cpp", "serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp", "serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation.hpp"],
  [("unit vectors", "serpent/src/front_end/lidar/pointcloud_add_unit_vectors.cpp"), ("normals", "serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
