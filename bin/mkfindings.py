#!/usr/bin/env python3
"""Writes /verif/known_findings.json. 'known' entries are matched by check.py; 'fixed' entries suppress nothing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 dict(property="P25", match=["an ordinary history can be optimised", "VectorValues::dot"],
      text="with isam2/optimization Dogleg and optimisation/factors/imu off (registration and barometer on) the optimiser fails on an ordinary history: velocity and bias variables are handed over without any factor"),
]
FIXED = [
 "fixed: property=P01 b23c256 cartesian_to_polar divided by the squared horizontal range, so azimuth was wrong for every point whose horizontal range is not 1",
 "fixed: property=P01 e2a29b7 change_twist_reference_frame had an empty body and returned an uninitialised matrix",
 "fixed: property=P01 18f2ea5 from_skew_symmetric accepted matrices that are not skew-symmetric",
 "fixed: property=P01 16d7da7 PrecomputedTransformComponents of a zero rotation vector had NaN axis and rotation matrix",
 "fixed: property=P02 05b85b0 reorder_covariance accepted negative boundaries and wrote out of bounds for dynamic matrices",
 "fixed: property=P29 87a8ad1 window_sum and window_sum_squares accumulated onto an uninitialised double",
 "fixed: property=P30 53804a0 StereoDistanceFilter: set_fx/set_baseline multiplied with uninitialised members",
 "fixed: property=P30 1b4a954 stereo_project read point[3] (past the end) instead of the depth",
 "fixed: property=P28 72986e2 matched and cost were left unset when the reference window leaves the image",
 "fixed: property=P28 a6b67e6 ratio test ignored candidates with costs between the best and the previous best",
 "fixed: property=P12 568caf8 with a subset of source indices, correspondences named the position in the subset instead of the source point",
 "fixed: property=P13 ef3c3d0 nonlinear models returned NaN for an identity alignment and garbage below 1e-7 rad",
 "fixed: property=P07 6c936c4 pclpointcloud2_utilities did not compile: repeated default template arguments, polar_coordinates declared with another return type",
 "fixed: property=P09 ba489ee frontend.cpp did not compile with Eigen 3.4: the deskew rotation conditional mixed types",
 "fixed: property=P06 a80baa2 add_fields placed the new fields over trailing padding (heap overrun) or over fields listed out of offset order",
 "fixed: property=P09 e40bcc8 deskew to a target time before the cloud's stamp wrapped around",
 "fixed: property=P09 94a1c5d deskew with no motion restamped the cloud but kept the point times",
 "fixed: property=P07 3240916 scale_and_cast_field by name called itself without end",
 "fixed: property=P05 b89d755 converting into a Float64MultiArray that was used before appended its dimensions again",
 "fixed: property=P04 5914803 BodyFramesTf looked a dynamic frame up once and broadcast it as a static transform",
 "fixed: property=P08 595e898 the body filter kept only the points within the body region instead of removing them",
 "fixed: property=P08 4ad7cfe the statistical outlier removal settings were read from a namespace no configuration uses",
 "fixed: property=P21 c0899b5 collecting the values of a key range read past the last stored value (undefined behaviour that happens to be harmless with this standard library, so no check depends on it)",
 "fixed: property=P21 38db7d0 values(first, last) left out every landmark when the first key has no stereo features",
 "fixed: property=P24 7edca87 a feature's first observation was connected to the preceding key instead of the frame that made it when frames are missing",
 "fixed: property=P23 85aafda landmarks were reported as removable when the state whose number equals their identity was marginalised",
 "fixed: property=P23 130fe15 marginalising an earlier key moved the marginalisation point backwards",
 "fixed: property=P28 ebe19f9 bidirectional dense search reused the forward window's statistics for the reverse windows",
 "fixed: property=P17 24de327 integrate_imu integrated a zero duration (refused by GTSAM) for an IMU message exactly at the end of the interval",
 "fixed: property=P26 56a3e33 protected_sleep returned with the mutex locked on shutdown, so other callbacks blocked forever",
 "fixed: property=P19 12be3bc a new state without any barometer measurement dereferenced an empty buffer; only one of several waiting states was served per measurement",
 "fixed: property=P20 3f34cea the IMU-rate odometry added the gyroscope bias instead of removing it",
 "fixed: property=P20 5ed3a2c the published base_link pose was the pose of the body frame",
 "fixed: property=P18 56fb837 IMU measurements that arrived after the scan were left out of the interval of the state",
 "fixed: property=P18 bdd6e1b the deskew motion was changed from the body to the lidar frame with the inverse transform",
 "fixed: property=P15 46807d1 correcting a keyframe dereferenced the null pose cloud of the PAST extraction method",
 "fixed: property=P15 ceb33dc the global map was filtered according to the setting for local maps",
 "fixed: property=P25 a7e72f4 registrations were refused when their covariance was valid and accepted when it was not",
 "fixed: property=P25 580a755 an IMU interval that came before the initial odometry read the time of state -1 and ended the node",
 "fixed: property=P25 08d83f6 without IMU factors the published velocity was the predicted one when stereo features completed the state",
 "fixed: property=P25 ed79252 an unknown robust noise type led to a null noise model and a crash at the first stereo factor",
 "fixed: property=P27 bc4f01b the first frame's statistics held uninitialised key point counts",
 "fixed: property=P27 554e4cc new stereo matches were not checked against the stereo constraint that tracked matches must satisfy",
 "fixed: property=P34 e2617a7 the SIFT contrast threshold of the configuration was never read",
 "fixed: property=P34 b83ff84 none of the optical flow settings of the configuration was read",
 "fixed: property=P31 a1ba0cf a rotation of 0 degrees, documented as valid, was refused; angles that are no multiple of 90 degrees used an uninitialised rotation",
 "fixed: property=P31 c55d6b5 the operations of an image were used without checking that they are a struct (the region's type was checked instead)",
 "fixed: property=P18 0587cdc without registration factors the IMU interval was published before the front end had used the previous state, so that it could wait for ever or deskew with the wrong state (also seen by P35)",
 "fixed: property=P35 6fed3a4 with fewer threads than callbacks that wait for one another the pipeline could stop for ever",
]
json.dump(dict(known=KNOWN, fixed=FIXED), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
