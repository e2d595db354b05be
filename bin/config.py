"""What each check builds, model-checks, generates and validates."""
EIGEN = ["/usr/include/eigen3"]
OPENCV = ["/usr/include/opencv4"]
STEREO = "serpent/src/front_end/stereo/"
FORCE = "-include /verif/harness/compat.hpp -include functional -include stdexcept"
GROUPS = {
    "stereo": dict(src=[STEREO + f for f in ("match_filters.cpp", "stereo_cost_functions.cpp", "stereo_keypoint_matcher.cpp", "window_functions.cpp")],
                   inc=["serpent/include", "eigen_ext/include", "pointcloud_tools/include"], sys=EIGEN + OPENCV, flags=FORCE),
}
PCL = ["/usr/include/pcl-1.14"] + EIGEN
PCL_LIBS = "-lpcl_common -lpcl_kdtree -lpcl_search -lpcl_octree -lflann_cpp -llz4"
GROUPS["cloud"] = dict(src=["pointcloud_tools/src/point_types.cpp", "serpent/src/front_end/lidar/registration_covariance.cpp"],
                       inc=["pointcloud_tools/include", "serpent/include", "eigen_ext/include"], sys=PCL, flags=FORCE + " -DPCL_NO_PRECOMPILE")
# Files that need ROS are compiled against the shim in shim/ (single process, deterministic scheduler)
SHIM_DIRS = ["_build/shim/include", "shim/include"]
SHIM_FLAGS = "-include /verif/shim/include/shim_pre.hpp -DSHIM_PCL -DPCL_NO_PRECOMPILE " + " ".join("-I/verif/" + d for d in reversed(SHIM_DIRS))
SHIM_INC = [p + "/include" for p in ("eigen_ext", "eigen_ros", "eigen_gtsam", "pointcloud_tools", "serpent", "camera_tools", "navigation_tools", "imu_tools")]
GENMSGS = ["python3 bin/genmsgs.py"]
ASAN = "-fsanitize=address"
GROUPS["cloud2"] = dict(src=["pointcloud_tools/src/pclpointcloud2_utilities.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
GROUPS["ros"] = dict(src=["eigen_ros/src/%s.cpp" % f for f in ("body_frames", "body_frames_tf", "eigen_ros", "geometry_msgs", "imu", "nav_msgs", "odometry", "pose", "sensor_msgs", "statistics_msgs", "std_msgs", "twist")]
                     + ["eigen_gtsam/src/geometry.cpp", "serpent/src/utils/ros_conversion.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
GROUPS["tools"] = dict(src=["navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/odometry_to_tf.cpp", "imu_tools/src/imu_transform.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
GTSAM_LIBS = "-lgtsam -lboost_serialization -lboost_system -lboost_filesystem -lboost_timer -lboost_thread -ltbb -ltbbmalloc -lpthread"
GROUPS["bodyframes"] = dict(src=["eigen_ros/src/%s.cpp" % f for f in ("body_frames", "eigen_ros", "geometry_msgs", "pose")], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
LIDAR = "serpent/src/front_end/lidar/"
GROUPS["lidar"] = dict(src=["pointcloud_tools/src/point_types.cpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp"] + ["serpent/src/front_end/stereo/sensor_point_types.cpp"] + [LIDAR + f for f in ("pointcloud_filter.cpp", "pointcloud_formatter.cpp", "pointcloud_add_unit_vectors.cpp")],
                       inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
LIDAR_LIBS = "-lpcl_filters -lpcl_sample_consensus -lpcl_features -lpcl_search -lpcl_kdtree -lpcl_octree -lpcl_common -lflann_cpp -llz4"
HARNESSES = {
    "h_lidar": dict(src=["h_lidar.cpp"], groups=["lidar", "bodyframes"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs=LIDAR_LIBS, pre=GENMSGS),
    "h_ros": dict(src=["h_ros.cpp"], groups=["ros", "tools"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs=GTSAM_LIBS + " -lpcl_common", pre=GENMSGS),
    "h_cloud2": dict(src=["h_cloud2.cpp"], groups=["cloud2"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs="-lpcl_common", san=ASAN, pre=GENMSGS),
    "h_cloud": dict(src=["h_cloud.cpp"], groups=["cloud"], inc=["pointcloud_tools/include", "serpent/include", "eigen_ext/include"], sys=PCL,
                    flags=FORCE + " -include pcl/point_cloud.h -DPCL_NO_PRECOMPILE", libs=PCL_LIBS),
    "h_eigen": dict(src=["h_eigen.cpp"], inc=["eigen_ext/include"], sys=EIGEN),
    "h_stereo": dict(src=["h_stereo.cpp"], groups=["stereo"], inc=["serpent/include"], sys=EIGEN + OPENCV, flags=FORCE, libs="-lopencv_core -lopencv_features2d"),
}
GROUPS["graph"] = dict(src=["serpent/src/back_end/graph_manager.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
HARNESSES["h_graph"] = dict(src=["h_graph.cpp"], groups=["graph"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs="-rdynamic " + GTSAM_LIBS + " -ldl", pre=GENMSGS)
GRAPH_DESIGN = [("GraphEnv", "GraphMC.cfg", {}), ("GraphEnv", "GraphMC8.cfg", dict(thorough_only=True, timeout=800, heap="8g"))]
def scen(cfg, pid, quick=400, thorough=8000, module="GraphEnv", depth=40, begin="newgraph", parts=8):
    return dict(module=module, cfg=cfg, depth=depth, quick=quick, thorough=thorough, parts=parts, job=dict(group=pid, begin=begin))
EIGEN_ROS = ["eigen_ros/src/%s.cpp" % f for f in ("body_frames", "eigen_ros", "geometry_msgs", "imu", "nav_msgs", "odometry", "pose", "sensor_msgs", "statistics_msgs", "std_msgs", "twist")]
GROUPS["eigenros"] = dict(src=EIGEN_ROS + ["eigen_gtsam/src/geometry.cpp", "serpent/src/utils/ros_conversion.cpp", "serpent/src/utils/utilities.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
GROUPS["front"] = dict(src=["serpent/src/front_end/frontend.cpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp", "navigation_tools/src/integrate_imu.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS + " -DGTSAM_VERSION_NUMERIC=40200")
WRAP = "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep,--wrap=pthread_cond_timedwait,--wrap=pthread_cond_clockwait "
HARNESSES["h_front"] = dict(src=["h_front.cpp", "../shim/shim_lock.cpp"], groups=["front", "eigenros"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs=WRAP + GTSAM_LIBS + " -lpcl_common", pre=GENMSGS)
FRONT_DESIGN = [("FrontEnv", "FrontMCB.cfg", {}), ("FrontEnv", "FrontMC5.cfg", {}), ("FrontEnv", "FrontMC.cfg", dict(thorough_only=True))]
def front(pid, which, quick=96, thorough=2400):
    return [scen("FrontGen%s.cfg" % c, pid, quick, thorough, module="FrontEnv", depth=75, begin="front", parts=4) for c in which]
HARNESSES["h_map"] = dict(src=["h_map.cpp"], groups=["mapnode", "eigenros"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs=GTSAM_LIBS + " " + LIDAR_LIBS, pre=GENMSGS)
GROUPS["mapnode"] = dict(src=["pointcloud_tools/src/point_types.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
def mapper(pid, quick=240, thorough=6000):
    return [scen("MappingGen%s.cfg" % c, pid, quick, thorough, module="MappingEnv", depth=20, begin="mapper", parts=4) for c in ("Near", "Past")]
HARNESSES["h_reg"] = dict(src=["h_reg.cpp", "../shim/shim_lock.cpp"], groups=["regnode", "eigenros"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs=WRAP + GTSAM_LIBS + " -lpcl_registration " + LIDAR_LIBS, pre=GENMSGS)
GROUPS["regnode"] = dict(src=["pointcloud_tools/src/point_types.cpp", "serpent/src/front_end/lidar/registration_covariance.cpp", "serpent/src/front_end/lidar/registration_methods.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
REG_DESIGN = [("RegistrationEnv", "RegistrationMC.cfg", {}), ("RegistrationEnv", "RegistrationMCs.cfg", {})]
def reg(pid, quick=160, thorough=4000):
    return [scen("RegistrationGen%s.cfg" % c, pid, quick, thorough, module="RegistrationEnv", depth=40, begin="reg", parts=4) for c in ("", "S")]
HARNESSES["h_opt"] = dict(src=["h_opt.cpp", "../shim/shim_lock.cpp"], groups=["optnode", "eigenros"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs="-rdynamic " + WRAP + GTSAM_LIBS + " -lpcl_common -ldl", pre=GENMSGS)
GROUPS["optnode"] = dict(src=["serpent/src/back_end/optimisation.cpp", "serpent/src/back_end/graph_manager.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS + " -DGTSAM_VERSION_NUMERIC=40200")
OPT_DESIGN = [("OptimEnv", "OptimMC.cfg", {}), ("OptimEnv", "OptimMCI.cfg", {}), ("OptimEnv", "OptimMCR.cfg", {}), ("OptimEnv", "OptimMCS.cfg", {})]
def opt(pid, quick=320, thorough=8000):
    return [scen("OptimGen.cfg", pid, quick, thorough, module="OptimEnv", depth=60, begin="optim", parts=8)]
HARNESSES["h_wait"] = dict(src=["h_wait.cpp", "../shim/shim_lock.cpp"], groups=["eigenros"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs=WRAP + GTSAM_LIBS + " -lpcl_common", pre=GENMSGS)
def at(harness, module, gens):
    """Scenarios that another harness plays and another trace specification judges."""
    for g in gens: g["job"].update(harness=harness, module=module)
    return gens
WRAP_CV = "-Wl," + ",".join("--wrap=" + n for n in ("_ZN2cv12GFTTDetector6createEiddibd", "_ZN2cv12GFTTDetector6createEiddiibd", "_ZN2cv19FastFeatureDetector6createEibNS0_12DetectorTypeE",
    "_ZN2cv3ORB6createEifiiiiNS0_9ScoreTypeEii", "_ZN2cv4SIFT6createEiiddd", "_ZN2cv4SIFT6createEiidddi", "_ZN2cv22SparsePyrLKOpticalFlow6createENS_5Size_IiEEiNS_12TermCriteriaEid")) + " "
GROUPS["tracker"] = dict(src=[STEREO + f for f in ("match_filters.cpp", "stereo_cost_functions.cpp", "stereo_keypoint_matcher.cpp", "window_functions.cpp", "stereo_feature_tracker.cpp", "stereo_factor_finder.cpp")],
                         inc=SHIM_INC, sys=PCL + OPENCV, flags=SHIM_FLAGS)
HARNESSES["h_track"] = dict(src=["h_track.cpp"], groups=["tracker", "eigenros"], inc=SHIM_INC, sys=PCL + OPENCV, flags=SHIM_FLAGS, san=ASAN, libs=WRAP_CV + GTSAM_LIBS + " -lopencv_core -lopencv_imgproc -lopencv_features2d -lopencv_video -lpcl_common", pre=GENMSGS)
TRACK_DESIGN = [("TrackerMC", "TrackerMC.cfg", {}), ("TrackerMC", "TrackerMC2.cfg", dict(thorough_only=True, timeout=800))]
GROUPS["camera"] = dict(src=["camera_tools/src/" + f + ".cpp" for f in ("image_operations", "split_image", "publish_info", "change_frame_id")], inc=SHIM_INC + ["camera_tools/include"], sys=PCL + OPENCV, flags=SHIM_FLAGS)
HARNESSES["h_image"] = dict(src=["h_image.cpp"], groups=["camera"], inc=SHIM_INC + ["camera_tools/include"], sys=PCL + OPENCV, flags=SHIM_FLAGS, san=ASAN, libs=GTSAM_LIBS + " -lopencv_core -lpcl_common", pre=GENMSGS)
NODES = {"node": "node", "frontend": "frontend_node", "backend": "backend_node", "stereo": "stereo_pipeline_node"}
for k, f in NODES.items():
    GROUPS["main_" + k] = dict(src=["serpent/src/nodes/%s.cpp" % f], inc=SHIM_INC, sys=PCL + OPENCV, flags=SHIM_FLAGS + " -Dmain=%s_main" % k)
GROUPS["sys"] = dict(src=["eigen_ros/src/body_frames_tf.cpp", STEREO + "sensor_point_types.cpp"] + [LIDAR + f for f in ("pointcloud_filter.cpp", "pointcloud_formatter.cpp", "pointcloud_add_unit_vectors.cpp")], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
HARNESSES["h_sys"] = dict(src=["h_sys.cpp", "../shim/shim_lock.cpp"], groups=["main_" + k for k in NODES] + ["sys", "front", "optnode", "regnode", "tracker", "eigenros"], inc=SHIM_INC, sys=PCL + OPENCV, flags=SHIM_FLAGS, pre=GENMSGS,
                          libs="-Wl,--allow-multiple-definition " + WRAP + GTSAM_LIBS + " -lopencv_core -lopencv_imgproc -lopencv_features2d -lopencv_video -lpcl_registration " + LIDAR_LIBS)
GROUPS["analysis"] = dict(src=["imu_tools/src/imu_analysis.cpp", "pointcloud_tools/src/pointcloud_analyser.cpp", "pointcloud_tools/src/pointcloud_file_converter.cpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS)
HARNESSES["h_tools"] = dict(src=["h_tools.cpp"], groups=["analysis", "eigenros"], inc=SHIM_INC, sys=PCL, flags=SHIM_FLAGS, libs=GTSAM_LIBS + " -lpcl_io " + LIDAR_LIBS, pre=GENMSGS)
NOT_APPLICABLE = {}
CHECKS = {
    "P01": dict(harness="h_eigen", module="EigenTrace", design=[("RigidMC", "RigidMC.cfg", {})],
                jobs=[dict(group="P01", quick=6000, thorough=200000, parts=8)],
                must_see=["relative", "chframe", "adj", "twist", "rates", "mktransform", "unskew", "polar", "normalise", "interp", "precomputed"]),
    "P02": dict(harness="h_eigen", module="EigenTrace", design=[("RigidMC", "RigidMC.cfg", {})],
                jobs=[dict(group="P02", quick=4000, thorough=100000, parts=8)],
                must_see=["reorder", "chcov", "compose", "rotcov", "valid", "pd", "sym", "nonsquare", "posdiag"]),
    "P11": dict(harness="h_cloud", module="CloudTrace", design=[("RigidMC", "RigidMC.cfg", {})],
                jobs=[dict(group="P11", quick=6000, thorough=150000, parts=8)],
                must_see=["xform", "roundtrip", "normals", "posepoint"]),
    "P12": dict(harness="h_cloud", module="CloudTrace", jobs=[dict(group="P12", quick=4000, thorough=100000, parts=8)], must_see=["corr"]),
    "P13": dict(harness="h_cloud", module="CloudTrace", jobs=[dict(group="P13", quick=320, thorough=24000, parts=8)],
                must_see=["hessian", "cov", "names"]),
    "P06": dict(harness="h_cloud2", module="Cloud2Trace", design=[("Cloud2MC", "Cloud2MC.cfg", {})],
                jobs=[dict(group="P06", quick=1600, thorough=40000, parts=8, begin="cloud")],
                must_see=["addfields", "addunit", "rename", "cast", "resize", "query"]),
    "P07": dict(harness="h_cloud2", module="Cloud2Trace", jobs=[dict(group="P07", quick=640, thorough=16000, parts=8)],
                must_see=["get", "mismatch", "set", "scale", "stats", "emptystats", "summary", "dirs", "width", "normals"]),
    "P09": dict(harness="h_cloud2", module="Cloud2Trace", jobs=[dict(group="P09", quick=1600, thorough=40000, parts=8)], must_see=["deskew"]),
    "P08": dict(harness="h_lidar", module="LidarTrace", jobs=[dict(group="P08", quick=1600, thorough=40000, parts=8, begin="filters"),
                                                             dict(group="P08", harness="h_cloud2", module="Cloud2Trace", quick=800, thorough=20000, parts=4)],
                must_see=["filters", "chain", "voxel", "body", "range", "sor", "random", "filtermax"]),
    "P10": dict(harness="h_lidar", module="LidarTrace", jobs=[dict(group="P10", quick=1600, thorough=40000, parts=8, begin="formatter")], must_see=["formatter", "format"]),
    "P33": dict(harness="h_lidar", module="LidarTrace", jobs=[dict(group="P33", quick=160, thorough=4000, parts=8)], must_see=["unitnode", "normals", "normalcfg"]),
    "P03": dict(harness="h_ros", module="RosTrace", jobs=[dict(group="P03", quick=2400, thorough=60000, parts=8)],
                must_see=["imuframe", "imuinterp", "rpy", "imunode"]),
    "P04": dict(harness="h_ros", module="RosTrace", design=[("FramesMC", "FramesMC.cfg", {})],
                jobs=[dict(group="P04", quick=1600, thorough=40000, parts=8, begin="frames")], must_see=["frames", "f2f", "names", "static", "service"]),
    "P05": dict(harness="h_ros", module="RosTrace", jobs=[dict(group="P05", quick=4000, thorough=100000, parts=8)],
                must_see=["c_imu", "c_odom", "c_posec", "c_posecs", "c_poses", "c_pose", "c_mat", "c_rot", "c_twistc", "c_twist", "c_vec", "c_cov", "c_covbad", "c_multi", "c_gtsam", "c_bias", "c_imus", "c_eq", "c_blocks"]),
    "P32": dict(harness="h_ros", module="RosTrace", design=[("RigidMC", "RigidMC.cfg", {})],
                jobs=[dict(group="P32", quick=1200, thorough=30000, parts=8, begin="combstart")], must_see=["apply", "combine", "odomtf"]),
    "P21": dict(harness="h_graph", module="GraphTrace", jobs=[dict(group="P21", quick=8000, thorough=200000, parts=8, begin="newgraph")],
                must_see=["set", "addfac", "frame", "upd", "named", "inc", "get", "dump"]),
    "P22": dict(harness="h_graph", module="GraphTrace", design=GRAPH_DESIGN, jobs=[], scenarios=[scen("GraphGenOpt.cfg", "P22"), scen("GraphGenFrames.cfg", "P22", 160, 4000)],
                must_see=["optimise", "set", "addfac", "frame", "get", "dump"]),
    "P23": dict(harness="h_graph", module="GraphTrace", design=GRAPH_DESIGN, jobs=[], scenarios=[scen("GraphGenMarg.cfg", "P23")],
                must_see=["marginalise", "window", "optimise", "frame", "dump"]),
    "P24": dict(harness="h_graph", module="GraphTrace", design=GRAPH_DESIGN, jobs=[dict(group="P21", quick=2000, thorough=50000, parts=4, begin="newgraph")], scenarios=[scen("GraphGenFrames.cfg", "P24")],
                must_see=["frame", "optimise", "get", "dump"]),
    "P17": dict(harness="h_front", module="FrontTrace", jobs=[dict(group="P17", quick=4000, thorough=100000, parts=8)],
                must_see=["integ", "union", "delold", "pressure", "params", "inode", "istep"]),
    "P18": dict(harness="h_front", module="FrontTrace", design=FRONT_DESIGN, jobs=[], scenarios=front("P18", "ABC"), must_see=["front", "cloud", "s2s", "initial", "image", "settled"]),
    "P19": dict(harness="h_front", module="FrontTrace", design=FRONT_DESIGN, jobs=[], scenarios=front("P19", "BC"), must_see=["front", "baro", "press", "settled"]),
    "P20": dict(harness="h_front", module="FrontTrace", jobs=[], scenarios=front("P20", "AB"), must_see=["front", "imudone", "tf", "pose", "settled"]),
    "P14": dict(harness="h_reg", module="RegistrationTrace", design=REG_DESIGN, jobs=[], scenarios=reg("P14"), must_see=["reg", "regcfg", "scan", "guess", "map", "moved", "settled"]),
    "P25": dict(harness="h_opt", module="OptimTrace", design=OPT_DESIGN, jobs=[dict(group="P25K", quick=1, thorough=1, parts=1, begin="optim")], scenarios=opt("P25"),
                must_see=["optim", "optcfg", "init", "imu", "reg", "frame", "bar", "guess", "isam", "odo", "bias", "path", "points", "settled"]),
    "P15": dict(harness="h_map", module="MappingTrace", design=[("MappingEnv", "MappingMC.cfg", {})], jobs=[], scenarios=mapper("P15"), must_see=["mapper", "upd", "local", "gmap", "graph"]),
    "P16": dict(harness="h_map", module="MappingTrace", design=[("MappingEnv", "MappingMC.cfg", {})], jobs=[], scenarios=mapper("P16"), must_see=["mapper", "upd", "local", "gmap", "graph"]),
    "P26": dict(harness="h_wait", module="WaitTrace", design=[("Wait", "WaitMC.cfg", dict(workers="2"))], jobs=[],
                scenarios=[scen("WaitGen.cfg", "P26", 800, 20000, module="Wait", depth=34, begin="wait", parts=2)]
                          + at("h_front", "FrontTrace", front("P26", "ABC", 80, 2400)) + at("h_reg", "RegistrationTrace", reg("P26", 80, 2000)) + at("h_opt", "OptimTrace", opt("P26", 160, 4000)),
                must_see=["wait", "call", "look", "back", "stop", "front", "reg", "optim", "stopped"]),
    "P27": dict(harness="h_track", module="TrackTrace", design=TRACK_DESIGN, jobs=[], must_see=["tracker", "frame", "badsize", "finder", "views"],
                scenarios=[scen("TrackerGen.cfg", "P27", 1200, 30000, module="TrackerMC", depth=14, begin="tracker"), scen("TrackerGen.cfg", "P27N", 480, 12000, module="TrackerMC", depth=14, begin="finder")]),
    "P34": dict(harness="h_track", module="TrackTrace", jobs=[], scenarios=[scen("TrackerGen.cfg", "P34", 1200, 30000, module="TrackerMC", depth=14, begin="finder")], must_see=["finder", "views"]),
    "P31": dict(harness="h_image", module="ImageTrace", design=[("ImageMC", "ImageMC.cfg", {})], jobs=[dict(group="P31", quick=4000, thorough=120000, parts=8)],
                must_see=["operation", "splitter", "split", "info", "rename"]),
    "P35": dict(harness="h_sys", module="SysTrace", design=[("Pool", "PoolMC.cfg", {}), ("Pool", "PoolMC4.cfg", dict(thorough_only=True, timeout=800))], jobs=[],
                scenarios=[scen("PoolGen.cfg", "P35", 640, 16000, module="Pool", depth=200, begin="sys", parts=8)], must_see=["sys", "program", "made", "settled", "stopped", "alone"]),
    "P36": dict(harness="h_tools", module="ToolsTrace", design=[("Files", "FilesMC.cfg", {})], jobs=[dict(group="P36", quick=1600, thorough=48000, parts=8)],
                scenarios=[scen("FilesGen.cfg", "P36", 480, 12000, module="Files", depth=24, begin="files", parts=8)], must_see=["imu", "distances", "analysed", "files", "save", "load", "arrive"]),
    "P28": dict(harness="h_stereo", module="StereoTrace", jobs=[dict(group="P28", quick=320, thorough=6000, parts=8)],
                must_see=["config", "search", "searches", "index", "indices", "badsize", "tofilter"]),
    "P29": dict(harness="h_stereo", module="StereoTrace", jobs=[dict(group="P29", quick=800, thorough=16000, parts=8)],
                must_see=["winstat", "cost", "badtype"]),
    "P30": dict(harness="h_stereo", module="StereoTrace", jobs=[dict(group="P30", quick=4000, thorough=60000, parts=8)],
                must_see=["filter", "setfilter", "project", "backproject", "roundtrip"]),
}
