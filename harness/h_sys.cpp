// P35 the whole pipeline: the programs' own main functions, every module in place, on the threads each program was given.
#include "cloud2.hpp"
#include "node.hpp"
#include "scen.hpp"
#include <eigen_ros/eigen_ros.hpp>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <nav_msgs/Odometry.h>
#include <pcl_conversions/pcl_conversions.h>
#include <sensor_msgs/CameraInfo.h>
#include <sensor_msgs/FluidPressure.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/Imu.h>
#include <serpent/ImuArray.h>
#include <serpent/StereoFeatures.h>
#include <set>
using namespace vh;
using Params = XmlRpc::XmlRpcValue;
using Eigen::Isometry3d; using Eigen::Vector3d;
int node_main(int, char**); int frontend_main(int, char**); int backend_main(int, char**); int stereo_main(int, char**);
template<class M> static M out(const std::any& a) { return *shim::Travel<M>::out(a); }
template<class P> static std::string xyz(const P& p) { return nums({p.x, p.y, p.z}); }
template<class Q> static std::string wxyz(const Q& q) { return nums({q.w, q.x, q.y, q.z}); }
static Params pxyz(const Vector3d& v) { Params p; p["x"] = v.x(); p["y"] = v.y(); p["z"] = v.z(); return p; }
static void frame(Params& b, const std::string& n, const Isometry3d& T) {
    b["frames"][n]["translation"] = pxyz(T.translation());
    const Eigen::Quaterniond q(T.rotation()); Params w; w["w"] = q.w(); w["x"] = q.x(); w["y"] = q.y(); w["z"] = q.z();
    b["frames"][n]["rotation"] = w;
}

// ---- programs: each has the threads it asked the spinner for, and serves the subscriptions made before it waits
struct Program { std::string name, inited, error; int got = -1; bool refused = false, waited = false; std::vector<std::string> services; };
struct Programs {
    std::vector<Program> all;
    std::map<const shim::Subscription*, int> of;
    int owner(const std::shared_ptr<shim::Subscription>& s) const { auto i = of.find(s.get()); return i == of.end() ? -1 : i->second; }
} progs;
static void run_program(const std::string& name, int (*entry)(int, char**), const std::function<void()>& inner) {
    const int me = int(progs.all.size());
    progs.all.push_back({name});
    std::set<std::string> before; for (auto& s : shim::Bus::get().services) before.insert(s.first);
    shim::init_hook() = [me](const std::string& n) { progs.all[me].inited = n; };
    shim::spin_hook() = [me](std::uint32_t n) { progs.all[me].got = int(n); };
    shim::wait_hook() = [&, me] {
        progs.all[me].waited = true;
        for (auto& s : shim::Bus::get().subs) if (!progs.of.count(s.get())) progs.of[s.get()] = me;
        for (auto& s : shim::Bus::get().services) if (!before.count(s.first)) progs.all[me].services.push_back(s.first);
        inner();
    };
    note("program " + name);
    char arg[] = "program"; char* argv[] = {arg, nullptr};
    try { entry(1, argv); } catch (const std::exception& e) { progs.all[me].refused = !progs.all[me].waited; progs.all[me].error = e.what(); }
}

struct Pool {
    Rng r;
    std::map<int, int> prog;                 // task -> program
    std::map<int, std::string> topic;
    std::map<std::string, int> running;      // topics being served
    std::set<std::string> chain;             // topics of the chain of filters
    bool dead = false; std::string error; long finished = 0; int locked = 0;
    explicit Pool(std::uint64_t s) : r(s) {
        shim::Sched::get().on_finish = [this](shim::Task& t) { ++finished; --running[topic[t.id]]; prog.erase(t.id); if (!t.held.empty()) ++locked; if (t.failed) { dead = true; error = topic[t.id] + ": " + t.error; } };
    }
    ~Pool() { shim::Sched::get().on_finish = {}; }
    std::string kind(const std::string& t) const {
        if (t == "input/imu") return "imu"; if (t == "input/pointcloud") return "format"; if (t == "formatter/formatted_pointcloud") return "scan";
        if (chain.count(t)) return "chain"; if (t == "normal_estimation/pointcloud" || t == "optimisation/imu_transform") return "s2s"; if (t == "optimisation/path_changes") return "mapping";
        if (t == "mapping/local_map") return "s2m"; if (t == "registration/transform") return "registered"; if (t == "frontend/imu_s2s") return "interval"; if (t == "frontend/initial_odometry") return "init";
        if (t == "optimisation/odometry" || t == "optimisation/imu_biases") return "optimised"; if (t == "stereo/features") return "features"; if (t == "frontend/barometer") return "pressure";
        if (t.compare(0, 7, "stereo/") == 0) return "track";
        return "sensor";
    }
    std::vector<std::shared_ptr<shim::Subscription>> can() const {
        std::map<int, int> busy; for (auto& p : prog) ++busy[p.second];
        std::vector<std::shared_ptr<shim::Subscription>> v;
        for (auto& s : shim::Bus::get().startable()) {
            const int p = progs.owner(s);
            if (p < 0 || busy[p] >= progs.all[p].got) continue;
            if (s->topic == "input/pointcloud") {      // the lidar is no faster than the front end: one scan waits at most
                bool full = false;
                for (auto& q : shim::Bus::get().subs) if (q->alive && q->topic == "formatter/formatted_pointcloud" && !q->queue.empty()) full = true;
                if (full) continue;
            }
            v.push_back(s);
        }
        return v;
    }
    void begin(const std::shared_ptr<shim::Subscription>& s) {
        const int p = progs.owner(s);
        auto& t = shim::Bus::get().start(s);
        prog[t.id] = p; topic[t.id] = s->topic; ++running[s->topic];
        shim::Sched::get().step(t);
    }
    bool step() {
        auto& s = shim::Sched::get();
        const auto v = can();
        const int n = int(v.size() + s.tasks.size());
        if (!n || dead) return false;
        const int k = r.range(0, n - 1);
        if (k < int(v.size())) begin(v[k]); else s.step(*s.tasks[k - v.size()]);
        return true;
    }
    void go(const std::string& k) {
        if (dead) return;
        std::vector<std::shared_ptr<shim::Subscription>> c;
        for (auto& s : can()) if (kind(s->topic) == k) c.push_back(s);
        if (c.empty()) { step(); return; }
        begin(c[r.range(0, int(c.size()) - 1)]);
        for (int n = r.range(0, 4); n; --n) step();
    }
    // until nothing moves any more
    void settle() {
        for (int quiet = 0; quiet < 14 && !dead; ++quiet) {
            const long f = finished;
            for (auto v = can(); !v.empty() && !dead; v = can()) { begin(v[r.range(0, int(v.size()) - 1)]); quiet = -1; }
            auto& s = shim::Sched::get();
            std::vector<int> ids; for (auto& t : s.tasks) ids.push_back(t->id);
            for (int id : ids) for (auto& t : s.tasks) if (t->id == id) { if (!dead) s.step(*t); break; }
            if (finished != f) quiet = -1;
        }
    }
    int stop() {
        shim::ok_flag() = false;
        auto& s = shim::Sched::get();
        s.preempt = false;
        for (int n = 0; n < 80 && !s.tasks.empty(); ++n) {
            std::vector<int> ids; for (auto& t : s.tasks) ids.push_back(t->id);
            for (int id : ids) for (auto& t : s.tasks) if (t->id == id) { s.step(*t); break; }
        }
        return int(s.tasks.size());
    }
};
[[noreturn]] static void leave() { finish(); std::fflush(nullptr); std::_Exit(0); }      // threads of a stuck program are left behind

static void images(Rng& r, const ros::Time& st, int shade, double fx, double b) {
    for (int s = 0; s < 2; ++s) {
        sensor_msgs::Image m; m.header.stamp = st; m.header.frame_id = s ? "right" : "left"; m.width = 96; m.height = 64; m.encoding = "mono8"; m.step = 96; m.data.assign(96 * 64, std::uint8_t(shade));
        shim::send(s ? "input/stereo/right/image" : "input/stereo/left/image", m);
        sensor_msgs::CameraInfo c; c.header.stamp = st; c.header.frame_id = m.header.frame_id; c.width = 96; c.height = 64;
        c.K[0] = c.K[4] = fx; c.K[2] = 48; c.K[5] = 32; c.K[8] = 1; c.P[0] = c.P[5] = fx; c.P[2] = 48; c.P[6] = 32; c.P[10] = 1; c.P[3] = s ? -fx * b : 0.0;
        shim::send(s ? "input/stereo/right/camera_info" : "input/stereo/left/camera_info", c);
    }
    (void)r;
}
static void play(const std::vector<scen::Op>& ops, Rng& r0) {
    shim::reset(); shim::Sched::get().misused = 0; progs = {};
    const scen::Op& cfg = ops[0];
    Rng r(std::uint64_t(cfg.i("s")) * 41 + r0.next() % 1000);
    const bool reg = cfg.b("reg"), refine = cfg.b("refine"), stereo = cfg.b("stereo"), baro = cfg.b("baro"), split = cfg.b("split"), only = r.chance(60), root = r.chance(50);
    const int M = cfg.i("m");
    const std::uint64_t base = std::uint64_t(r.range(1000, 2000000000)) * 1000000000ull + std::uint64_t(r.range(0, 999999)) * 1000ull;
    auto at = [&](long us) { ros::Time t; t.fromNSec(base + std::uint64_t(us) * 1000ull); return t; };
    auto us = [&](const ros::Time& t) { const std::int64_t d = std::int64_t(t.toNSec()) - std::int64_t(base); return d % 1000 ? -1L : long(d / 1000); };
    // the motion: constant velocity, constant attitude
    const double g = r.real(9.7, 9.9);
    const Vector3d p0 = rand_vec(r, 5), v = rand_vec(r, 0.8);
    const Eigen::Quaterniond q0 = rand_rot(r);
    auto mount = [&] { Isometry3d T = Isometry3d::Identity(); if (r.chance(85)) T.linear() = rand_rot(r).toRotationMatrix(); if (r.chance(85)) T.translation() = rand_vec(r, 0.5); return T; };
    const Isometry3d BI = mount(), BL = mount(), BK = root ? Isometry3d(Isometry3d::Identity()) : mount();
    Isometry3d BS = Isometry3d::Identity(); { Eigen::Matrix3d R; R << 0, 0, 1, -1, 0, 0, 0, -1, 0; BS.linear() = R; BS.translation() = rand_vec(r, 0.3); }
    std::vector<long> T(M + 1), S(M + 1, -1); const long sweep = r.pick(std::vector<long>{31250, 62500, 78125});
    T[1] = 100000 + r.range(0, 50000); for (int k = 2; k <= M; ++k) T[k] = T[k - 1] + sweep + r.range(1, 60000);
    const long end = T[M] + sweep;
    std::vector<long> frames;      // one at least between two scans
    for (int k = 1; k < M; ++k) { const long d = T[k + 1] - T[k]; const long a = T[k] + (r.chance(30) ? 0 : r.range(0, int(d / 2))); frames.push_back(a); if (r.chance(40)) frames.push_back(a + r.range(1, int(T[k + 1] - a - 1))); }
    frames.push_back(T[M] + r.range(0, 1000));
    for (int k = 1; k < M; ++k) { S[k] = T[k]; if (stereo) for (long f : frames) if (f >= T[k]) { S[k] = f; break; } }
    auto body = [&](double s) { Isometry3d X = Isometry3d::Identity(); X.linear() = q0.toRotationMatrix(); X.translation() = p0 + v * (s - 1e-6 * S[1]); return X; };
    // settings
    auto& p = shim::params();
    Params b; b.make_struct();
    frame(b, "imu", BI); frame(b, "lidar", BL); frame(b, "stereo", BS);
    if (!root) frame(b, "base_link", BK);
    const std::string bid = r.chance(50) ? "robot" : "", lid = r.chance(50) ? "os_lidar" : "lidar", bodyk = root ? "base_link" : "body";
    if (!bid.empty()) b["frame_id"] = bid;
    if (lid != "lidar") b["frames"]["lidar"]["frame_id"] = lid;
    p["body_frames"][bodyk] = b;
    auto flag = [&](const std::string& n, bool on) { if (!on || r.chance(60)) p["optimisation"]["factors"][n] = on; };
    flag("registration", reg); flag("stereo", stereo); flag("barometer", baro);
    if (reg && (!refine || r.chance(50))) p["s2m"]["enabled"] = refine;
    if (only || r.chance(50)) p["stereo_tracking"]["only_graph_frames"] = only;
    const std::string map = r.chance(50) ? "map" : "world"; if (map != "map") p["map_frame_id"] = map;
    p["gravity"] = g; p["imu"]["reference_frame"] = std::string("NWU");
    p["pose"]["position"] = pxyz(p0); p["velocity"]["linear"] = pxyz(v);
    p["pointcloud_type"] = std::string("CUSTOM");
    for (auto s : {"s2s", "s2m"}) { p[s]["method"] = std::string("icp"); p[s]["base"]["max_correspondence_distance"] = 0.5; p[s]["base"]["maximum_iterations"] = 20; }
    const bool voxel = r.chance(50), bodyf = r.chance(50), rangef = r.chance(60), sor = r.chance(40), sample = r.chance(40);
    const double leaf = r.pick(std::vector<double>{0.0625, 0.125, 0.25});
    if (!voxel || r.chance(50)) p["voxel_grid_filter"]["enabled"] = voxel;
    p["voxel_grid_filter"]["leaf_size"] = leaf;
    if (bodyf || r.chance(50)) p["body_filter"]["enabled"] = bodyf;
    p["body_filter"]["min"] = pxyz(Vector3d(-0.3, -0.3, -0.3)); p["body_filter"]["max"] = pxyz(Vector3d(0.3, 0.3, 0.3));
    if (!rangef || r.chance(50)) p["range_filter"]["enabled"] = rangef;
    p["range_filter"]["max"] = 60.0;
    if (sor || r.chance(50)) p["statistical_outlier_removal"]["enabled"] = sor;
    p["statistical_outlier_removal"]["mean_k"] = 5; p["statistical_outlier_removal"]["stddev_mul_thresh"] = 1000.0;
    if (sample || r.chance(50)) p["random_sample_filter"]["enabled"] = sample;
    const int keep = r.chance(50) ? 1000 : 55; p["random_sample_filter"]["sample_size"] = keep;
    std::string method = r.pick(std::vector<std::string>{"", "CENSI", "CENSI", "LLS", "CONSTANT"}), point = r.pick(std::vector<std::string>{"", "RANGE", "RANGE_BIAS", "CONSTANT", "VOXEL_SIZE"});
    if (point == "VOXEL_SIZE" && !voxel) point = "CONSTANT";
    if (method == "LLS" && (point.empty() || point == "RANGE" || point == "RANGE_BIAS")) point = "CONSTANT";
    if (!method.empty()) p["registration_covariance"]["method"] = method;
    if (!point.empty()) p["registration_covariance"]["point_covariance"]["method"] = point;
    std::string model = r.pick(std::vector<std::string>{"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"});
    // between points, noise along the beams says nothing about the rotation: that covariance is singular, and refused
    if (method != "CONSTANT" && (point.empty() || point == "RANGE" || point == "RANGE_BIAS")) model.replace(0, 14, "POINT_TO_PLANE");
    p["registration_covariance"]["model"] = model;
    p["normal_estimation"]["k"] = 10;
    p["stereo_tracking"]["detector"]["type"] = std::string("GFTT");
    const int threads = r.pick(std::vector<int>{-99, -99, 4, 4, 1, 2, 3, 5, 6, 8, 0, -1}), asked = threads == -99 ? 4 : threads;
    if (threads != -99) p["threads"] = threads;
    Pool d(r.next());
    for (auto s : {"frontend/deskewed_pointcloud", "filter/voxel_filtered_pointcloud", "filter/body_filtered_pointcloud", "filter/range_filtered_pointcloud", "filter/sor_filtered_pointcloud", "filter/filtered_pointcloud", "add_unit_vectors/pointcloud"}) d.chain.insert(s);
    // the points: far apart, one too far away, one on the vehicle, two in one cell
    std::vector<Vector3d> W;
    while (int(W.size()) < 60) { const Vector3d w = p0 + rand_vec(r, 12); bool ok = (w - p0).norm() > 3; for (auto& x : W) ok = ok && (w - x).norm() > 1.2; if (ok) W.push_back(w); }
    const Vector3d far = p0 + rand_dir(r) * 100; const Vector3d cell = Vector3d(r.range(40, 60) + 0.5, r.range(40, 60) + 0.5, r.range(40, 60) + 0.5) * leaf;
    shim::Bus::get().route = true;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) {
        if (t == "frontend/deskewed_pointcloud" || t == "normal_estimation/pointcloud" || t == "mapping/local_map") {
            const C2 c = out<C2>(m);
            Ev("made").t("kind", t == "mapping/local_map" ? "map" : t[0] == 'f' ? "cloud" : "normals").i("t", us(pcl_conversions::fromPCL(c.header.stamp))).i("n", long(c.width) * c.height).t("f", c.header.frame_id)
                .b("beams", c2::find(c, "ux") && c2::find(c, "uy") && c2::find(c, "uz")).b("normals", c2::find(c, "normal_x")).emit();
        } else if (t == "optimisation/odometry" || t == "frontend/initial_odometry" || t == "output/odometry") {
            const auto o = out<nav_msgs::Odometry>(m);
            Ev("made").t("kind", t[0] == 'o' && t[1] == 'p' ? "optimised" : t[0] == 'f' ? "initial" : "live").i("t", us(o.header.stamp)).t("f", o.header.frame_id).t("cf", o.child_frame_id).raw("p", xyz(o.pose.pose.position)).raw("q", wxyz(o.pose.pose.orientation))
                .raw("v", xyz(o.twist.twist.linear)).emit();
        } else if (t == "registration/transform") {
            const auto o = out<geometry_msgs::PoseWithCovarianceStamped>(m);
            Ev("made").t("kind", "registered").i("t", us(o.header.stamp)).t("f", o.header.frame_id).raw("c", list(o.pose.covariance, [](double x) { return num(x); })).raw("p", xyz(o.pose.pose.position)).raw("q", wxyz(o.pose.pose.orientation)).emit();
        } else if (t == "frontend/barometer") Ev("made").t("kind", "pressure").i("t", us(out<sensor_msgs::FluidPressure>(m).header.stamp)).emit();
        else if (t == "stereo/features") { const auto f = out<serpent::StereoFeatures>(m); Ev("made").t("kind", "features").i("t", us(f.header.stamp)).i("n", long(f.features.size())).emit(); }
        else if (t == "frontend/imu_s2s") { const auto a = out<serpent::ImuArray>(m); Ev("made").t("kind", "interval").i("a", us(a.start_timestamp)).i("b", us(a.end_timestamp)).emit(); }
        else if (t == "output/pose") { const auto o = out<geometry_msgs::PoseWithCovarianceStamped>(m); Ev("made").t("kind", "pose").i("t", us(o.header.stamp)).t("f", o.header.frame_id).raw("p", xyz(o.pose.pose.position)).raw("q", wxyz(o.pose.pose.orientation)).emit(); }
    });
    std::vector<long> states(S.begin() + 1, S.begin() + M);
    Ev("sys").b("reg", reg).b("refine", refine).b("stereo", stereo).b("baro", baro).b("split", split).b("only", only).i("asked", asked).raw("states", list(states, [](long x) { return std::to_string(x); })).raw("frames", list(frames, [](long x) { return std::to_string(x); }))
        .b("voxel", voxel).b("bodyf", bodyf).b("rangef", rangef).i("keep", sample ? keep : 1000000).t("method", method).t("point", point).t("model", model).t("map", map).t("body", bid.empty() ? bodyk : bid).t("lid", lid)
        .v("p0", p0).v("v", v).m("R", q0.toRotationMatrix()).T("BK", BK).emit();
    bool left_tasks = false;
    auto scenario = [&] {
        for (auto& q : progs.all) Ev("program").t("name", q.name).i("asked", asked).i("got", q.got).b("exc", false).raw("services", list(q.services, [](const std::string& s) { return str(s); })).emit();
        shim::Sched::get().preempt = r.chance(30);
        note("pipeline");
        // what the sensors say
        long ti = T[1] - 60000; long tl = ti;
        for (; tl <= end + 20000; ti += r.range(5000, 20000)) {
            eigen_ros::Imu i; i.timestamp = at(ti); i.frame = "imu"; i.orientation = q0 * Eigen::Quaterniond(BI.rotation());
            i.angular_velocity.setZero(); i.linear_acceleration = i.orientation.conjugate() * Vector3d(0, 0, g);
            i.orientation_covariance = i.angular_velocity_covariance = i.linear_acceleration_covariance = Eigen::Matrix3d::Identity() * 1e-3;
            sensor_msgs::Imu m; eigen_ros::to_ros(m, i); shim::send("input/imu", m); tl = ti;
        }
        for (int k = 1; k <= M; ++k) {
            std::vector<std::pair<Vector3d, long>> pts;      // in the lidar frame, when
            auto see = [&](const Vector3d& w, long t) { pts.emplace_back((body(1e-6 * (T[k] + t)) * BL).inverse() * w, t); };
            std::vector<long> times{0, sweep / 2, sweep, sweep / 4};
            for (auto& w : W) see(w, r.pick(times));
            see(far, sweep);
            const long ref = k < M ? S[k] : T[k];      // the two are in one cell when the state is made
            for (int i = 0; i < 2; ++i) { const long t = r.pick(times); const Vector3d c = cell + Vector3d::Constant((i ? 1 : -1) * leaf / 8), w = body(1e-6 * ref) * BL * c; pts.emplace_back((body(1e-6 * (T[k] + t)) * BL).inverse() * w, t); }
            if (bodyf) pts.emplace_back(Vector3d(0.1, -0.1, 0.05), 0);
            for (int i = int(pts.size()) - 1; i > 0; --i) std::swap(pts[i], pts[r.range(0, i)]);
            C2 c = c2::layout(r, {{"x", 7, 1}, {"y", 7, 1}, {"z", 7, 1}, {"range", 7, 1}, {"t", 7, 1}}, false, false);
            c2::shape(r, c, int(pts.size()), 1);
            c.header.stamp = pcl_conversions::toPCL(at(T[k])); c.header.seq = k; c.header.frame_id = "sensor"; c.is_dense = true;
            for (std::size_t i = 0; i < pts.size(); ++i) {
                const Vector3d& x = pts[i].first;
                c2::put(c, *c2::find(c, "x"), i, x.x()); c2::put(c, *c2::find(c, "y"), i, x.y()); c2::put(c, *c2::find(c, "z"), i, x.z());
                c2::put(c, *c2::find(c, "range"), i, x.norm()); c2::put(c, *c2::find(c, "t"), i, 1e-6 * pts[i].second);
            }
            shim::send("input/pointcloud", c);
        }
        if (stereo) for (long f : frames) images(r, at(f), r.range(0, 255), 100, 0.2);
        if (baro) for (long tb = T[1] - 50000; tb <= end + 60000; tb += r.range(10000, 50000)) {
            sensor_msgs::FluidPressure m; m.header.stamp = at(tb); m.header.frame_id = "baro"; m.variance = 4;
            m.fluid_pressure = 1e3 * 101.29 * std::pow((15.04 - 0.00649 * body(1e-6 * tb).translation().z() + 273.1) / 288.08, 5.256);
            shim::send("input/barometer", m);
        }
        for (std::size_t k = 1; k < ops.size(); ++k) {
            const std::string c = ops[k].str("c");
            d.go(c);
            if (c == "imu") for (int n = r.range(2, 8); n; --n) d.go(c);
        }
        note("settle");
        shim::Sched::get().preempt = false;
        d.settle();
        std::vector<std::string> waits, queued;
        for (auto& k : shim::Sched::get().tasks) waits.push_back(k->name);
        for (auto& s : shim::Bus::get().subs) if (s->alive && !s->queue.empty()) queued.push_back(s->topic);
        Ev("settled").b("exc", d.dead).t("why", d.error.substr(0, 160)).raw("waits", list(waits, [](const std::string& s) { return str(s); })).raw("queued", list(queued, [](const std::string& s) { return str(s); })).emit();
        note("stop");
        const int left = d.stop();
        Ev("stopped").i("left", left).i("locked", d.dead ? 0 : d.locked).i("misused", d.dead ? 0 : shim::Sched::get().misused).emit();
        if (left || d.dead) leave();
    };
    if (split) run_program("frontend", frontend_main, [&] { run_program("backend", backend_main, scenario); });
    else run_program("node", node_main, scenario);
    for (auto& q : progs.all) if (q.refused) Ev("program").t("name", q.name).i("asked", asked).i("got", q.got).b("exc", true).raw("services", "[]").emit();
    (void)left_tasks;
    shim::reset();
}
// the stereo program alone: pairs of images in, features out
static void alone(Rng& r) {
    shim::reset(); progs = {};
    auto& p = shim::params();
    Params b; b.make_struct(); b["frames"]["imu"]["frame_id"] = "imu"; p["body_frames"]["base_link"] = b;
    p["stereo_tracking"]["detector"]["type"] = std::string("GFTT");
    const int threads = r.pick(std::vector<int>{-99, 1, 2, 4, 0, -3}), asked = threads == -99 ? 4 : threads;
    if (threads != -99) p["threads"] = threads;
    Pool d(r.next());
    shim::Bus::get().route = true;
    std::vector<long> in, outs;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == "stereo/features") outs.push_back(long(out<serpent::StereoFeatures>(m).header.stamp.toNSec() / 1000)); });
    run_program("stereo", stereo_main, [&] {
        const int n = r.range(1, 5);
        for (int k = 0; k < n; ++k) {
            ros::Time st; st.fromNSec(1000000000ull + k * 50000000ull);
            in.push_back(long(st.toNSec() / 1000));
            for (int s = 0; s < 2; ++s) {
                sensor_msgs::Image m; m.header.stamp = st; m.width = 96; m.height = 64; m.encoding = "mono8"; m.step = 96; m.data.assign(96 * 64, std::uint8_t(9 * k));
                shim::send(s ? "stereo/right/image" : "stereo/left/image", m);
                sensor_msgs::CameraInfo c; c.header.stamp = st; c.K[0] = c.K[4] = 90; c.K[8] = 1; shim::send(s ? "stereo/right/camera_info" : "stereo/left/camera_info", c);
            }
        }
        d.settle();
        Ev("program").t("name", "stereo").i("asked", asked).i("got", progs.all[0].got).b("exc", false).raw("services", list(progs.all[0].services, [](const std::string& s) { return str(s); })).emit();
        Ev("alone").b("exc", d.dead).raw("in", list(in, [](long x) { return std::to_string(x); })).raw("out", list(outs, [](long x) { return std::to_string(x); })).emit();
        if (d.stop() || d.dead) leave();
    });
    if (progs.all[0].refused) Ev("program").t("name", "stereo").i("asked", asked).i("got", -1).b("exc", true).raw("services", "[]").emit();
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 53);
    if (argc <= 6) return 64;
    std::cout.setstate(std::ios::failbit);
    int n = 0;
    for (const auto& s : scen::load(argv[6])) if (!s.empty()) { play(s, r); if (++n % 8 == 1) { Ev("sysalone").emit(); alone(r); } }
    return finish();
}
