// P17 preintegration, P18 states and IMU intervals, P19 barometer, P20 live odometry, P26 shutdown: the front end node.
#include "cloud2.hpp"
#include "node.hpp"
#include "scen.hpp"
#include <eigen_gtsam/eigen_gtsam.hpp>
#include <eigen_ros/eigen_ros.hpp>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <navigation_tools/integrate_imu.hpp>
#include <pcl_conversions/pcl_conversions.h>
#include <sensor_msgs/FluidPressure.h>
#include <serpent/ImuArray.h>
#include <serpent/ImuBiases.h>
#include <serpent/front_end/frontend.hpp>
#include <serpent/utils/ros_conversion.hpp>
#include <serpent/utils/utilities.hpp>
#include <set>
using namespace vh;
using Bias = gtsam::imuBias::ConstantBias;
using Params = XmlRpc::XmlRpcValue;
template<class P> static std::string xyz(const P& p) { return nums({p.x, p.y, p.z}); }
template<class Q> static std::string wxyz(const Q& q) { return nums({q.w, q.x, q.y, q.z}); }

// ---- P17
struct Recorder : gtsam::PreintegratedCombinedMeasurements {
    using gtsam::PreintegratedCombinedMeasurements::PreintegratedCombinedMeasurements;
    std::vector<std::pair<int, double>> seg;
    void integrateMeasurement(const gtsam::Vector3& a, const gtsam::Vector3& w, double dt) override {
        seg.emplace_back(int(std::lround(a.x())), dt);
        if (w.x() != a.x() + 0.25) seg.back().first = -1;   // rates of one sample with accelerations of another
        gtsam::PreintegratedCombinedMeasurements::integrateMeasurement(a, w, dt);
    }
};
static boost::shared_ptr<gtsam::PreintegrationCombinedParams> pre_params() {
    auto p = gtsam::PreintegrationCombinedParams::MakeSharedU(9.81);
    p->setAccelerometerCovariance(Eigen::Matrix3d::Identity() * 1e-3); p->setGyroscopeCovariance(Eigen::Matrix3d::Identity() * 1e-3);
    p->setIntegrationCovariance(Eigen::Matrix3d::Identity() * 1e-3);
    return p;
}
static void preint(Rng& r) {
    const std::uint64_t base = std::uint64_t(r.range(1, 2000000000)) * 1000000000ull + r.range(0, 999999999);
    const std::uint64_t unit = r.pick(std::vector<std::uint64_t>{1, 1000, 1000000, 2500000, 1000000007});
    auto at = [&](int k) { ros::Time t; t.fromNSec(base + k * unit); return t; };
    std::vector<int> ts; int t = r.range(0, 3);
    std::deque<eigen_ros::Imu> buf;
    for (int n = r.chance(10) ? r.range(0, 2) : r.range(2, 9); n; --n, t += r.pick(std::vector<int>{1, 1, 2, 3, 7})) {
        eigen_ros::Imu i; i.timestamp = at(t); const int k = int(ts.size()) + 1;
        i.linear_acceleration = Eigen::Vector3d(k, 0.5, -0.5); i.angular_velocity = Eigen::Vector3d(k + 0.25, 0.1, 0.2);
        ts.push_back(t); buf.push_back(i);
    }
    const int last = ts.empty() ? 5 : ts.back();
    auto pick = [&] { return !ts.empty() && r.chance(50) ? r.pick(ts) : r.range(0, last + 6); };
    int a = pick(), b = pick();
    if (b < a && !r.chance(8)) std::swap(a, b);
    Recorder rec(pre_params(), Bias());
    note("integrate_imu");
    const bool x = threw([&] { serpent::integrate_imu(rec, buf, at(a), at(b)); });
    Ev("integ").d("unit", 1e-9 * unit).raw("t", ints(ts)).i("a", a).i("b", b).b("exc", x).raw("seg", list(rec.seg, [](const auto& s) { return "[" + std::to_string(s.first) + "," + num(s.second) + "]"; }))
        .d("dt", rec.deltaTij()).emit();
    if (b > a && !ts.empty() && ts[0] <= a && r.chance(50)) {   // adjacent intervals
        const int m = r.range(a, b);
        Recorder u(pre_params(), Bias());
        const bool y = threw([&] { serpent::integrate_imu(u, buf, at(a), at(m)); serpent::integrate_imu(u, buf, at(m), at(b)); });
        Ev("union").raw("t", ints(ts)).b("exc", x).b("exc2", y).raw("seg", list(rec.seg, [](const auto& s) { return "[" + std::to_string(s.first) + "," + num(s.second) + "]"; }))
            .raw("seg2", list(u.seg, [](const auto& s) { return "[" + std::to_string(s.first) + "," + num(s.second) + "]"; })).d("unit", 1e-9 * unit).emit();
    }
    const int d = pick();
    serpent::delete_old_measurements(at(d), buf);
    Ev("delold").raw("t", ints(ts)).i("d", d).raw("out", list(buf, [&](const auto& i) { return std::to_string((i.timestamp.toNSec() - base) / unit); })).emit();
    {   // pressures
        sensor_msgs::FluidPressure p, q; ros::Time w;
        const std::uint64_t d1 = r.chance(8) ? 0 : std::uint64_t(r.range(1, 1000000)) * unit;
        p.header.stamp.fromNSec(base); q.header.stamp.fromNSec(base + d1);
        if (r.chance(4)) std::swap(p.header.stamp, q.header.stamp);
        const int k = r.range(-1, 11);
        w.fromNSec(k < 0 ? base - 1 : k > 10 ? base + d1 + 1 : base + d1 / 10 * k);
        if (k == 10) w.fromNSec(base + d1);
        p.header.frame_id = "p"; q.header.frame_id = "q";
        p.fluid_pressure = r.real(9e4, 1.1e5); q.fluid_pressure = r.real(9e4, 1.1e5); p.variance = r.chance(20) ? 0 : r.real(0, 50); q.variance = r.real(0, 50);
        sensor_msgs::FluidPressure o;
        const bool e = threw([&] { o = serpent::interpolate_pressure(p, q, w); });
        auto js = [](const sensor_msgs::FluidPressure& m) { return Obj().t("t", std::to_string(m.header.stamp.toNSec())).d("p", m.fluid_pressure).d("v", m.variance).t("f", m.header.frame_id).end(); };
        Ev("pressure").raw("a", js(p)).raw("b", js(q)).t("t", std::to_string(w.toNSec())).b("exc", e).raw("o", js(o)).emit();
    }
    {   // parameters
        auto p = pre_params();
        Eigen::Matrix3d A = rand_spd<3>(r), G = rand_spd<3>(r);
        const int bad = r.chance(40) ? r.range(1, 4) : 0;
        if (bad == 1) A.setZero(); if (bad == 2) G.setZero(); if (bad == 3) A(0, 0) = -1; if (bad == 4) G(1, 2) += 1.0;
        const bool e = threw([&] { serpent::update_preintegration_params(*p, A, G); });
        Ev("params").b("bad", bad != 0).b("exc", e).m("A", A).m("G", G).m("Ao", p->getAccelerometerCovariance()).m("Go", p->getGyroscopeCovariance()).emit();
    }
}

// ---- motions with a closed form: constant body acceleration without rotation, or a constant turn on the spot
struct World {
    std::uint64_t base;                   // ns
    bool spin;
    Eigen::Isometry3d BI, BL, BK;         // imu, lidar, base_link in the body frame
    Bias bias;
    Eigen::Vector3d A, w;                 // body acceleration (specific force) and rate
    double g;
    ros::Time time(long us) const { ros::Time t; t.fromNSec(base + std::uint64_t(us) * 1000ull); return t; }
    long us(const ros::Time& t) const { const std::int64_t d = std::int64_t(t.toNSec()) - std::int64_t(base); return d % 1000 ? -1 : d / 1000; }
};
static Params pxyz(const Eigen::Vector3d& v) { Params p; p["x"] = v.x(); p["y"] = v.y(); p["z"] = v.z(); return p; }
static Params frame_param(const Eigen::Isometry3d& T) {
    Params p; p["translation"] = pxyz(T.translation());
    const Eigen::Quaterniond q(T.rotation()); Params w; w["w"] = q.w(); w["x"] = q.x(); w["y"] = q.y(); w["z"] = q.z();
    p["rotation"] = w;
    return p;
}
static Eigen::Isometry3d mount(Rng& r) {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    if (r.chance(80)) T.linear() = rand_rot(r).toRotationMatrix();
    if (r.chance(80)) T.translation() = rand_vec(r, 1);
    return T;
}
static World world(Rng& r, bool spin) {
    World W;
    W.base = std::uint64_t(r.range(1000, 2000000000)) * 1000000000ull + std::uint64_t(r.range(0, 999999)) * 1000ull;
    W.spin = spin; W.BI = mount(r); W.BL = mount(r); W.BK = mount(r);
    W.bias = r.chance(20) ? Bias() : Bias(rand_vec(r, 0.5), rand_vec(r, 0.2));
    W.w = spin ? rand_vec(r, 1.5) : Eigen::Vector3d::Zero();
    W.g = spin ? 1e-7 : r.real(9.7, 9.9);
    W.A = spin ? Eigen::Vector3d::Zero().eval() : rand_vec(r, 3);
    return W;
}
static sensor_msgs::Imu imu_msg(const World& W, long us, const Eigen::Quaterniond& q, int k) {
    eigen_ros::Imu i;
    i.timestamp = W.time(us); i.frame = "imu"; i.orientation = q;
    const Eigen::Matrix3d R = W.BI.rotation();
    const Eigen::Vector3d arm = W.BI.translation();
    i.angular_velocity = R.transpose() * W.w + W.bias.gyroscope();
    i.linear_acceleration = R.transpose() * (W.A + W.w.cross(W.w.cross(arm))) + W.bias.accelerometer();
    i.orientation_covariance = Eigen::Matrix3d::Identity() * (1e-3 + 1e-5 * k);
    i.angular_velocity_covariance = Eigen::Matrix3d::Identity() * (1e-3 + 2e-5 * k);
    i.linear_acceleration_covariance = Eigen::Matrix3d::Identity() * (1e-3 + 3e-5 * k);
    sensor_msgs::Imu m; eigen_ros::to_ros(m, i);
    return m;
}
static std::string imu_js(const World& W, const sensor_msgs::Imu& m) {
    return Obj().i("t", W.us(m.header.stamp)).r("q", wxyz(m.orientation)).r("w", xyz(m.angular_velocity)).r("a", xyz(m.linear_acceleration))
        .r("c", nums({m.orientation_covariance[0], m.angular_velocity_covariance[0], m.linear_acceleration_covariance[0]})).end();
}
static std::string odo_js(const World& W, const nav_msgs::Odometry& m) {
    return Obj().i("t", W.us(m.header.stamp)).t("f", m.header.frame_id).t("cf", m.child_frame_id).r("p", xyz(m.pose.pose.position)).r("q", wxyz(m.pose.pose.orientation))
        .r("v", xyz(m.twist.twist.linear)).r("w", xyz(m.twist.twist.angular)).end();
}
template<class M> static M out(const std::any& a) { return *shim::Travel<M>::out(a); }

// ---- the integration node of navigation_tools
static void integ_node(Rng& r) {
    shim::reset(); shim::Sched::get().misused = 0;
    const World W = world(r, r.chance(50));
    auto& p = shim::params();
    Params b; b.make_struct(); b["frames"]["imu"] = frame_param(W.BI);
    p["body_frames"]["base"] = b;
    p["gravity"] = W.g;
    const Eigen::Vector3d p0 = rand_vec(r, 5), v0 = rand_vec(r, 3);
    p["pose"]["position"] = pxyz(p0); p["velocity"]["linear"] = pxyz(v0);
    World U = W; U.bias = Bias();     // the node knows no bias
    std::vector<std::string> odo; std::vector<nav_msgs::Path> path;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) {
        if (t == "odometry") odo.push_back(odo_js(U, out<nav_msgs::Odometry>(m)));
        if (t == "path") path.push_back(out<nav_msgs::Path>(m));
    });
    note("IntegrateImu");
    std::unique_ptr<IntegrateImu> node(new IntegrateImu());
    const Eigen::Quaterniond q = r.chance(25) ? Eigen::Quaterniond(0, 0, 0, 0) : rand_rot(r);
    Ev("inode").b("spin", W.spin).T("BI", W.BI).d("g", W.g).v("A", W.A).v("w", W.w).v("p0", p0).v("v0", v0).raw("q", nums({q.w(), q.x(), q.y(), q.z()})).emit();
    Driver d(r.next());
    bool x = false;
    d.on_finish = [&](shim::Task& t) { x = t.failed; };
    long us = 0;
    for (int k = r.range(2, 8); k; --k) {
        const bool dup = us > 0 && r.chance(5);
        if (!dup) us += r.range(1, 50) * 1000;
        odo.clear(); path.clear(); x = false;
        const auto m = imu_msg(U, us, q, k);
        shim::send("input", m);
        d.settle(2);
        Ev("istep").i("t", us).raw("w", xyz(m.angular_velocity)).b("exc", x).raw("odo", list(odo, [](const std::string& s) { return s; })).i("np", long(path.size()))
            .i("len", path.empty() ? 0 : long(path.back().poses.size()))
            .raw("tail", path.empty() || path.back().poses.empty() ? "[]" : "[" + xyz(path.back().poses.back().pose.position) + "," + wxyz(path.back().poses.back().pose.orientation) + "]")
            .i("pt", path.empty() || path.back().poses.empty() ? -1 : U.us(path.back().poses.back().header.stamp)).emit();
        if (dup) break;
    }
    node.reset();
    shim::reset();
}

// ---- the front end
static const long TICK = 15625;   // us: 1/64 s, exact in float
static C2 scan_msg(Rng& r, const World& W, long us, long sweep, std::uint32_t seq) {
    std::vector<c2::Spec> s{{"x", 7, 1}, {"y", 7, 1}, {"z", 7, 1}, {"intensity", 7, 1}, {"t", 7, 1}};
    C2 c = c2::layout(r, s, false, false);
    const int n = r.range(2, 4);
    c2::shape(r, c, n, 1);
    c.header.stamp = pcl_conversions::toPCL(W.time(us)); c.header.seq = seq; c.header.frame_id = "lidar"; c.is_dense = true;
    for (int i = 0; i < n; ++i) {
        for (auto f : {"x", "y", "z"}) c2::put(c, *c2::find(c, f), i, r.real(-20, 20));
        c2::put(c, *c2::find(c, "intensity"), i, double(seq));
        const long t = i == n - 1 ? sweep : r.pick(std::vector<long>{0, sweep / 2, sweep, sweep / 4});
        c2::put(c, *c2::find(c, "t"), i, t * 1e-6);
    }
    return c;
}
static std::string pts(const C2& c) { return "[" + c2::values(c, "x") + "," + c2::values(c, "y") + "," + c2::values(c, "z") + "]"; }
static void play(const std::vector<scen::Op>& ops, Rng& r0, const std::string& grp) {
    const bool stop_early = grp == "P26";
    shim::reset();
    const scen::Op& cfg = ops[0];
    Rng r(std::uint64_t(cfg.i("s")) * 31 + r0.next() % 1000);
    const bool stereo = cfg.b("stereo"), baro = cfg.b("baro"), only = r.chance(50);
    World W = world(r, r.chance(40));
    const bool mdct = stereo || r.chance(70), mdcr = stereo || r.chance(70);
    const bool over = r.chance(30), overb = r.chance(30), root = r.chance(40);
    auto& p = shim::params();
    Params b; b.make_struct();
    b["frames"]["imu"] = frame_param(W.BI); b["frames"]["lidar"] = frame_param(W.BL);
    const std::string fid = r.chance(50) ? "robot" : "", kid = r.chance(30) ? "bl" : "";
    shim::tf_tree().clear();
    // base_link may be a part that moves against the body: its pose is that of the time asked for (of no time: the latest)
    const bool moves = !root && r.chance(30);
    const Eigen::Vector3d vk = moves ? rand_vec(r, 1) : Eigen::Vector3d::Zero();
    if (root) W.BK = Eigen::Isometry3d::Identity();
    else if (moves) {
        b["frames"]["base_link"]["dynamic"] = true;
        shim::tf_tree()[kid.empty() ? "base_link" : kid] = {fid.empty() ? "body" : fid, [W, vk](const ros::Time& t) {
            Eigen::Isometry3d T = W.BK; T.translation() += vk * (t == ros::Time() ? 100.0 : 1e-9 * double(std::int64_t(t.toNSec()) - std::int64_t(W.base))); return T; }};
    } else b["frames"]["base_link"] = frame_param(W.BK);
    if (!fid.empty()) b["frame_id"] = fid;
    if (!root && !kid.empty()) b["frames"]["base_link"]["frame_id"] = kid;
    const std::string body = root ? "base_link" : "body";
    p["body_frames"][body] = b;
    const std::string map = r.chance(50) ? "map" : "world";
    if (map != "map") p["map_frame_id"] = map;
    p["mdc"]["translation"] = mdct; p["mdc"]["rotation"] = mdcr;
    p["stereo_tracking"]["only_graph_frames"] = only;
    p["optimisation"]["factors"]["stereo"] = stereo; p["optimisation"]["factors"]["barometer"] = baro;
    p["gravity"] = W.g;
    if (over) { p["imu"]["noise"]["overwrite"] = true; p["imu"]["noise"]["accelerometer"] = 0.05; p["imu"]["noise"]["gyroscope"] = 0.03; }
    if (overb) { p["barometer"]["noise"]["overwrite"] = true; p["barometer"]["noise"]["barometer"] = 0.5; }
    const std::string ref = r.pick(std::vector<std::string>{"NED", "NWU", ""});
    if (!ref.empty()) p["imu"]["reference_frame"] = ref;
    const Eigen::Vector3d p0 = rand_vec(r, 5), v0 = rand_vec(r, 3);
    p["pose"]["position"] = pxyz(p0); p["velocity"]["linear"] = pxyz(v0);
    const double np = r.real(0.01, 0.1), nr = r.real(0.01, 0.1), nv = r.real(0.01, 0.1);
    p["prior_noise"]["position"] = np; p["prior_noise"]["rotation"] = nr; p["prior_noise"]["linear_velocity"] = nv;
    const Eigen::Quaterniond q = r.chance(25) ? Eigen::Quaterniond(0, 0, 0, 0) : rand_rot(r);

    Driver d(r.next());
    shim::Sched::get().preempt = r.chance(50);
    const bool eager = r.chance(50);                     // the optimiser needs the samples alone, not the cloud
    std::deque<long> pending; int ncloud = 0;
    std::map<std::string, std::vector<long>> images;     // republished, since the last event
    std::map<int, std::vector<std::string>> live;        // odometry published by a task
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) {
        if (t == "frontend/deskewed_pointcloud") {
            const C2 c = out<C2>(m);
            ros::Time st; st.fromNSec(c.header.stamp * 1000ull);
            Ev("cloud").i("t", W.us(st)).i("seq", c.header.seq).raw("pts", pts(c)).raw("in", c2::values(c, "intensity")).emit();
            if (ncloud++ && !eager) pending.push_back(W.us(st));
        } else if (t == "frontend/imu_s2s") {
            const auto a = out<serpent::ImuArray>(m);
            Ev("s2s").i("a", W.us(a.start_timestamp)).i("b", W.us(a.end_timestamp)).raw("m", list(a.measurements, [&](const auto& i) { return imu_js(W, i); })).emit();
            if (eager) pending.push_back(W.us(a.end_timestamp));
        } else if (t == "frontend/initial_odometry") {
            const auto o = out<nav_msgs::Odometry>(m);
            std::vector<double> dg, dv; double off = 0;
            for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (i == j) { dg.push_back(o.pose.covariance[7 * i]); dv.push_back(o.twist.covariance[7 * i]); } else off = std::max(off, std::abs(o.pose.covariance[6 * i + j]));
            Ev("initial").raw("o", odo_js(W, o)).raw("pc", nums(dg)).raw("vc", nums(dv)).d("off", off).emit();
            pending.push_back(W.us(o.header.stamp));
        } else if (t == "output/odometry") {
            live[shim::Sched::self() ? shim::Sched::self()->id : 0].push_back(odo_js(W, out<nav_msgs::Odometry>(m)));
        } else if (t == "frontend/barometer") {
            const auto o = out<sensor_msgs::FluidPressure>(m);
            Ev("press").i("t", W.us(o.header.stamp)).d("p", o.fluid_pressure).d("v", o.variance).t("f", o.header.frame_id).emit();
        } else if (t == "tf") {
            const auto o = out<geometry_msgs::TransformStamped>(m);
            Ev("tf").i("t", W.us(o.header.stamp)).t("f", o.header.frame_id).t("cf", o.child_frame_id).raw("p", xyz(o.transform.translation)).raw("q", wxyz(o.transform.rotation)).emit();
        } else if (t == "output/pose") {
            const auto o = out<geometry_msgs::PoseWithCovarianceStamped>(m);
            Ev("pose").i("t", W.us(o.header.stamp)).t("f", o.header.frame_id).raw("p", xyz(o.pose.pose.position)).raw("q", wxyz(o.pose.pose.orientation)).raw("c", list(o.pose.covariance, [](double x) { return num(x); })).emit();
        } else if (t == "stereo/left/image" || t == "stereo/right/image") {
            const auto o = out<sensor_msgs::Image>(m);
            Ev("image").t("topic", t).i("t", W.us(o.header.stamp)).i("id", o.width).emit();
        } else if (t == "stereo/left/camera_info" || t == "stereo/right/camera_info") {
            const auto o = out<sensor_msgs::CameraInfo>(m);
            Ev("image").t("topic", t).i("t", W.us(o.header.stamp)).i("id", o.width).emit();
        }
    });
    note("Frontend");
    std::unique_ptr<serpent::Frontend> node(new serpent::Frontend());
    Ev("front").t("grp", grp).b("stereo", stereo).b("baro", baro).b("only", only).b("spin", W.spin).b("mdct", mdct).b("mdcr", mdcr).T("BI", W.BI).T("BL", W.BL).T("BK", W.BK).v("vk", vk).v("ba", W.bias.accelerometer()).v("bg", W.bias.gyroscope())
        .v("A", W.A).v("w", W.w).d("g", W.g).b("over", over).b("overb", overb).t("map", map).t("bodyid", fid.empty() ? body : fid).t("kid", root ? (fid.empty() ? body : fid) : kid.empty() ? "base_link" : kid)
        .t("ref", ref.empty() ? "NED" : ref).raw("q", nums({q.w(), q.x(), q.y(), q.z()})).v("p0", p0).v("v0", v0).d("np", np).d("nr", nr).d("nv", nv).emit();
    // what is handed over
    std::map<ros::Time, int> parts, ids;
    std::map<int, std::pair<std::string, std::any>> active;
    std::map<std::string, std::map<int, int>> dummy;
    d.on_start = [&](const std::string& t, const std::any& m, shim::Task& k) {
        active[k.id] = {t, m};
        if (t == "input/imu") Ev("imu").raw("m", imu_js(W, out<sensor_msgs::Imu>(m))).emit();
        else if (t == "formatter/formatted_pointcloud") { const C2 c = out<C2>(m); ros::Time st; st.fromNSec(c.header.stamp * 1000ull); Ev("scan").i("t", W.us(st)).i("seq", c.header.seq).raw("pts", pts(c)).raw("pt", c2::values(c, "t")).emit(); }
        else if (t == "input/barometer") { const auto o = out<sensor_msgs::FluidPressure>(m); Ev("baro").i("t", W.us(o.header.stamp)).d("p", o.fluid_pressure).d("v", o.variance).t("f", o.header.frame_id).emit(); }
    };
    d.on_finish = [&](shim::Task& k) {
        const auto a = active[k.id]; active.erase(k.id);
        if (k.failed) Ev("threw").t("topic", a.first).t("what", k.error).emit();
        if (a.first == "input/imu") { Ev("imudone").i("t", W.us(out<sensor_msgs::Imu>(a.second).header.stamp)).raw("odo", list(live[k.id], [](const std::string& s) { return s; })).emit(); live.erase(k.id); }
        ros::Time t; bool img = true;
        if (a.first == "input/stereo/left/image" || a.first == "input/stereo/right/image") t = out<sensor_msgs::Image>(a.second).header.stamp;
        else if (a.first == "input/stereo/left/camera_info" || a.first == "input/stereo/right/camera_info") t = out<sensor_msgs::CameraInfo>(a.second).header.stamp;
        else img = false;
        if (img && ++parts[t] == 4) Ev("frame").i("t", long((std::int64_t(t.toNSec()) - std::int64_t(W.base)) / 1000)).i("id", ids[t]).emit();
    };
    long ti = 0, ts = TICK, tf = 0, tb = 0; int nimu = 0, nscan = 0, nframe = 0;
    auto imu = [&](int dt) { shim::send("input/imu", imu_msg(W, ti, q, nimu++ % 50)); ti += dt * TICK; };
    auto reply = [&] {
        if (pending.empty()) return;
        const long t = pending.front(); pending.pop_front();
        nav_msgs::Odometry o; o.header.stamp = W.time(t); o.header.frame_id = map; o.child_frame_id = fid.empty() ? body : fid;
        const Eigen::Quaterniond oq = rand_rot(r);
        const Eigen::Vector3d op = rand_vec(r, 10), ov = rand_vec(r, 2);
        o.pose.pose.position.x = op.x(); o.pose.pose.position.y = op.y(); o.pose.pose.position.z = op.z();
        eigen_ros::to_ros(o.pose.pose.orientation, oq);
        eigen_ros::to_ros(o.pose.covariance, Eigen::Matrix<double, 6, 6>(rand_spd<6>(r)));
        o.twist.twist.linear.x = ov.x(); o.twist.twist.linear.y = ov.y(); o.twist.twist.linear.z = ov.z();
        serpent::ImuBiases bm; serpent::to_ros(bm, W.bias, W.time(t), "imu");
        Ev("reply").raw("o", odo_js(W, o)).raw("c", list(o.pose.covariance, [](double x) { return num(x); })).emit();
        if (r.chance(50)) { shim::send("optimisation/imu_biases", bm); shim::send("optimisation/odometry", o); } else { shim::send("optimisation/odometry", o); shim::send("optimisation/imu_biases", bm); }
    };
    auto frame = [&](int dt) {
        tf += dt * TICK; ++nframe;
        ros::Time st = W.time(tf) + ros::Duration(0, r.range(0, 999)); ids[st] = nframe;
        std::vector<int> order{0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(order[i], order[r.range(0, i)]);
        for (int k : order) {
            if (k < 2) { sensor_msgs::Image m; m.header.stamp = st; m.width = nframe; m.height = k; shim::send(k ? "input/stereo/right/image" : "input/stereo/left/image", m); }
            else { sensor_msgs::CameraInfo m; m.header.stamp = st; m.width = nframe; m.height = k; shim::send(k == 3 ? "input/stereo/right/camera_info" : "input/stereo/left/camera_info", m); }
            if (r.chance(30)) d.run(1);
        }
        // no camera outruns the node by more than the queues hold
        auto behind = [&] { for (auto& s : shim::Bus::get().subs) if (s->alive && s->topic.compare(0, 12, "input/stereo") == 0 && s->queue.size() > 3) return true; return false; };
        while (behind() && d.step()) {}
    };
    auto scan = [&](int dt, int w) {
        auto subs = shim::Bus::get().startable();
        for (auto& s : shim::Bus::get().subs) if (s->alive && s->topic == "formatter/formatted_pointcloud" && !s->queue.empty()) d.settle(2);  // one scan is queued at most
        for (auto& s : shim::Bus::get().subs) if (s->alive && s->topic == "formatter/formatted_pointcloud" && !s->queue.empty()) return;        // still waiting: the sensor waits too
        ts += dt * TICK; ++nscan;
        shim::send("formatter/formatted_pointcloud", scan_msg(r, W, ts, w * TICK, nscan));
    };
    auto press = [&](int dt) {
        tb += dt * TICK;
        sensor_msgs::FluidPressure m; m.header.stamp = W.time(tb); m.header.frame_id = r.chance(50) ? "baro" : "other"; m.fluid_pressure = r.real(9e4, 1.1e5); m.variance = r.real(0, 50);
        shim::send("input/barometer", m);
    };
    imu(1);
    d.settle(1);
    const std::size_t cut = stop_early ? 2 + r0.range(0, int(ops.size())) : ops.size();
    for (std::size_t k = 1; k < ops.size() && k < cut; ++k) {
        const auto& o = ops[k]; const std::string op = o.str("op");
        if (op == "imu") imu(o.i("d")); else if (op == "frame") frame(o.i("d")); else if (op == "baro") press(o.i("d"));
        else if (op == "scan") scan(o.i("d"), o.i("w")); else if (op == "reply") reply(); else if (op == "run") { note("callbacks"); d.run(o.i("n")); }
    }
    if (!stop_early) {
        note("settle");
        if (r.chance(80)) while (ti <= ts + 30 * TICK) imu(r.range(1, 3));
        if (r.chance(80) && stereo) while (tf <= ts + 10 * TICK) { frame(r.range(2, 6)); d.settle(1); }
        if (r.chance(70) && baro) while (tb <= ts + 10 * TICK) press(r.range(3, 9));
        for (int k = 0; k < 12; ++k) { d.settle(4); reply(); }
        d.settle();
        std::vector<std::string> waits;
        for (auto& k : shim::Sched::get().tasks) waits.push_back(k->name);
        Ev("settled").raw("waits", list(waits, [](const std::string& s) { return str(s); })).i("pending", long(pending.size())).emit();
    }
    note("stop");
    const int before = int(shim::Sched::get().tasks.size());
    const int left = d.stop();
    Ev("stopped").i("waiting", before).i("left", left).i("locked", d.locked).i("misused", shim::Sched::get().misused).emit();
    if (left) node.release(); else node.reset();
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 31);
    if (argc > 6) { for (const auto& s : scen::load(argv[6])) if (!s.empty()) play(s, r, a.group); return finish(); }
    for (int n = 0; n < a.count; ++n) { preint(r); if (n % 4 == 0) integ_node(r); }
    return finish();
}
