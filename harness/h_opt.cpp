// P25 back end, P26 shutdown: the optimisation node.  The optimiser calls are recorded (isam.hpp).
#include "node.hpp"
#include "scen.hpp"
#include "isam.hpp"
#include <deque>
#include <eigen_ros/eigen_ros.hpp>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <sensor_msgs/FluidPressure.h>
#include <serpent/ImuArray.h>
#include <serpent/ImuBiases.h>
#include <serpent/StereoFeatures.h>
#include <serpent/back_end/optimisation.hpp>
using Params = XmlRpc::XmlRpcValue;
using Eigen::Isometry3d; using Eigen::Vector3d;
template<class M> static M out(const std::any& a) { return *shim::Travel<M>::out(a); }
static Params pxyz(const Vector3d& v) { Params p; p["x"] = v.x(); p["y"] = v.y(); p["z"] = v.z(); return p; }
static void frame(Params& b, const std::string& n, const Isometry3d& T) {
    b["frames"][n]["translation"] = pxyz(T.translation());
    const Eigen::Quaterniond q(T.rotation()); Params w; w["w"] = q.w(); w["x"] = q.x(); w["y"] = q.y(); w["z"] = q.z();
    b["frames"][n]["rotation"] = w;
}
template<class V> static std::string xyz(const V& v) { return nums({v.x, v.y, v.z}); }
template<class Q> static std::string wxyz(const Q& q) { return nums({q.w, q.x, q.y, q.z}); }
template<class C> static std::string all(const C& c) { return list(c, [](double x) { return num(x); }); }
static Isometry3d mount(Rng& r) { Isometry3d T = Isometry3d::Identity(); if (r.chance(20)) return T; T.linear() = rand_rot(r).toRotationMatrix(); if (r.chance(80)) T.translation() = rand_vec(r, 0.5); return T; }
static void fill(Vector3d v, geometry_msgs::Vector3& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }

static void play(const std::vector<scen::Op>& ops, Rng& r0, const std::string& grp) {
    shim::reset(); shim::Sched::get().misused = 0;
    Rng r(std::uint64_t(ops[0].i("s")) * 37 + r0.next() % 1000);
    bool imu_on, reg_on, ster_on, baro_on = r.chance(60);
    switch (r.range(0, 9)) { case 0: imu_on = 1; reg_on = ster_on = 0; break; case 1: imu_on = 0; reg_on = 1; ster_on = 0; break; case 2: imu_on = 0; reg_on = 0; ster_on = 1; break;
        case 3: imu_on = 0; reg_on = ster_on = 1; break; case 4: case 5: imu_on = reg_on = 1; ster_on = 0; break; case 6: imu_on = ster_on = 1; reg_on = 0; break; default: imu_on = reg_on = ster_on = 1; }
    const std::string body = r.chance(50) ? "base_link" : "body", map = r.chance(50) ? "map" : "world", lid = r.chance(50) ? "lidar" : "os_lidar", cam = r.chance(50) ? "stereo" : "left_cam";
    const Isometry3d BI = mount(r), BL = mount(r);
    Isometry3d BS = Isometry3d::Identity(); { Eigen::Matrix3d Rc; Rc << 0, 0, 1, -1, 0, 0, 0, -1, 0; BS.linear() = Rc * Eigen::AngleAxisd(r.real(0, 0.1), rand_dir(r)).toRotationMatrix(); BS.translation() = rand_vec(r, 0.4); }
    auto& p = shim::params();
    Params b; b.make_struct();
    if (body != "base_link") b["frame_id"] = body;
    frame(b, "imu", BI); frame(b, "lidar", BL); frame(b, cam, BS);
    if (lid != "lidar") b["frames"]["lidar"]["frame_id"] = lid;
    p["body_frames"]["base_link"] = b;
    if (map != "map") p["map_frame_id"] = map;
    auto flag = [&](const std::string& n, bool on) { if (!on || r.chance(70)) p["optimisation"]["factors"][n] = on; };
    flag("imu", imu_on); flag("registration", reg_on); flag("stereo", ster_on); flag("barometer", baro_on);
    auto set = [&](const std::vector<std::string>& path, double lo, double hi, double dflt) {
        if (r.chance(25)) return dflt;
        const double v = r.real(lo, hi);
        Params* q = &p[path[0]]; for (std::size_t i = 1; i < path.size(); ++i) q = &(*q)[path[i]];
        *q = v; return v;
    };
    const double g = set({"gravity"}, 9.7, 9.9, 9.81), itg = set({"imu", "noise", "integration"}, 1e-3, 1e-2, 1e-3), bi = set({"imu", "noise", "integration_bias"}, 1e-3, 1e-2, 1e-3);
    const double ba = set({"imu", "noise", "accelerometer_bias"}, 1e-3, 1e-2, 1e-3), bg = set({"imu", "noise", "gyroscope_bias"}, 1e-3, 1e-2, 1e-3);
    const double sl = set({"stereo_factors", "noise", "left_x"}, 0.5, 3, 5), sr = set({"stereo_factors", "noise", "right_x"}, 0.5, 3, 5), sy = set({"stereo_factors", "noise", "y"}, 0.5, 3, 10);
    const double bb = set({"barometer", "noise", "barometer_bias"}, 1e-3, 1e-1, 1e-6), pa = set({"prior_noise", "accelerometer_bias"}, 0.01, 0.1, 1e-3), pg = set({"prior_noise", "gyroscope_bias"}, 0.01, 0.05, 1e-3), pb = set({"prior_noise", "barometer_bias"}, 1e-2, 1, 1e-6);
    if (cam != "stereo") p["stereo_factors"]["left_cam_frame"] = cam;
    const bool robust = r.chance(50);
    std::string rtype = "huber";
    if (!robust || r.chance(50)) p["stereo_factors"]["robust"]["enabled"] = robust;
    if (robust && r.chance(60)) p["stereo_factors"]["robust"]["type"] = rtype = r.pick(std::vector<std::string>{"cauchy", "dcs", "fair", "geman_mcclure", "huber", "tukey", "welsch", "l2_with_dead_zone", "null"});
    static const std::map<std::string, std::pair<std::string, double>> rpar{{"cauchy", {"k", 0.1}}, {"dcs", {"c", 1.0}}, {"fair", {"c", 1.3998}}, {"geman_mcclure", {"c", 1.0}}, {"huber", {"k", 1.345}}, {"l2_with_dead_zone", {"k", 1.0}}, {"tukey", {"c", 4.6851}}, {"welsch", {"c", 2.9846}}};
    double rk = 1; std::string rs = "BLOCK";
    if (rtype != "null") {
        const auto& q = rpar.at(rtype); rk = q.second;
        if (r.chance(75) || rtype == "cauchy") p["stereo_factors"]["robust"][rtype][q.first] = rk = r.real(1.5, 5);
        if (r.chance(40)) p["stereo_factors"]["robust"][rtype]["reweight_scheme"] = rs = r.chance(50) ? "SCALAR" : "BLOCK";
    }
    if (grp == "P25K") { imu_on = false; reg_on = baro_on = true; ster_on = false; p["isam2"]["optimization"] = std::string("Dogleg"); p["optimisation"]["factors"]["imu"] = false; p["optimisation"]["factors"]["stereo"] = false; p["optimisation"]["factors"]["barometer"] = true; p["optimisation"]["factors"]["registration"] = true; }
    else if (imu_on && r.chance(30)) p["isam2"]["optimization"] = std::string("Dogleg");
    if (r.chance(30)) p["isam2"]["relinearize_skip"] = 1;
    if (r.chance(30)) p["isam2"]["factorization"] = std::string("QR");
    const int win = r.chance(30) ? r.range(0, 3) : -1;
    if (win >= 0) { p["optimisation"]["marginalisation"]["enabled"] = true; p["optimisation"]["marginalisation"]["window_size"] = win; }
    const bool points = ster_on && r.chance(50);
    if (points) p["debug"]["optimisation"]["publish_stereo_points"] = true;
    if (grp != "P25K" && r.chance(6)) {   // settings that are refused
        std::string bad;
        switch (r.range(0, 4)) {
            case 0: p["isam2"]["optimization"] = std::string("magic"); bad = "optimization"; break;
            case 1: p["barometer"]["noise"]["barometer_bias"] = 0.0; bad = baro_on ? "baro" : ""; break;
            case 2: p["stereo_factors"]["robust"]["enabled"] = true; p["stereo_factors"]["robust"]["type"] = std::string("magic"); bad = ster_on ? "robust" : ""; break;
            case 3: p["optimisation"]["marginalisation"]["enabled"] = true; p["optimisation"]["marginalisation"]["window_size"] = -1; bad = "window"; break;
            case 4: p["stereo_factors"]["robust"]["enabled"] = true; p["stereo_factors"]["robust"]["type"] = std::string("huber"); p["stereo_factors"]["robust"]["huber"]["reweight_scheme"] = std::string("magic"); bad = ster_on ? "scheme" : ""; break;
        }
        bool exc = false;
        try { serpent::Optimisation n; } catch (const std::exception&) { exc = true; }
        Ev("optcfg").t("bad", bad).b("exc", exc).emit();
        shim::reset();
        return;
    }
    g_numeric = true; g_updates.clear(); g_removed.clear(); g_opt = nullptr; g_libexc = false;
    note("Optimisation");
    std::unique_ptr<serpent::Optimisation> node(new serpent::Optimisation());
    // cameras
    const double fx = r.real(300, 500), fy = r.real(300, 500), cx = r.real(200, 400), cy = r.real(150, 300), skew = r.chance(30) ? r.real(-1, 1) : 0.0, base = r.real(0.2, 0.6);
    Ev("optim").t("grp", grp).raw("on", "[" + std::string(imu_on ? "\"imu\"," : "") + (reg_on ? "\"reg\"," : "") + (ster_on ? "\"stereo\"," : "") + (baro_on ? "\"baro\"," : "") + "\"\"]").t("body", body).t("map", map).t("lid", lid)
        .T("BI", BI).T("BL", BL).T("BS", BS).d("g", g).d("itg", itg).d("bi", bi).d("ba", ba).d("bg", bg).d("sl", sl).d("sr", sr).d("sy", sy).b("robust", robust).t("rt", rtype).d("rk", rk).t("rs", rs).d("bb", bb).d("pa", pa).d("pg", pg).d("pb", pb)
        .i("win", win).b("points", points).raw("K", nums({fx, fy, skew, cx, cy, base})).emit();
    const std::uint64_t t0 = 1000ull * (std::uint64_t(r.range(1, 2000000000)) * 1000ull);
    auto stamp = [&](long us) { ros::Time t; t.fromNSec(t0 + std::uint64_t(us) * 1000ull); return t; };
    auto us = [&](const ros::Time& t) { return long((std::int64_t(t.toNSec()) - std::int64_t(t0)) / 1000); };
    // what happens: motion, samples
    const int M = 10;
    std::vector<long> T(M + 1, 0);
    std::vector<Isometry3d> B(M + 1);
    std::vector<std::vector<sensor_msgs::Imu>> arr(M + 1);
    std::vector<Eigen::Matrix3d> ca(M + 1), cg(M + 1);
    B[0] = Isometry3d::Identity(); B[0].linear() = rand_rot(r).toRotationMatrix(); B[0].translation() = rand_vec(r, 5);
    const Vector3d v0 = rand_vec(r, 1.0), G(0, 0, -g);
    Vector3d v = v0;
    T[0] = r.range(0, 500000);
    for (int k = 1; k <= M; ++k) {
        const int n = r.range(2, 5); std::vector<long> at{T[k - 1] - (r.chance(50) ? 0 : r.range(0, 20000))};
        for (int i = 1; i < n; ++i) at.push_back(std::max(at.back(), T[k - 1]) + r.range(10000, 80000));
        T[k] = at.back() + r.range(1, 40000);
        if (r.chance(40)) at.push_back(T[k] + r.range(0, 20000));
        ca[k] = Eigen::Matrix3d::Identity() * r.real(1e-4, 1e-3); cg[k] = Eigen::Matrix3d::Identity() * r.real(1e-4, 1e-3);
        Isometry3d X = B[k - 1];
        for (std::size_t i = 0; i < at.size(); ++i) {
            const Vector3d aB = rand_vec(r, 1), wB = rand_vec(r, 0.3);     // of the body, in the body
            const double dt = 1e-6 * std::max(0L, std::min(T[k], i + 1 < at.size() ? at[i + 1] : T[k]) - std::max(T[k - 1], at[i]));
            const Vector3d f = X.rotation().transpose() * -G + aB;
            X.translation() += v * dt + X.rotation() * aB * (dt * dt / 2); v += X.rotation() * aB * dt;
            X.linear() = (Eigen::Quaterniond(X.rotation()) * Eigen::Quaterniond(Eigen::AngleAxisd(wB.norm() * dt, wB.normalized()))).normalized().toRotationMatrix();
            sensor_msgs::Imu m; m.header.stamp = stamp(at[i]); m.header.frame_id = "imu"; m.orientation.w = 1;
            const Vector3d fs = BI.rotation().transpose() * (f + wB.cross(wB.cross(BI.translation()))) + rand_vec(r, 0.05), ws = BI.rotation().transpose() * wB + rand_vec(r, 0.01);
            fill(fs, m.linear_acceleration); fill(ws, m.angular_velocity);
            for (int a = 0; a < 3; ++a) { m.linear_acceleration_covariance[4 * a] = ca[k](a, a); m.angular_velocity_covariance[4 * a] = cg[k](a, a); }
            arr[k].push_back(m);
        }
        B[k] = X;
    }
    // landmarks: each visible in consecutive frames
    struct Lm { Vector3d p; int from, to; };
    std::vector<Lm> lms;
    for (int k = 0; k <= M; ++k) for (int n = k ? r.range(2, 3) : 8; n; --n) lms.push_back({B[k] * BS * Vector3d(r.real(-3, 3), r.real(-2, 2), r.real(7, 14)), k, k + r.range(1, 6)});
    std::set<int> dead; int lastframe = -1; std::set<int> lastids;
    // a message the node must refuse
    const std::string bad = grp == "P25K" || r.chance(88) ? "" : r.pick(std::vector<std::string>{"cov", "regstamp", "var", "barostamp", "base"});
    const int badat = r.range(1, 4);
    bool sentbad = false;
    Driver d(r.next()); d.dies = true;
    shim::Sched::get().preempt = r.chance(50);
    bool failed = false; std::string error; std::map<int, int> barok; int bars = 0;
    d.on_start = [&](const std::string& t, const std::any&, shim::Task& k) { if (t == "frontend/barometer") { barok[k.id] = ++bars; Ev("barin").emit(); } };
    d.on_finish = [&](shim::Task& k) { if (k.failed) { failed = true; error = k.error; } else if (barok.count(k.id)) Ev("bardone").emit(); };
    int states = 0;
    g_on_update = [&] {
        std::string cov = "[]";
        if (!ster_on) try { cov = mat(g_opt->marginalCovariance(X(states))); } catch (const std::exception&) {}
        // an estimate that has run away is the optimiser's business: the history ends here
        const gtsam::Values est = g_opt->calculateEstimate();
        bool away = false;
        for (const auto& q : est.extract<gtsam::Pose3>()) away = away || !(q.second.translation().norm() < 1e3);
        for (const auto& q : est.extract<gtsam::Vector3>()) away = away || !(q.second.norm() < (gtsam::Symbol(q.first).chr() == 'v' ? 30 : 1e3));
        for (const auto& q : est.extract<gtsam::imuBias::ConstantBias>()) away = away || !(q.second.vector().norm() < 3);
        if (away) { d.dead = failed = g_libexc = true; g_libwhat = "diverged"; }
        ++states;
        Ev("isam").raw("u", g_updates.back()).raw("est", g_est).raw("cov", cov).emit();
        g_updates.clear();
    };
    int owed = 0, moved = 0, regs = 0;
    auto path = [&](const nav_msgs::Path& m) { return Obj().i("t", us(m.header.stamp)).t("f", m.header.frame_id).r("p", list(m.poses, [&](const auto& q) { return Obj().i("t", us(q.header.stamp)).t("f", q.header.frame_id).r("p", xyz(q.pose.position)).r("q", wxyz(q.pose.orientation)).end(); })).end(); };
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) {
        if (d.dead) return;
        if (t == "optimisation/imu_transform") {
            const auto o = out<geometry_msgs::TransformStamped>(m);
            ++moved;
            Ev("guess").i("t", us(o.header.stamp)).t("f", o.header.frame_id).t("cf", o.child_frame_id).raw("q", wxyz(o.transform.rotation)).raw("p", xyz(o.transform.translation)).emit();
        } else if (t == "optimisation/odometry") {
            const auto o = out<nav_msgs::Odometry>(m);
            Ev("odo").i("t", us(o.header.stamp)).t("f", o.header.frame_id).t("cf", o.child_frame_id).raw("q", wxyz(o.pose.pose.orientation)).raw("p", xyz(o.pose.pose.position)).raw("v", xyz(o.twist.twist.linear)).raw("C", all(o.pose.covariance))
                .raw("rem", list(g_removed, [](const std::string& s) { return s; })).emit();
            g_removed.clear();
        } else if (t == "optimisation/imu_biases") {
            const auto o = out<serpent::ImuBiases>(m);
            Ev("bias").i("t", us(o.header.stamp)).raw("b", nums({o.accelerometer_bias.x, o.accelerometer_bias.y, o.accelerometer_bias.z, o.gyroscope_bias.x, o.gyroscope_bias.y, o.gyroscope_bias.z})).emit();
        } else if (t == "output/path" || t == "optimisation/path_changes") {
            Ev("path").b("all", t == "output/path").raw("m", path(out<nav_msgs::Path>(m))).emit();
        } else if (t == "debug/stereo_points") {
            Ev("points").raw("p", list(out<pcl::PointCloud<pcl::PointXYZ>>(m), [](const auto& q) { return nums({q.x, q.y, q.z}); })).emit();
        }
    });
    auto send_reg = [&] {
        while (owed > regs && moved > regs + 1 && !failed) {
            const int k = ++regs;
            Isometry3d D = B[k - 1].inverse() * B[k];
            D.translation() += rand_vec(r, 0.02); D.linear() = (D.rotation() * Eigen::AngleAxisd(0.005, rand_dir(r)).toRotationMatrix()).eval();
            const Eigen::Quaterniond q(D.rotation());
            Eigen::Matrix<double, 6, 6> C = rand_spd<6>(r, 0.05) * 0.01;
            const bool bc = bad == "cov" && k == badat, bs = bad == "regstamp" && k == badat;
            if (bc) { if (r.chance(50)) C = Eigen::Matrix<double, 6, 6>(C - Eigen::Matrix<double, 6, 6>::Identity()); else C(r.range(0, 5), 0) += 0.5, C(1, 4) += 0.1; }
            else if (r.chance(50)) C = Eigen::Matrix<double, 6, 6>((C + C.transpose()) / 2);     // symmetric to the last bit, or only up to rounding
            else C(2, 3) *= 1 + 4e-16;
            geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = stamp(T[k] + (bs ? 1 : 0)); m.header.frame_id = body;
            m.pose.pose.position.x = D.translation().x(); m.pose.pose.position.y = D.translation().y(); m.pose.pose.position.z = D.translation().z();
            eigen_ros::to_ros(m.pose.pose.orientation, q);
            for (int i = 0; i < 36; ++i) m.pose.covariance[i] = C(i / 6, i % 6);
            sentbad = sentbad || bc || bs;
            Ev("reg").i("t", us(m.header.stamp)).raw("q", wxyz(m.pose.pose.orientation)).raw("p", xyz(m.pose.pose.position)).raw("C", all(m.pose.covariance)).b("bad", bc || bs).emit();
            shim::send("registration/transform", m);
        }
    };
    int nimu = 0, nbaro = 0;
    for (std::size_t j = 1; j < ops.size() && !failed; ++j) {
        const auto& o = ops[j]; const std::string op = o.str("op"); const int k = o.i("k");
        note("optimisation " + op);
        if (op == "run") { d.run(o.i("n") * 3); send_reg(); }
        else if (op == "init") {
            nav_msgs::Odometry m; m.header.stamp = stamp(T[0]); m.header.frame_id = map; m.child_frame_id = body;
            const Eigen::Quaterniond q(B[0].rotation());
            m.pose.pose.position.x = B[0].translation().x(); m.pose.pose.position.y = B[0].translation().y(); m.pose.pose.position.z = B[0].translation().z();
            eigen_ros::to_ros(m.pose.pose.orientation, q);
            const Eigen::Matrix<double, 6, 6> C = rand_spd<6>(r, 0.05) * 0.1; const Eigen::Matrix3d Cv = rand_spd<3>(r, 0.05) * 0.1;
            for (int i = 0; i < 36; ++i) m.pose.covariance[i] = C(i / 6, i % 6);
            for (int i = 0; i < 9; ++i) m.twist.covariance[6 * (i / 3) + i % 3] = Cv(i / 3, i % 3);
            fill(v0, m.twist.twist.linear);
            Ev("init").i("t", T[0]).raw("q", wxyz(m.pose.pose.orientation)).raw("p", xyz(m.pose.pose.position)).raw("v", xyz(m.twist.twist.linear)).raw("C", all(m.pose.covariance)).m("Cv", Cv).emit();
            shim::send("frontend/initial_odometry", m);
        } else if (op == "imu") {
            ++nimu;
            serpent::ImuArray m; m.start_timestamp = stamp(T[nimu - 1]); m.end_timestamp = stamp(T[nimu]); m.measurements = arr[nimu];
            Ev("imu").i("a", T[nimu - 1]).i("b", T[nimu]).d("ca", ca[nimu](0, 0)).d("cg", cg[nimu](0, 0)).raw("m", list(m.measurements, [&](const auto& i) { return Obj().i("t", us(i.header.stamp)).r("a", xyz(i.linear_acceleration)).r("w", xyz(i.angular_velocity)).end(); })).emit();
            shim::send("frontend/imu_s2s", m);
        } else if (op == "reg") { if (reg_on) ++owed; }
        else if (op == "stereo") {
            if (!ster_on) continue;
            serpent::StereoFeatures m; m.header.stamp = stamp(T[k]);
            auto& L = m.left_info.K; L[0] = fx; L[1] = skew; L[2] = cx; L[4] = fy; L[5] = cy; L[8] = 1;
            const bool bb = bad == "base" && lastframe < 0;
            m.right_info.P[0] = fx; m.right_info.P[5] = fy; m.right_info.P[2] = cx; m.right_info.P[3] = bb ? fx * base : -fx * base;
            m.left_info.P = m.right_info.P; m.left_info.P[3] = 0; m.right_info.K = m.left_info.K;
            std::set<int> ids;
            std::vector<int> order; for (int i = 0; i < int(lms.size()); ++i) order.push_back(i);
            for (int i = int(order.size()) - 1; i > 0; --i) std::swap(order[i], order[r.range(0, i)]);
            for (int id : order) {
                const Lm& l = lms[id];
                if (dead.count(id) || k < l.from || k > l.to) continue;
                const Vector3d c = BS.inverse() * (B[k].inverse() * l.p);
                if (c.z() < 3) { dead.insert(id); continue; }
                serpent::StereoFeature f; f.id = id;
                f.left_x = cx + fx * c.x() / c.z() + r.real(-0.2, 0.2); f.right_x = cx + fx * (c.x() - base) / c.z() + r.real(-0.2, 0.2);
                f.left_y = cy + fy * c.y() / c.z() + r.real(-0.2, 0.2); f.right_y = cy + fy * c.y() / c.z() + r.real(-0.2, 0.2);
                m.features.push_back(f); ids.insert(id);
            }
            for (int id : lastids) if (!ids.count(id)) dead.insert(id);
            lastids = ids; lastframe = k; sentbad = sentbad || bb;
            Ev("frame").i("t", T[k]).i("k", k).b("bad", bb).raw("f", list(m.features, [](const auto& f) { return "{\"id\":" + std::to_string(f.id) + ",\"z\":" + nums({f.left_x, f.left_y, f.right_x, f.right_y}) + "}"; })).emit();
            shim::send("stereo/features", m);
        } else if (op == "baro") {
            if (!baro_on) continue;
            ++nbaro;
            const bool bv = bad == "var" && nbaro == badat, bs = bad == "barostamp" && nbaro == badat;
            sensor_msgs::FluidPressure m; m.header.stamp = stamp(T[k] - (bs ? (k ? 1 : -1) : 0)); m.fluid_pressure = r.real(95000, 101000); m.variance = bv ? (r.chance(50) ? 0.0 : -1.0) : r.real(0.5, 5);
            sentbad = sentbad || bv || bs;
            const double h = gtsam::BarometricFactor(X(0), P(0), m.fluid_pressure * 1e-3, gtsam::noiseModel::Unit::Create(1)).heightOut(m.fluid_pressure * 1e-3);
            Ev("bar").i("t", us(m.header.stamp)).i("k", k).d("p", m.fluid_pressure).d("v", m.variance).d("h", h).b("bad", bv || bs).emit();
            shim::send("frontend/barometer", m);
        }
        send_reg();
    }
    if (grp != "P26" || failed) {
        for (int n = 0; n < 2 * M && !failed; ++n) { d.settle(); const int k = regs; send_reg(); if (k == regs) break; }
        const bool lib = failed && !sentbad && (g_libexc || error.find("ndeterminant") != std::string::npos);
        Ev("settled").b("exc", failed).b("lib", lib).b("bad", sentbad).t("why", (g_libexc ? g_libwhat : error).substr(0, 160)).i("reg", owed).emit();
    }
    const int before = int(shim::Sched::get().tasks.size());
    const int left = d.stop();
    if (!failed) Ev("stopped").i("waiting", before).i("left", left).i("locked", d.locked).i("misused", shim::Sched::get().misused).emit();
    g_on_update = {};
    if (left || failed) node.release(); else node.reset();
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 43);
    if (a.group == "P25K") {   // the plainest history: the first state, then one interval and its registration
        auto op = [](const std::string& n, int k = 0) { scen::Op o; o.s["op"] = n; o.s["k"] = std::to_string(k); return o; };
        std::vector<scen::Op> ops{op("cfg"), op("init"), op("baro", 0)};
        for (int k = 1; k < 4; ++k) { ops.push_back(op("imu")); ops.push_back(op("baro", k)); ops.push_back(op("reg")); }
        play(ops, r, a.group);
        return finish();
    }
    if (argc <= 6) return 64;
    std::cout.setstate(std::ios::failbit);
    for (const auto& s : scen::load(argv[6])) if (!s.empty()) play(s, r, a.group);
    return finish();
}
