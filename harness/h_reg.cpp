// P14 registration, P26 shutdown: the registration node.
#include "node.hpp"
#include "scen.hpp"
#include <eigen_ros/eigen_ros.hpp>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <pcl_conversions/pcl_conversions.h>
#include <pcl/registration/icp.h>
#include <pcl/registration/gicp.h>
#include <pcl/registration/ndt.h>
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/registration.hpp>
using namespace vh;
using Params = XmlRpc::XmlRpcValue;
template<class M> static M out(const std::any& a) { return *shim::Travel<M>::out(a); }
static Params pxyz(const Eigen::Vector3d& v) { Params p; p["x"] = v.x(); p["y"] = v.y(); p["z"] = v.z(); return p; }
static void frame(Params& b, const std::string& n, const Eigen::Isometry3d& T) {
    b["frames"][n]["translation"] = pxyz(T.translation());
    const Eigen::Quaterniond q(T.rotation()); Params w; w["w"] = q.w(); w["x"] = q.x(); w["y"] = q.y(); w["z"] = q.z();
    b["frames"][n]["rotation"] = w;
}
template<class P> struct Beam { static constexpr bool has = false; static void set(P&, const Eigen::Vector3d&) {} static Eigen::Vector3d get(const P&) { return Eigen::Vector3d::Zero(); } };
template<> struct Beam<PointNormalUnit> {
    static constexpr bool has = true;
    static void set(PointNormalUnit& p, const Eigen::Vector3d& u) { p.ux = u.x(); p.uy = u.y(); p.uz = u.z(); }
    static Eigen::Vector3d get(const PointNormalUnit& p) { return {p.ux, p.uy, p.uz}; }
};
template<class P> static std::string cloud_js(const pcl::PointCloud<P>& c, bool full) {
    return list(c, [&](const P& p) { std::vector<double> v{p.x, p.y, p.z}; if (full) { const auto u = Beam<P>::get(p); v.insert(v.end(), {p.normal_x, p.normal_y, p.normal_z, u.x(), u.y(), u.z()}); } return nums(v); });
}
static Eigen::Isometry3d small(Rng& r, double t, double a) {
    Eigen::Isometry3d D = Eigen::Isometry3d::Identity();
    D.translation() = rand_dir(r) * t; D.linear() = Eigen::AngleAxisd(a, rand_dir(r)).toRotationMatrix();
    return D;
}
static double off(Rng& r) { return r.chance(55) ? r.real(0.15, 0.28) : r.chance(75) ? r.real(0.8, 1.1) : 60.0; }
template<class P> static void play(const std::vector<scen::Op>& ops, Rng& r0, const std::string& grp) {
    using Cloud = pcl::PointCloud<P>;
    shim::reset(); shim::Sched::get().misused = 0;
    const scen::Op& cfg = ops[0];
    Rng r(std::uint64_t(cfg.i("s")) * 31 + r0.next() % 1000);
    const bool refine = cfg.b("refine"), ident = r.chance(25);
    Eigen::Isometry3d BL = Eigen::Isometry3d::Identity();
    if (!ident) { BL.linear() = rand_rot(r).toRotationMatrix(); BL.translation() = rand_vec(r, 1); }
    auto& p = shim::params();
    Params b; b.make_struct();
    const std::string body = r.chance(50) ? "base_link" : "body";
    if (body != "base_link") b["frame_id"] = body;
    b["frames"]["imu"]["frame_id"] = "imu";
    if (ident) b["frames"]["lidar"]["frame_id"] = "lidar"; else frame(b, "lidar", BL);
    p["body_frames"]["base_link"] = b;
    const double ds = r.chance(50) ? 0.5 : 1.5, dm = r.chance(50) ? 0.5 : 1.5;
    if (!refine || r.chance(50)) p["s2m"]["enabled"] = refine;
    p["s2s"]["method"] = std::string("icp"); p["s2m"]["method"] = std::string("icp");
    p["s2s"]["base"]["max_correspondence_distance"] = ds; p["s2m"]["base"]["max_correspondence_distance"] = dm;
    p["s2s"]["base"]["maximum_iterations"] = r.range(5, 20); p["s2m"]["base"]["maximum_iterations"] = r.range(5, 20);
    const bool simple = r.chance(60);
    std::string method = simple ? "CONSTANT" : r.pick(std::vector<std::string>{"CENSI", "CENSI", "LLS"});
    const std::string model = r.pick(std::vector<std::string>{"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"});
    const bool beams = method == "CENSI" && Beam<P>::has;
    const std::string point = beams && r.chance(60) ? (r.chance(50) ? "RANGE" : "RANGE_BIAS") : r.chance(60) ? "CONSTANT" : "VOXEL_SIZE";
    const double crot = r.real(0.01, 0.2), ctr = r.real(0.01, 0.5), pc = r.real(0.02, 0.2), leaf = r.real(0.05, 0.4), rn = r.real(0.01, 0.1), rb = r.real(0.01, 0.1);
    auto& rc = p["registration_covariance"];
    rc["method"] = method; rc["model"] = model; rc["constant"]["rotation"] = crot; rc["constant"]["translation"] = ctr;
    rc["point_covariance"]["method"] = point; rc["point_covariance"]["constant"] = pc; rc["point_covariance"]["range_noise"] = rn; rc["point_covariance"]["range_bias_noise"] = rb;
    p["voxel_grid_filter"]["enabled"] = point == "VOXEL_SIZE" || r.chance(50); p["voxel_grid_filter"]["leaf_size"] = leaf;
    // settings that are refused
    if (r.chance(12)) {
        std::string bad;
        switch (r.range(0, 8)) {
            case 0: rc["method"] = std::string("MAGIC"); bad = "method"; break;
            case 1: rc["method"] = std::string("LLS"); rc["point_covariance"]["method"] = std::string("RANGE"); bad = "lls range"; break;
            case 2: rc["method"] = std::string("LLS"); rc["point_covariance"]["method"] = std::string("RANGE_BIAS"); bad = "lls bias"; break;
            case 3: rc["method"] = std::string("CENSI"); rc["point_covariance"]["method"] = std::string("RANGE"); rc["point_covariance"]["range_noise"] = r.chance(50) ? 0.0 : -0.1; bad = "range noise"; break;
            case 4: rc["method"] = std::string("CENSI"); rc["point_covariance"]["method"] = std::string("RANGE_BIAS"); rc["point_covariance"]["range_bias_noise"] = r.chance(50) ? 0.0 : -0.1; bad = "bias noise"; break;
            case 5: rc["method"] = std::string("CENSI"); rc["point_covariance"]["method"] = std::string("VOXEL_SIZE"); p["voxel_grid_filter"]["enabled"] = false; bad = "voxel"; break;
            case 6: p["s2s"]["method"] = std::string("magic"); bad = "s2s"; break;
            case 7: p["s2m"]["method"] = std::string("magic"); bad = refine ? "s2m" : ""; break;
            case 8: rc["method"] = std::string("LLS"); rc["model"] = std::string("MAGIC"); bad = "model"; break;
        }
        bool exc = false;
        try { serpent::Registration<P> n; } catch (const std::exception&) { exc = true; }
        Ev("regcfg").t("bad", bad).b("exc", exc).emit();
        shim::reset();
        return;
    }
    std::vector<geometry_msgs::PoseWithCovarianceStamped> outs;
    note("Registration");
    std::unique_ptr<serpent::Registration<P>> node(new serpent::Registration<P>());
    const double v1 = point == "CONSTANT" ? pc : point == "VOXEL_SIZE" ? leaf : rn;
    Ev("reg").t("grp", grp).b("refine", refine).d("ds", ds).d("dm", dm).t("method", method).t("model", model).t("point", point).d("s1", v1).d("s2", rb).d("crot", crot).d("ctr", ctr).t("f", body).T("BL", BL).i("which", r.range(1, 2)).emit();
    Driver d(r.next());
    shim::Sched::get().preempt = r.chance(50);
    bool failed = false;
    d.on_finish = [&](shim::Task& k) { failed = failed || k.failed; if (k.failed) std::fprintf(stderr, "task %s: %s\n", k.name.c_str(), k.error.c_str()); };
    const std::uint64_t base = std::uint64_t(r.range(1, 2000000000)) * 1000000ull;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) {
        if (t != "registration/transform") return;
        const auto o = out<geometry_msgs::PoseWithCovarianceStamped>(m);
        const auto& q = o.pose.pose.orientation; const auto& x = o.pose.pose.position;
        Eigen::Matrix<double, 6, 6> C; for (int i = 0; i < 36; ++i) C(i / 6, i % 6) = o.pose.covariance[i];
        Ev("moved").i("t", long(o.header.stamp.toNSec() / 1000 - base)).t("f", o.header.frame_id).raw("q", nums({q.w, q.x, q.y, q.z})).raw("p", nums({x.x, x.y, x.z})).m("C", C).emit();
    });
    // the world: well separated points seen from moving lidar poses
    const int n = simple ? r.range(4, 7) : model.find("PLANE") != std::string::npos ? r.range(9, 11) : r.range(5, 8);
    const bool full = !simple;
    std::vector<Eigen::Vector3d> W, N;
    while (int(W.size()) < n) { const Eigen::Vector3d v = rand_vec(r, 9); bool ok = v.norm() > 2; for (auto& w : W) ok = ok && (v - w).norm() > 4.5; if (ok) { W.push_back(v); N.push_back(rand_dir(r)); } }
    const int M = 10;
    std::vector<Eigen::Isometry3d> L(M + 1, Eigen::Isometry3d::Identity());
    std::vector<std::uint64_t> ts(M + 1);
    std::uint64_t now = base;
    for (int k = 1; k <= M; ++k) { ts[k] = now += r.range(1, 200000); if (k > 1) L[k] = L[k - 1] * small(r, r.real(0.3, 1.5), r.real(0.05, 0.4)); }
    auto seen = [&](int k, const Eigen::Isometry3d& D) {
        Cloud c; c.header.stamp = ts[k]; c.header.frame_id = "lidar";
        const Eigen::Isometry3d T = D * L[k].inverse();
        for (int i = 0; i < n; ++i) {
            P q; const Eigen::Vector3d v = T * W[i], nn = T.rotation() * N[i];
            q.x = v.x(); q.y = v.y(); q.z = v.z(); q.normal_x = nn.x(); q.normal_y = nn.y(); q.normal_z = nn.z(); q.curvature = 0;
            Beam<P>::set(q, v.normalized());
            c.push_back(q);
        }
        return c;
    };
    int scans = 0, guesses = 0, maps = 0;
    for (std::size_t k = 1; k < ops.size(); ++k) {
        const auto& o = ops[k]; const std::string op = o.str("op");
        note("registration " + op);
        if (op == "run") d.run(o.i("n") * 3);
        else if (op == "scan") {
            const Cloud c = seen(++scans, Eigen::Isometry3d::Identity());
            Ev("scan").i("t", long(ts[scans] - base)).raw("c", cloud_js(c, full)).emit();
            shim::send("normal_estimation/pointcloud", c);
        } else if (op == "guess") {
            ++guesses;
            Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
            if (guesses > 1) T = L[guesses - 1].inverse() * L[guesses] * small(r, off(r), 0.004);
            const Eigen::Quaterniond q(T.rotation());
            geometry_msgs::TransformStamped m; m.header.stamp = pcl_conversions::fromPCL(ts[guesses]);
            m.transform.rotation.w = q.w(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z();
            m.transform.translation.x = T.translation().x(); m.transform.translation.y = T.translation().y(); m.transform.translation.z = T.translation().z();
            Ev("guess").i("t", long(ts[guesses] - base)).T("T", T).emit();
            shim::send("optimisation/imu_transform", m);
        } else if (op == "map") {
            const Cloud c = seen(++maps, small(r, off(r), 0.004));
            Ev("map").raw("c", cloud_js(c, full)).emit();
            shim::send("mapping/local_map", c);
        }
    }
    if (grp != "P26") { d.settle(); Ev("settled").b("exc", failed).emit(); }
    const int before = int(shim::Sched::get().tasks.size());
    const int left = d.stop();
    Ev("stopped").i("waiting", before).i("left", left).i("locked", d.locked).i("misused", shim::Sched::get().misused).emit();
    if (left) node.release(); else node.reset();
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 41);
    if (argc <= 6) return 64;
    pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
    for (const auto& s : scen::load(argv[6])) if (!s.empty()) { if (r.chance(50)) play<PointNormalUnit>(s, r, a.group); else play<pcl::PointNormal>(s, r, a.group); }
    return finish();
}
