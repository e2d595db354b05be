// P15 keyframes, P16 local maps: the mapping node.
#include "node.hpp"
#include "scen.hpp"
#include <eigen_ros/eigen_ros.hpp>
#include <nav_msgs/Path.h>
#include <pcl_conversions/pcl_conversions.h>
#include <pointcloud_tools/point_types.hpp>
#include <serpent/PoseGraph.h>
#include <std_srvs/Empty.h>
#include <serpent/mapping/mapping.hpp>
using namespace vh;
using Params = XmlRpc::XmlRpcValue;
template<class M> static M out(const std::any& a) { return *shim::Travel<M>::out(a); }
static std::string col(const std::vector<double>& v) { return list(v, [](double x) { return num(x); }); }
template<class P> static std::string cloud_js(const pcl::PointCloud<P>& c, const std::string& extra = "") {
    std::vector<double> x, y, z, a, b, d; std::vector<long> t;
    for (const auto& p : c) { x.push_back(p.x); y.push_back(p.y); z.push_back(p.z); a.push_back(p.normal_x); b.push_back(p.normal_y); d.push_back(p.normal_z); t.push_back(std::lround(p.curvature)); }
    return "\"p\":[" + col(x) + "," + col(y) + "," + col(z) + "],\"n\":[" + col(a) + "," + col(b) + "," + col(d) + "],\"tag\":" + list(t, [](long i) { return std::to_string(i); }) + extra;
}
static Params pxyz(const Eigen::Vector3d& v) { Params p; p["x"] = v.x(); p["y"] = v.y(); p["z"] = v.z(); return p; }
static void frame(Params& b, const std::string& n, const Eigen::Isometry3d& T) {
    b["frames"][n]["translation"] = pxyz(T.translation());
    const Eigen::Quaterniond q(T.rotation()); Params w; w["w"] = q.w(); w["x"] = q.x(); w["y"] = q.y(); w["z"] = q.z();
    b["frames"][n]["rotation"] = w;
}
template<class P> static void play(const std::vector<scen::Op>& ops, Rng& r0, const std::string& grp) {
    using Cloud = pcl::PointCloud<P>;
    shim::reset();
    const scen::Op& cfg = ops[0];
    Rng r(std::uint64_t(cfg.i("s")) * 31 + r0.next() % 1000);
    const bool grid = r.chance(30), past = cfg.b("past");
    Eigen::Isometry3d BL = Eigen::Isometry3d::Identity();
    if (!grid) { BL.linear() = rand_rot(r).toRotationMatrix(); BL.translation() = rand_vec(r, 1); }
    auto& p = shim::params();
    Params b; b.make_struct();
    b["frames"]["imu"]["frame_id"] = "imu";
    if (grid) b["frames"]["lidar"]["frame_id"] = "lidar_id"; else frame(b, "lidar", BL);
    p["body_frames"]["base_link"] = b;
    const double thr = grid ? 1.0 : r.real(0.3, 2), rthr = r.real(0.2, 1.5), leaf = r.real(0.3, 2);
    const int n = r.range(1, cfg.i("n") + 2), minpts = r.range(1, 2);
    const bool vl = r.chance(25), vg = r.chance(35);
    p["mapping"]["distance_threshold"] = thr; p["mapping"]["rotation_threshold"] = rthr;
    p["mapping"]["frame_extraction_number"] = n; p["mapping"]["frame_extraction_method"] = std::string(past ? "PAST" : "NEARBY");
    p["mapping"]["voxel_grid_filter"]["enabled_local"] = vl; p["mapping"]["voxel_grid_filter"]["enabled_global"] = vg;
    p["mapping"]["voxel_grid_filter"]["leaf_size"] = leaf; p["mapping"]["voxel_grid_filter"]["minimum_points_number_per_voxel"] = double(minpts);
    const std::string map = r.chance(50) ? "map" : "world";
    if (map != "map") p["map_frame_id"] = map;
    std::vector<Cloud> local, global; std::vector<serpent::PoseGraph> graphs;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) {
        if (t == "mapping/local_map") local.push_back(out<Cloud>(m));
        if (t == "output/global_map") global.push_back(out<Cloud>(m));
        if (t == "output/pose_graph") graphs.push_back(out<serpent::PoseGraph>(m));
    });
    note("Mapping");
    std::unique_ptr<serpent::Mapping<P>> node(new serpent::Mapping<P>());
    Ev("mapper").t("grp", grp).b("past", past).b("grid", grid).i("n", n).d("thr", thr).d("rthr", rthr).b("vlocal", vl).b("vglobal", vg).d("leaf", double(float(leaf))).i("minpts", minpts)
        .t("map", map).t("lidar", grid ? "lidar_id" : "lidar").T("BL", BL).emit();
    Driver d(r.next());
    bool failed = false;
    d.on_finish = [&](shim::Task& k) { failed = failed || k.failed; if (k.failed) std::fprintf(stderr, "task %s: %s\n", k.name.c_str(), k.error.c_str()); };
    const std::uint64_t base = std::uint64_t(r.range(1, 2000000000)) * 1000000ull;
    std::vector<Eigen::Isometry3d> path; std::vector<std::uint64_t> ts;    // T_W^B and stamps (us)
    auto stamp = [&](std::uint64_t us) { ros::Time t; t.fromNSec(us * 1000); return t; };
    auto jump = [&](bool far) {
        Eigen::Isometry3d D = Eigen::Isometry3d::Identity();
        if (grid) { const double s = r.pick(std::vector<double>{1.0, 1.0, 0.5, 1.5, 2.0}); D.translation()[r.range(0, 2)] = r.chance(50) ? s : -s; }
        else if (r.chance(15)) { D.translation() = rand_vec(r, 0.03); if (r.chance(50)) D.linear() = Eigen::AngleAxisd(r.real(0, 0.02), rand_vec(r, 1).normalized()).toRotationMatrix(); }    // hardly moving
        else { D.translation() = rand_vec(r, 1).normalized() * thr * (far ? r.real(0.9, 3) : r.real(0, 1.2)); D.linear() = Eigen::AngleAxisd(rthr * (r.chance(20) ? r.real(0.8, 1.5) : r.real(0, 0.5)), rand_vec(r, 1).normalized()).toRotationMatrix(); }
        return D;
    };
    long tag = 0; std::uint64_t now = base;
    auto us = [&](const ros::Time& t) { return long(t.toNSec() / 1000 - base); };
    auto update = [&](int kind, bool far, int fix) {      // kind 0: normal, 1: path without the scan's pose, 2: empty path
        const std::uint64_t t = now += r.range(1, 200000);
        path.push_back((path.empty() ? Eigen::Isometry3d::Identity() : path.back()) * jump(far));
        ts.push_back(t);
        // corrections: none, the last few, or everything; the message lists all poses or only changed ones
        const int last = int(path.size()) - 1;
        const int from = fix == 0 ? last : fix <= 2 ? std::max(0, last - r.range(1, 4)) : 0;
        const bool turn = !grid && r.chance(25);      // corrections that turn the lidar where it is
        for (int i = from; i < last; ++i) if (turn) path[i] = path[i] * BL * Eigen::AngleAxisd(r.real(0, 1), rand_vec(r, 1).normalized()) * BL.inverse();
            else path[i] = path[i] * (grid ? jump(false) : [&] { Eigen::Isometry3d D = jump(false); D.translation() *= 0.4; return D; }());
        nav_msgs::Path pm; pm.header.stamp = stamp(t); pm.header.frame_id = map;
        std::string js;
        const bool all = r.chance(60);
        if (kind != 2) for (int i = all ? 0 : from; i <= last; ++i) {
            if (kind == 1 && i == last) continue;
            if (!all && i < last && r.chance(15)) { continue; }
            geometry_msgs::PoseStamped ps; ps.header.stamp = stamp(ts[i]); ps.header.frame_id = "base_link_" + std::to_string(i);
            const Eigen::Quaterniond q(path[i].rotation());
            ps.pose.position.x = path[i].translation().x(); ps.pose.position.y = path[i].translation().y(); ps.pose.position.z = path[i].translation().z();
            ps.pose.orientation.w = q.w(); ps.pose.orientation.x = q.x(); ps.pose.orientation.y = q.y(); ps.pose.orientation.z = q.z();
            pm.poses.push_back(ps);
            js += (js.empty() ? "" : ",") + Obj().i("t", us(ps.header.stamp)).r("T", mat(path[i].matrix().topRows<3>().eval())).end();
        }
        Cloud c; c.header.stamp = t; c.header.frame_id = "lidar"; ++tag;
        for (int k = r.range(2, 4); k; --k) {
            P q; const Eigen::Vector3d v = rand_vec(r, r.chance(50) ? 3 : 30), nn = rand_vec(r, 1).normalized();
            q.x = v.x(); q.y = v.y(); q.z = v.z(); q.normal_x = nn.x(); q.normal_y = nn.y(); q.normal_z = nn.z(); q.curvature = tag;
            c.push_back(q);
        }
        local.clear(); failed = false;
        if (r.chance(50)) { shim::send("normal_estimation/pointcloud", c); if (r.chance(50)) d.settle(1); shim::send("optimisation/path_changes", pm); }
        else { shim::send("optimisation/path_changes", pm); if (r.chance(50)) d.settle(1); shim::send("normal_estimation/pointcloud", c); }
        d.settle(2);
        Ev("upd").i("t", us(stamp(t))).raw("path", "[" + js + "]").i("tag", tag).raw("pts", "{" + cloud_js(c) + "}").b("exc", failed)
            .raw("out", list(local, [&](const Cloud& o) { return Obj().i("t", us(pcl_conversions::fromPCL(o.header.stamp))).t("f", o.header.frame_id).end(); })).emit();
        if (local.size() == 1 && !failed) { Ev e("local"); e.s += "," + cloud_js(local[0]); e.emit(); }
        if (kind) { path.pop_back(); ts.pop_back(); }
    };
    auto call = [&](const std::string& s) {
        std_srvs::Empty::Request q; std_srvs::Empty::Response a;
        return shim::Bus::get().services.at(s)(&q, &a);
    };
    for (std::size_t k = 1; k < ops.size(); ++k) {
        const auto& o = ops[k]; const std::string op = o.str("op");
        note("mapping " + op);
        if (op == "upd") update(0, o.i("far") <= 4, o.i("fix"));
        else if (op == "bad") update(o.i("k") == 1 ? 2 : 1, o.i("k") == 2, 0);
        else if (op == "map") { global.clear(); const bool ok = call("publish_map"); Ev e("gmap"); e.b("ok", ok && global.size() == 1).t("f", global.empty() ? "" : global[0].header.frame_id); e.s += "," + cloud_js(global.empty() ? Cloud() : global[0]); e.emit(); }
        else if (op == "graph") {
            graphs.clear(); const bool ok = call("publish_pose_graph");
            const auto g = graphs.empty() ? serpent::PoseGraph() : graphs[0];
            std::vector<std::string> cl, ps, qs; std::vector<long> t;
            for (const auto& m : g.clouds) {
                Cloud c; pcl::fromROSMsg(m, c);
                std::vector<double> x, y, z; for (const auto& q : c) { x.push_back(q.x); y.push_back(q.y); z.push_back(q.z); }
                cl.push_back("[" + col(x) + "," + col(y) + "," + col(z) + "]");
            }
            for (const auto& m : g.poses) { t.push_back(us(m.header.stamp)); const auto& x = m.pose.pose; ps.push_back(nums({x.position.x, x.position.y, x.position.z})); qs.push_back(nums({x.orientation.w, x.orientation.x, x.orientation.y, x.orientation.z})); }
            auto id = [](const std::string& s) { return s; };
            Ev("graph").b("ok", ok && graphs.size() == 1).raw("ts", list(t, [](long i) { return std::to_string(i); })).raw("ps", list(ps, id)).raw("qs", list(qs, id)).raw("clouds", list(cl, id)).emit();
        }
    }
    node.reset();
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 37);
    if (argc <= 6) return 64;
    for (const auto& s : scen::load(argv[6])) if (!s.empty()) { if (r.chance(50)) play<PointNormalUnit>(s, r, a.group); else play<pcl::PointNormal>(s, r, a.group); }
    return finish();
}
