// P08 filter chain, P10 formatter, P33 beam directions and normals: the lidar preprocessing modules, driven over topics.
#include "cloud2.hpp"
#include <pcl/conversions.h>
#include <pcl_conversions/pcl_conversions.h>
#include <pointcloud_tools/point_types.hpp>
#include <serpent/front_end/lidar/pointcloud_add_unit_vectors.hpp>
#include <serpent/front_end/lidar/pointcloud_filter.hpp>
#include <serpent/front_end/lidar/pointcloud_formatter.hpp>
#include <serpent/front_end/lidar/pointcloud_normal_estimation.hpp>
#include "changed.hpp"
using namespace vh;
using Params = XmlRpc::XmlRpcValue;

// deliver everything; true if a callback threw
static bool run_all() {
    bool e = false;
    shim::Sched::get().on_finish = [&](shim::Task& t) { e = e || t.failed; };
    for (int guard = 0; guard < 10000; ++guard) {
        auto s = shim::Bus::get().startable();
        if (s.empty()) return e;
        auto& t = shim::Bus::get().start(s[0]);
        if (!shim::Sched::get().step(t)) { std::fprintf(stderr, "callback gave way\n"); std::exit(65); }

    }
    return e;
}
static Params P(double v) { return Params(v); }
static std::string xyzs(const C2& c) { return "[" + c2::values(c, "x") + "," + c2::values(c, "y") + "," + c2::values(c, "z") + "]"; }

// a cloud of finite points; leaf > 0: coordinates keep away from the faces of that grid
static C2 cloud(Rng& r, int np, bool range, bool floats, double leaf, double extent) {
    std::vector<c2::Spec> s{{"x", 7, 1}, {"y", 7, 1}, {"z", 7, 1}};
    if (range) s.push_back({"range", 7, 1});
    if (r.chance(70)) s.push_back({"intensity", floats ? 7 : r.range(1, 8), 1});
    if (r.chance(50)) s.push_back({"t", floats ? 7 : 6, 1});
    if (!floats && r.chance(30)) s.push_back({"extra", r.range(1, 8), r.range(1, 3)});
    C2 c = c2::layout(r, s, !floats && r.chance(60), false);
    // PCL's filters take x, y, z to be adjacent
    for (int i = 0; i < 3; ++i) c.fields[i].offset = (c.fields[0].offset = 0, 4 * i);
    if (floats && s.size() < 4) c.point_step += 4;
    const int h = np > 3 && np % 2 == 0 && r.chance(20) ? 2 : 1;
    c2::shape(r, c, np / h, h);
    c.is_dense = true;
    for (int i = 0; i < np; ++i) for (auto n : {"x", "y", "z"}) {
        double v = r.real(-extent, extent);
        if (leaf > 0) v = leaf * (std::floor(r.real(-extent, extent) / leaf) + r.real(0.05, 0.95));
        c2::put(c, *c2::find(c, n), i, v);
    }
    return c;
}
static void chain(Rng& r) {
    shim::reset();
    shim::Bus::get().route = true;
    auto& p = shim::params();
    bool on[5] = {false, false, false, false, false};
    if (r.chance(70)) on[r.range(0, 4)] = true;
    else for (auto& x : on) x = r.chance(45);
    const double leaf = r.pick(std::vector<double>{0.5, 1.0, 2.5, 0.1});
    const double ext = r.pick(std::vector<double>{1.0, 3.0, 6.0});
    const int minpts = r.range(1, 3);
    int sample = r.range(0, 12), seed = r.range(0, 5), k = r.range(2, 4);
    const double mul = r.pick(std::vector<double>{0.25, 0.5, 1.0, 2.0});
    Eigen::Vector3d lo, hi; for (int i = 0; i < 3; ++i) { lo(i) = r.real(-ext, ext * 0.4); hi(i) = lo(i) + r.real(0, ext * 1.5); }
    Eigen::Vector3d tr = Eigen::Vector3d::Zero(), rot = tr;
    if (r.chance(50)) tr = rand_vec(r, 1);
    if (r.chance(50)) for (int i = 0; i < 3; ++i) rot(i) = r.real(-1.5, 1.5);
    double rmin = r.real(0, 3), rmax = rmin + r.real(0, 6);
    const bool dmin = r.chance(15), dmax = r.chance(15);
    if (!on[0] || r.chance(50)) p["voxel_grid_filter"]["enabled"] = on[0];
    if (!on[2] || r.chance(50)) p["range_filter"]["enabled"] = on[2];
    if (on[1] || r.chance(50)) p["body_filter"]["enabled"] = on[1];
    if (on[3] || r.chance(50)) p["statistical_outlier_removal"]["enabled"] = on[3];
    if (on[4] || r.chance(50)) p["random_sample_filter"]["enabled"] = on[4];
    p["voxel_grid_filter"]["leaf_size"] = leaf; p["voxel_grid_filter"]["minimum_points_number_per_voxel"] = double(minpts);
    const char* ax[] = {"x", "y", "z"}; const char* ar[] = {"rx", "ry", "rz"};
    for (int i = 0; i < 3; ++i) { p["body_filter"]["min"][ax[i]] = lo(i); p["body_filter"]["max"][ax[i]] = hi(i); if (tr.norm() > 0) p["body_filter"]["translation"][ax[i]] = tr(i); if (rot.norm() > 0) p["body_filter"]["rotation"][ar[i]] = rot(i); }
    if (dmin) rmin = 0; else p["range_filter"]["min"] = rmin;
    if (dmax) rmax = 1e300; else p["range_filter"]["max"] = rmax;
    p["statistical_outlier_removal"]["mean_k"] = k; p["statistical_outlier_removal"]["stddev_mul_thresh"] = mul;
    if (on[4] && r.chance(5)) { if (r.chance(50)) sample = -1; else seed = -1; }
    p["random_sample_filter"]["sample_size"] = sample; p["random_sample_filter"]["random_seed"] = seed;
    const bool norange = on[2] && r.chance(4);
    const std::string in = r.chance(50) ? "input/pointcloud" : "other/topic";
    std::vector<std::pair<std::string, C2>> got;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t != in) got.push_back({t, *shim::Travel<C2>::out(m)}); });
    std::unique_ptr<serpent::PointcloudFilter> f;
    note("PointcloudFilter");
    const bool e = threw([&] { if (in == "input/pointcloud") f.reset(new serpent::PointcloudFilter()); else f.reset(new serpent::PointcloudFilter(in)); });
    Ev("filters").b("voxel", on[0]).b("body", on[1]).b("range", on[2]).b("sor", on[3]).b("random", on[4]).i("sample", sample).i("seed", seed).b("exc", e).t("topic", e ? "" : f->output_topic()).emit();
    if (e) { shim::reset(); return; }
    for (int msg = r.range(1, 2); msg; --msg) {
        got.clear();
        C2 c = cloud(r, on[3] ? r.range(6, 14) : r.chance(8) ? 0 : r.range(1, 12), !norange, on[0], on[0] ? leaf : 0, ext);
        // the library searches organised clouds as camera images, which random points are not
        if (on[3]) { c.width *= c.height; c.height = 1; c.row_step = c.width * c.point_step; }
        if (!norange) for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i)
            c2::put(c, *c2::find(c, "range"), i, r.chance(15) ? rmin : r.chance(15) && !dmax ? rmax : r.real(0, 10));
        shim::send(in, c);
        note("PointcloudFilter callbacks");
        const bool x = run_all();
        const int n = on[0] + on[1] + on[2] + on[3] + on[4];
        Ev("chain").i("n", int(got.size())).b("exc", x).b("norange", norange).i("want", n).t("last", got.empty() ? "" : got.back().first).emit();
        if (norange || int(got.size()) != n) continue;
        const char* kinds[] = {"voxel", "body", "range", "sor", "random"};
        C2 src = c;
        int g = 0;
        for (int s = 0; s < 5; ++s) if (on[s]) {
            const C2& o = got[g++].second;
            Ev ev(kinds[s]);
            ev.raw("src", c2::json(src)).raw("out", c2::json(o)).raw("v", xyzs(src));
            switch (s) {
                case 0: ev.d("leaf", leaf).i("min", minpts).raw("a", list(src.fields, [&](const F2& q) { return c2::values(src, q.name); })).raw("b", list(o.fields, [&](const F2& q) { return c2::values(o, q.name); })).raw("ov", xyzs(o)); break;
                case 1: ev.v("lo", lo).v("hi", hi).v("tr", tr).v("rot", rot); break;
                case 2: ev.d("min", rmin).d("max", rmax).raw("vals", c2::values(src, "range")); break;
                case 3: ev.i("k", k).d("mul", mul); break;
                default: ev.i("sample", sample);
            }
            ev.emit();
            src = o;
        }
    }
    shim::reset();
}

static void body_frames(Rng& r, const std::string& lidar_id, bool lidar) {
    Params b; b.make_struct();
    b["frames"]["imu"]["translation"]["x"] = 0.5;
    b["frames"]["imu"]["translation"]["y"] = 0.5;
    b["frames"]["imu"]["translation"]["z"] = 0.5;
    if (lidar) { b["frames"]["lidar"].make_struct(); if (lidar_id != "lidar") b["frames"]["lidar"]["frame_id"] = lidar_id; }
    shim::params()["body_frames"]["base_link"] = b;
}
static void format(Rng& r) {
    shim::reset();
    auto& p = shim::params();
    const std::string id = r.pick(std::vector<std::string>{"lidar", "os_sensor", "velodyne"});
    body_frames(r, id, true);
    const int kind = r.chance(5) ? 2 : r.range(0, 1);  // ouster, custom, unknown
    if (kind == 2) p["pointcloud_type"] = std::string("NONESUCH"); else if (kind == 1) p["pointcloud_type"] = std::string("CUSTOM"); else if (r.chance(50)) p["pointcloud_type"] = std::string("OUSTER");
    const bool tf = r.chance(40), first = r.chance(25);
    float mx = 0.1f;
    if (tf || r.chance(30)) p["time_field_filter"]["enabled"] = tf;
    if (r.chance(70)) { mx = r.pick(std::vector<float>{0.05f, 0.1f, 0.0625f, 0.f}); p["time_field_filter"]["max"] = double(mx); }
    if (first || r.chance(30)) p["first_pointcloud_removal"]["enabled"] = first;
    std::vector<C2> got;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == "formatter/formatted_pointcloud") got.push_back(*shim::Travel<C2>::out(m)); });
    std::unique_ptr<serpent::PointcloudFormatter> f;
    note("PointcloudFormatter");
    const bool e = threw([&] { f.reset(new serpent::PointcloudFormatter()); });
    Ev("formatter").i("kind", kind).b("tf", tf).d("max", mx).b("first", first).t("frame", id).b("exc", e).emit();
    if (e) { shim::reset(); return; }
    for (int msg = r.range(1, 3); msg; --msg) {
        std::vector<c2::Spec> s{{"x", 7, 1}, {"y", 7, 1}, {"z", 7, 1}, {"intensity", r.range(1, 8), 1}};
        if (kind == 0) { if (!r.chance(4)) s.push_back({"t", r.chance(85) ? 6 : r.pick(std::vector<int>{5, 7, 8}), 1}); if (!r.chance(4)) s.push_back({"range", r.chance(85) ? 6 : r.pick(std::vector<int>{4, 7}), 1}); }
        else { const int w = r.range(0, 3); if (w != 1) s.push_back({"t", r.chance(80) ? 7 : 8, 1}); if (w == 1 || w == 2) s.push_back({"time", r.chance(80) ? 7 : 8, 1}); if (r.chance(50)) s.push_back({"range", r.chance(50) ? 7 : 6, 1}); if (r.chance(4)) s.erase(s.begin() + 4); }
        if (r.chance(30)) s.push_back({"ring", r.range(1, 6), 1});
        C2 c = c2::layout(r, s, r.chance(50), r.chance(25));
        c2::shape(r, c, r.chance(5) ? 0 : r.range(1, 6), r.chance(20) ? 2 : 1);
        for (auto n : {"t", "time"}) if (const F2* q = c2::find(c, n)) for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i)
            c2::put(c, *q, i, q->datatype >= 7 ? (r.chance(15) ? double(mx) : r.real(0, 0.15)) : r.chance(10) ? 0 : r.range(0, 150000000));
        sensor_msgs::PointCloud2 m;
        pcl_conversions::fromPCL(c, m);
        shim::send("input/pointcloud", m);
        got.clear();
        note("format");
        const bool x = run_all();
        const C2 o = got.size() == 1 ? got[0] : C2();
        Ev("format").b("exc", x).i("n", int(got.size())).raw("src", c2::json(c)).raw("out", c2::json(o)).raw("t0", c2::values(c, "t")).raw("time0", c2::values(c, "time")).raw("r0", c2::values(c, "range"))
            .raw("t1", c2::values(o, "t")).raw("r1", c2::values(o, "range")).emit();
    }
    shim::reset();
}

// ---- P33
template<class In, class Out> static void normals(Rng& r, bool unit) {
    shim::reset();
    auto& p = shim::params();
    const bool radius = r.chance(40), bad = r.chance(4), dflt = r.chance(10);
    const int k = dflt ? 30 : r.range(3, 8), np = r.range(8, 14);
    const double rad = r.real(0.8, 2.5);
    Eigen::Vector3d vp = Eigen::Vector3d::Zero();
    if (bad) p["normal_estimation"]["method"] = std::string("other"); else if (radius) p["normal_estimation"]["method"] = std::string("radius"); else if (r.chance(50)) p["normal_estimation"]["method"] = std::string("knn");
    if (!dflt) p["normal_estimation"]["k"] = k;
    p["normal_estimation"]["radius"] = rad;
    if (r.chance(40)) { vp = rand_vec(r, 5); const char* ax[] = {"x", "y", "z"}; for (int i = 0; i < 3; ++i) p["normal_estimation"]["viewpoint"][ax[i]] = vp(i); }
    if (r.chance(30)) p["normal_estimation"]["threads"] = r.range(1, 4);
    const std::string in = r.chance(50) ? "input/pointcloud" : "filter/filtered_pointcloud";
    std::vector<C2> got;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == "normal_estimation/pointcloud") got.push_back(*shim::Travel<C2>::out(m)); });
    std::unique_ptr<serpent::PointcloudNormalEstimation<In, Out>> f;
    note("PointcloudNormalEstimation");
    const bool e = threw([&] { f.reset(new serpent::PointcloudNormalEstimation<In, Out>(in)); });
    Ev("normalcfg").b("bad", bad).b("exc", e).emit();
    if (e) { shim::reset(); return; }
    for (int msg = r.range(1, 2); msg; --msg) {
        std::vector<c2::Spec> s{{"x", 7, 1}, {"y", 7, 1}, {"z", 7, 1}};
        if (unit) for (auto n : {"ux", "uy", "uz"}) s.push_back({n, 7, 1});
        if (r.chance(50)) s.push_back({"range", 7, 1});
        C2 c = c2::layout(r, s, r.chance(50), false);
        c2::shape(r, c, np, 1); c.is_dense = true;
        // roughly planar patch: the least variance direction is well defined
        const Eigen::Matrix3d R = rand_rot(r).toRotationMatrix(); const Eigen::Vector3d o = rand_vec(r, 4);
        for (int i = 0; i < np; ++i) { const Eigen::Vector3d q = o + R * Eigen::Vector3d(r.real(-2, 2), r.real(-2, 2), r.real(-0.15, 0.15)); for (int a = 0; a < 3; ++a) c2::put(c, *c2::find(c, std::string(1, "xyz"[a])), i, q(a)); }
        got.clear(); shim::send(in, c);
        note("normal_estimation_callback");
        const bool x = run_all();
        const C2 d = got.size() == 1 ? got[0] : C2();
        auto tri = [](const C2& c, const std::string& pre) { return "[" + c2::values(c, pre + "x") + "," + c2::values(c, pre + "y") + "," + c2::values(c, pre + "z") + "]"; };
        Ev("normals").b("exc", x).i("n", int(got.size())).b("radius", radius).i("k", k).d("r", rad).v("vp", vp).b("unit", unit).raw("v", tri(c, "")).raw("o", tri(d, "")).raw("nrm", tri(d, "normal_")).raw("cu", c2::values(d, "curvature"))
            .raw("u0", tri(c, "u")).raw("u1", tri(d, "u")).t("st0", std::to_string(c.header.stamp)).t("st1", std::to_string(d.header.stamp)).t("f0", c.header.frame_id).t("f1", d.header.frame_id).i("w", d.width).i("h", d.height).emit();
    }
    shim::reset();
}
static void unitnode(Rng& r) {
    shim::reset();
    std::vector<C2> got;
    serpent::PointcloudAddUnitVectors node("in");
    const std::string topic = node.output_topic();
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == topic) got.push_back(*shim::Travel<C2>::out(m)); });
    C2 c = cloud(r, r.chance(5) ? 0 : r.range(1, 8), r.chance(50), false, 0, 20);
    shim::send("in", c);
    note("add_unit_vectors");
    const bool e = run_all();
    const C2 d = got.size() == 1 ? got[0] : C2();
    Ev("unitnode").t("topic", topic).b("exc", e).i("n", int(got.size())).raw("src", c2::json(c)).raw("out", c2::json(d)).raw("v", xyzs(c)).raw("u", "[" + c2::values(d, "ux") + "," + c2::values(d, "uy") + "," + c2::values(d, "uz") + "]").emit();
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    for (int i = 0; i < a.count; ++i) {
        Rng r(a.seed * 1000003ull + a.part * 7919ull + i * 104729ull + std::hash<std::string>{}(a.group) % 1000);
        if (a.group == "P08") chain(r);
        else if (a.group == "P10") format(r);
        else if (a.group == "P33") { if (r.chance(25)) unitnode(r); else if (r.chance(50)) normals<pcl::PointXYZ, pcl::PointNormal>(r, false); else normals<PointUnit, PointNormalUnit>(r, true); }
        else return 64;
    }
    return finish();
}
