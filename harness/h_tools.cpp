// P36: the analysis nodes (IMU, clouds, distances between clouds) and the file converter.
#include "cloud2.hpp"
#include "node.hpp"
#include "scen.hpp"
#include <algorithm>
#include <eigen_ros/eigen_ros.hpp>
#include <imu_tools/imu_analysis.hpp>
#include <pcl/point_types.h>
#include <pcl_conversions/pcl_conversions.h>
#include <pointcloud_tools/compute_distances.hpp>
#include <pointcloud_tools/pointcloud_analyser.hpp>
#include <pointcloud_tools/pointcloud_file_converter.hpp>
#include <statistics_msgs/SummaryStatisticsArray.h>
using namespace vh;
using Xml = XmlRpc::XmlRpcValue;
static std::string qj(const geometry_msgs::Quaternion& q) { return nums({q.w, q.x, q.y, q.z}); }
static std::string tj(const ros::Time& t) { return str(std::to_string(t.toNSec())); }
static std::string word(Rng& r, const std::string& p) { return p + std::to_string(r.range(0, 999)); }
static std::string some(const std::vector<std::string>& v) { return list(v, [](const std::string& s) { return s; }); }

static void imu(Rng& r) {
    shim::reset();
    const bool dflt = r.chance(15), apply = r.chance(60);
    std::string fixed = "fixed", moved = "fixed", topic = "imu";
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    Eigen::Vector3d t = Eigen::Vector3d::Zero();
    auto& p = shim::params();
    if (apply || r.chance(50)) p["apply_transform"] = Xml(apply);
    if (!dflt) {
        fixed = word(r, "map"); moved = word(r, "x"); topic = word(r, "imu");
        R = rand_rot(r).toRotationMatrix(); t = rand_vec(r, 5);
        std::vector<double> v; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(R(i, j));
        p["fixed_frame"] = Xml(fixed); p["transformed_frame"] = Xml(moved); p["imu_topic"] = Xml(topic); p["rotation"] = Xml(v); p["translation"] = Xml(std::vector<double>{t[0], t[1], t[2]});
    }
    std::vector<std::string> out;
    shim::Bus::get().taps.push_back([&](const std::string& where, const std::any& m) {
        const auto x = *shim::Travel<geometry_msgs::TransformStamped>::out(m);
        out.push_back(Obj().t("on", where).r("stamp", tj(x.header.stamp)).t("from", x.header.frame_id).t("to", x.child_frame_id).r("q", qj(x.transform.rotation))
            .r("t", nums({x.transform.translation.x, x.transform.translation.y, x.transform.translation.z})).end());
    });
    ImuAnalysis node;
    Driver d(r.next());
    d.dies = true;
    for (int n = r.range(1, 4); n > 0; --n) {
        sensor_msgs::Imu m;
        m.header.stamp = ros::Time(r.range(1, 100000), r.range(0, 999999999)); m.header.frame_id = word(r, "i");
        const Eigen::Quaterniond q = rand_rot(r);
        const double s = r.chance(50) ? 1 : -1;
        m.orientation.w = s * q.w(); m.orientation.x = s * q.x(); m.orientation.y = s * q.y(); m.orientation.z = s * q.z();
        auto put = [&](geometry_msgs::Vector3& v) { const auto e = rand_vec(r, 10); v.x = e[0]; v.y = e[1]; v.z = e[2]; };
        put(m.angular_velocity); put(m.linear_acceleration);
        for (auto& x : m.orientation_covariance) x = r.real(0, 1);
        out.clear();
        shim::send<sensor_msgs::Imu>(topic, m);
        note("ImuAnalysis::analyse");
        d.settle(2);
        Ev("imu").raw("q", qj(m.orientation)).raw("stamp", tj(m.header.stamp)).t("frame", m.header.frame_id).t("fixed", fixed).t("moved", moved).b("apply", apply).m("R", R).v("t", t).b("died", d.dead).raw("out", some(out)).emit();
    }
    shim::reset();
}

using XYZ = pcl::PointXYZ;
using Cloud = pcl::PointCloud<XYZ>;
static std::string pts(const Cloud& c) { return list(c, [](const XYZ& p) { return nums({p.x, p.y, p.z}); }); }
static void distances(Rng& r) {
    shim::reset();
    shim::tf_tree().clear();
    const std::string root = word(r, "odom"), fs = word(r, "s"), ft = r.chance(15) ? fs : word(r, "t");
    const bool joined = r.chance(90) || ft == fs;
    // the frames move; their poses are those of the stamp asked for
    const Eigen::Isometry3d S = rand_iso(r, 5), T = rand_iso(r, 5);
    const Eigen::Vector3d vs = rand_vec(r, 1), vt = rand_vec(r, 1);
    auto at = [](const Eigen::Isometry3d& P, const Eigen::Vector3d& v, const ros::Time& t) { Eigen::Isometry3d Q = P; Q.translation() += v * (t.toSec() - 1000.0); return Q; };
    shim::tf_tree()[fs] = {root, [=](const ros::Time& t) { return at(S, vs, t); }};
    if (ft != fs) shim::tf_tree()[ft] = {joined ? root : root + "_other", [=](const ros::Time& t) { return at(T, vt, t); }};
    std::vector<std::string> out; int n_out = 0;
    shim::Bus::get().taps.push_back([&](const std::string& where, const std::any& m) {
        const C2 c = *std::any_cast<shim::CloudPtr>(m);
        ++n_out;
        out.push_back(Obj().t("on", where).r("c", c2::json(c)).r("x", c2::values(c, "x")).r("y", c2::values(c, "y")).r("z", c2::values(c, "z")).r("d", c2::values(c, "distance")).end());
    });
    pct::ComputePointToPointDistances<XYZ, XYZ> node;
    Driver d(r.next());
    d.dies = true;
    long now = 1000;
    for (int n = r.range(1, 3); n > 0 && !d.dead; --n) {
        now += r.range(1, 3);
        const std::uint64_t us = now * 1000000ull + r.range(0, 999999);
        Cloud s, t;
        const int ns = r.chance(5) ? 0 : r.range(1, 8), nt = r.range(1, 8);
        for (int i = 0; i < ns; ++i) s.push_back(XYZ(float(r.real(-10, 10)), float(r.real(-10, 10)), float(r.real(-10, 10))));
        for (int i = 0; i < nt; ++i) t.push_back(XYZ(float(r.real(-10, 10)), float(r.real(-10, 10)), float(r.real(-10, 10))));
        if (r.chance(30) && ns) t.push_back(s[0]);
        if (r.chance(20) && ns) { s.push_back(s[0]); }
        if (ns && r.chance(20) && s.size() % 2 == 0) { s.width = s.size() / 2; s.height = 2; }
        s.header.stamp = t.header.stamp = us; s.header.frame_id = fs; t.header.frame_id = ft;
        const bool pair = r.chance(85);
        if (!pair) t.header.stamp += r.range(1, 1000);
        out.clear();
        note("ComputeDistances");
        if (r.chance(50)) { shim::send<Cloud>("input_source", s); d.settle(2); shim::send<Cloud>("input_target", t); }
        else { shim::send<Cloud>("input_target", t); d.settle(2); shim::send<Cloud>("input_source", s); }
        d.settle(2);
        ros::Time st; st.fromNSec(us * 1000ull);
        Ev("distances").raw("s", pts(s)).raw("t", pts(t)).t("stamp", std::to_string(us)).t("frame", fs).b("pair", pair).b("joined", joined).T("A", at(S, vs, st)).T("B", ft == fs ? at(S, vs, st) : at(T, vt, st)).b("died", d.dead).raw("out", some(out)).emit();
    }
    shim::tf_tree().clear();
    shim::reset();
}

static C2 cloud(Rng& r, bool multiple) {
    for (;;) {
        C2 c = c2::random_cloud(r, 6);
        bool ok = c.width * c.height > 0;
        for (auto& f : c.fields) ok = ok && (f.count == 1 || multiple);
        if (!ok) continue;
        if (!multiple) for (auto& f : c.fields) for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i) if (r.chance(5)) c2::put(c, f, i, 0);
        return c;
    }
}
static void analyse(Rng& r) {
    shim::reset();
    pct::PointcloudAnalyser node;
    Driver d(r.next());
    d.dies = true;
    std::vector<std::string> out;
    shim::Bus::get().taps.push_back([&](const std::string& where, const std::any& m) {
        const auto a = *shim::Travel<statistics_msgs::SummaryStatisticsArray>::out(m);
        out.push_back(Obj().t("on", where).r("stamp", tj(a.header.stamp)).t("frame", a.header.frame_id).r("s", list(a.statistics, [](const statistics_msgs::SummaryStatistics& s) {
            return Obj().t("label", s.label).r("v", nums({s.min, s.max, s.mean, s.variance, double(s.count)})).end(); })).end());
    });
    for (int n = r.range(1, 3); n > 0; --n) {
        const C2 c = cloud(r, false);
        sensor_msgs::PointCloud2 m;
        pcl_conversions::fromPCL(c, m);
        out.clear();
        shim::send<sensor_msgs::PointCloud2>("input", m);
        note("PointcloudAnalyser::analyse");
        d.settle(2);
        Ev("analysed").raw("fields", list(c.fields, [&](const F2& f) { return Obj().t("n", f.name).r("v", c2::values(c, f.name)).end(); })).raw("stamp", tj(m.header.stamp)).t("frame", c.header.frame_id).b("died", d.dead).raw("out", some(out)).emit();
    }
    shim::reset();
}

// ---- the file converter
static std::string content(C2 c) {       // the fields by name: their order in memory is not the converter's concern, nor is PCL's name for bytes between fields
    c.fields.erase(std::remove_if(c.fields.begin(), c.fields.end(), [](const F2& f) { return f.name == "_"; }), c.fields.end());
    std::sort(c.fields.begin(), c.fields.end(), [](const F2& a, const F2& b) { return a.name < b.name; });
    return Obj().i("w", c.width).i("h", c.height).r("f", list(c.fields, [&](const F2& f) {
        std::string v = "[";
        for (std::uint32_t k = 0; k < f.count; ++k) {
            F2 e = f; e.offset += k * c2::size_of(f.datatype);
            for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i) { if (v.size() > 1) v += ","; v += c2::value(c, e, i); }
        }
        return Obj().t("n", f.name).i("t", f.datatype).i("c", f.count).r("v", v + "]").end();
    })).end();
}
static void files(const std::vector<scen::Op>& ops, Rng& r) {
    shim::reset();
    char dir[] = "/tmp/verif_files_XXXXXX";
    if (!mkdtemp(dir)) std::exit(65);
    std::vector<std::string> made, out;
    auto path = [&](int p) { return std::string(dir) + "/f" + std::to_string(p) + (p > 0 ? ".pcd" : ".unknown"); };
    {
        pct::PointcloudFileConverter node;
        auto& bus = shim::Bus::get();
        bus.taps.push_back([&](const std::string& where, const std::any& m) {
            const C2 c = *std::any_cast<shim::CloudPtr>(m);
            out.push_back(Obj().t("on", where).r("c", content(c)).t("stamp", std::to_string(c.header.stamp)).t("frame", c.header.frame_id).end());
            bus.latest[where] = m;
        });
        Ev("files").emit();
        for (const auto& o : ops) {
            const std::string topic = "t" + o.str("t");
            out.clear();
            if (o.str("op") == "arrive") {
                const C2 c = cloud(r, true);
                bus.latest[topic] = shim::Travel<C2>::in(c);
                Ev("arrive").t("t", topic).raw("c", content(c)).emit();
            } else if (o.str("op") == "save") {
                pointcloud_tools::message_to_file::Request q; pointcloud_tools::message_to_file::Response a;
                q.filepath = path(o.i("p")); q.topic = topic; q.timeout = 0.1; q.is_pcl_type = r.chance(50);
                bool ok = false;
                note("save_pointcloud");
                const bool exc = threw([&] { ok = bus.services.at("save_pointcloud")(&q, &a); });
                Ev("save").t("t", topic).i("p", o.i("p")).b("ok", ok && !exc).raw("out", some(out)).emit();
            } else if (o.str("op") == "load") {
                pointcloud_tools::file_to_message::Request q; pointcloud_tools::file_to_message::Response a;
                q.filepath = path(o.i("p")); q.topic = topic; q.frame_id = word(r, "f"); q.latch = r.chance(50); q.as_pcl_type = r.chance(50);
                bool ok = false;
                const double from = shim::clock_now();
                note("load_pointcloud");
                const bool exc = threw([&] { ok = bus.services.at("load_pointcloud")(&q, &a); });
                const double to = shim::clock_now();
                Ev("load").t("t", topic).i("p", o.i("p")).t("frame", q.frame_id).b("latch", q.latch).b("ok", ok && !exc).d("from", from * 1e6).d("to", to * 1e6).raw("out", some(out))
                    .i("advertised", bus.adverts[topic].first).b("latched", bus.adverts[topic].second).emit();
            }
        }
    }
    for (int p = 0; p < 9; ++p) unlink(path(p).c_str());
    rmdir(dir);
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 67);
    if (argc > 6) { for (const auto& s : scen::load(argv[6])) files(s, r); return finish(); }
    for (long i = 0; i < a.count; ++i) {
        const int k = r.range(0, 99);
        if (k < 35) imu(r); else if (k < 70) distances(r); else analyse(r);
    }
    return finish();
}
