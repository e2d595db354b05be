// P03 IMU samples, P04 body-frame tree, P05 conversions, P32 accumulation of motion: eigen_ros, eigen_gtsam, small tool nodes.
#include "vh.hpp"
#include <eigen_gtsam/eigen_gtsam.hpp>
#include <eigen_ros/body_frames.hpp>
#include <eigen_ros/body_frames_tf.hpp>
#include <eigen_ros/eigen_ros.hpp>
#include <imu_tools/imu_transform.hpp>
#include <navigation_tools/combine_transforms.hpp>
#include <navigation_tools/odometry_to_tf.hpp>
#include <serpent/utils/ros_conversion.hpp>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include "changed.hpp"
using namespace vh;
using namespace eigen_ros;
using M6 = Eigen::Matrix<double, 6, 6>;

static std::string qj(const Eigen::Quaterniond& q) { return nums({q.w(), q.x(), q.y(), q.z()}); }
static std::string tj(const ros::Time& t) { return str(std::to_string(t.toNSec())); }
struct Obj {
    std::string s = "{";
    Obj& r(const std::string& k, const std::string& v) { if (s.size() > 1) s += ","; s += str(k) + ":" + v; return *this; }
    std::string end() { return s + "}"; }
};
static std::string imuj(const Imu& i) {
    return Obj().r("q", qj(i.orientation)).r("w", vec(i.angular_velocity)).r("a", vec(i.linear_acceleration)).r("qc", mat(i.orientation_covariance))
        .r("wc", mat(i.angular_velocity_covariance)).r("ac", mat(i.linear_acceleration_covariance)).r("t", tj(i.timestamp)).r("f", str(i.frame)).end();
}
static std::string posej(const Pose& p) { return Obj().r("p", vec(p.position)).r("q", qj(p.orientation)).r("c", mat(p.covariance)).end(); }
static std::string twistj(const Twist& t) { return Obj().r("v", vec(t.linear)).r("w", vec(t.angular)).r("c", mat(t.covariance)).end(); }
static std::string odomj(const Odometry& o) { return Obj().r("pose", posej(o.pose)).r("twist", twistj(o.twist)).r("t", tj(o.timestamp)).r("f", str(o.frame)).r("cf", str(o.child_frame)).end(); }
template<class P> static std::string xyz(const P& p) { return nums({p.x, p.y, p.z}); }
template<class Q> static std::string wxyz(const Q& q) { return nums({q.w, q.x, q.y, q.z}); }
template<class A> static std::string flat(const A& a) { return list(a, [](double d) { return num(d); }); }
static std::string hdr(const std_msgs::Header& h) { return Obj().r("t", tj(h.stamp)).r("f", str(h.frame_id)).end(); }
static std::string m_pose(const geometry_msgs::Pose& m) { return Obj().r("p", xyz(m.position)).r("q", wxyz(m.orientation)).end(); }
static std::string m_tf(const geometry_msgs::Transform& m) { return Obj().r("p", xyz(m.translation)).r("q", wxyz(m.rotation)).end(); }
static std::string m_posec(const geometry_msgs::PoseWithCovariance& m) { return Obj().r("pose", m_pose(m.pose)).r("c", flat(m.covariance)).end(); }
static std::string m_twistc(const geometry_msgs::TwistWithCovariance& m) { return Obj().r("v", xyz(m.twist.linear)).r("w", xyz(m.twist.angular)).r("c", flat(m.covariance)).end(); }
static std::string m_imu(const sensor_msgs::Imu& m) {
    return Obj().r("h", hdr(m.header)).r("q", wxyz(m.orientation)).r("w", xyz(m.angular_velocity)).r("a", xyz(m.linear_acceleration))
        .r("qc", flat(m.orientation_covariance)).r("wc", flat(m.angular_velocity_covariance)).r("ac", flat(m.linear_acceleration_covariance)).end();
}
static std::string m_odom(const nav_msgs::Odometry& m) { return Obj().r("h", hdr(m.header)).r("cf", str(m.child_frame_id)).r("pose", m_posec(m.pose)).r("twist", m_twistc(m.twist)).end(); }

static ros::Time rtime(Rng& r) { return r.chance(10) ? ros::Time(0, r.range(0, 5)) : ros::Time(r.range(1, 2000000000), r.range(0, 999999999)); }
static std::string rname(Rng& r) { return r.pick(std::vector<std::string>{"imu", "map", "", "body", "base_link", "camera_0"}); }
template<int N> static Eigen::Matrix<double, N, N> rmat(Rng& r) {  // all entries different: a misplaced one shows
    Eigen::Matrix<double, N, N> m;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = r.real(-5, 5);
    return m;
}
// covariances in which some quantities are certain (zero), and the marks drivers use for 'unknown'
template<class M> static M part_known(Rng& r, M c, bool marks = false) {
    if (r.chance(20)) { for (int i = 0; i < c.rows(); ++i) if (r.chance(40)) { c.row(i).setZero(); c.col(i).setZero(); } }
    else if (r.chance(8)) c.setZero();
    else if (r.chance(8)) { const M d = c.diagonal().asDiagonal(); c = d; }
    if (marks && r.chance(8)) { c.setZero(); c(0, 0) = -1; }
    return c;
}
static Imu rimu(Rng& r, bool sym) {
    Imu i(rand_rot(r), rand_vec(r, 5), rand_vec(r, 20), rmat<3>(r), rmat<3>(r), rmat<3>(r), rtime(r), rname(r));
    if (r.chance(15)) i.orientation = Eigen::Quaterniond(0, 0, 0, 0);
    else if (r.chance(30)) i.orientation.coeffs() *= -1;
    if (sym || r.chance(50)) { i.orientation_covariance = rand_spd<3>(r); i.angular_velocity_covariance = rand_spd<3>(r); i.linear_acceleration_covariance = rand_spd<3>(r); }
    if (!sym) { i.orientation_covariance = part_known(r, i.orientation_covariance, true); i.angular_velocity_covariance = part_known(r, i.angular_velocity_covariance, true); i.linear_acceleration_covariance = part_known(r, i.linear_acceleration_covariance, true); }
    return i;
}
static Pose rpose(Rng& r) { Pose p(rand_vec(r, 50), rand_rot(r), r.chance(50) ? rmat<6>(r) : M6(rand_spd<6>(r))); if (r.chance(30)) p.orientation.coeffs() *= -1; p.covariance = part_known(r, p.covariance); return p; }
static Twist rtwist(Rng& r) { return Twist(rand_vec(r, 10), rand_vec(r, 3), part_known(r, r.chance(50) ? rmat<6>(r) : M6(rand_spd<6>(r)))); }
static Odometry rodom(Rng& r) { return Odometry(rpose(r), rtwist(r), rtime(r), rname(r), rname(r)); }

static void p03(Rng& r) {
    {
        const Imu in = rimu(r, true);
        const Eigen::Quaterniond q = rand_rot(r);
        Imu out = in;
        note("change_frame");
        out.change_frame(q, q.conjugate());
        Imu back = out;
        back.change_frame(q.conjugate(), q);
        Ev("imuframe").raw("i", imuj(in)).raw("q", qj(q)).raw("out", imuj(out)).raw("back", imuj(back)).emit();
        if (in.orientation.norm() > 0.5) Ev("rpy").raw("q", qj(in.orientation)).v("out", in.rpy()).v("out2", eigen_ros::rpy(in.orientation)).emit();
    }
    {
        Imu a = rimu(r, false), b = rimu(r, false);
        const std::uint64_t d = r.chance(10) ? 0 : r.chance(20) ? r.range(1, 3) : r.range(1, 20000000);
        if (r.chance(50)) a.timestamp = ros::Time(r.range(1, 100), r.range(0, 999999999));
        b.timestamp.fromNSec(a.timestamp.toNSec() + d);
        if (r.chance(10)) b.orientation = a.orientation;
        ros::Time t;
        switch (r.range(0, 6)) {
            case 0: t = a.timestamp; break;
            case 1: t = b.timestamp; break;
            case 2: t.fromNSec(a.timestamp.toNSec() > 0 ? a.timestamp.toNSec() - 1 : 0); break;
            case 3: t.fromNSec(b.timestamp.toNSec() + r.range(1, 1000)); break;
            case 4: t.fromNSec(a.timestamp.toNSec() + d / 2); break;
            default: t.fromNSec(a.timestamp.toNSec() + (d ? r.next() % (d + 1) : 0));
        }
        Imu out;
        note("interpolate imu");
        const bool e = threw([&] { out = interpolate(a, b, t); });
        Ev("imuinterp").raw("a", imuj(a)).raw("b", imuj(b)).raw("t", tj(t)).b("exc", e).raw("out", imuj(out)).emit();
    }
    if (r.chance(20)) {  // node: rotates the orientation only
        shim::reset();
        const Eigen::Matrix3d R = rand_rot(r).toRotationMatrix();
        const bool dflt = r.chance(20), over = r.chance(50);
        if (!dflt) { std::vector<double> v; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(R(i, j)); shim::params()["rotation"] = XmlRpc::XmlRpcValue(v); }
        if (over) { shim::params()["overwrite_frame"] = true; shim::params()["new_frame"] = std::string("rotated"); }
        std::vector<sensor_msgs::Imu> got;
        shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == "imu_transformed") got.push_back(*shim::Travel<sensor_msgs::Imu>::out(m)); });
        ImuTransform node;
        const Imu in = rimu(r, true);
        shim::send("imu", to_ros<sensor_msgs::Imu>(in));
        note("ImuTransform");
        auto s = shim::Bus::get().startable();
        if (s.size() == 1) { auto& t = shim::Bus::get().start(s[0]); shim::Sched::get().step(t); }
        const Imu out = got.size() == 1 ? from_ros<Imu>(got[0]) : Imu();
        Ev("imunode").raw("i", imuj(in)).m("R", dflt ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : R).b("over", over).i("n", got.size()).raw("out", imuj(out)).emit();
        shim::reset();
    }
}

// ---- P04
struct Node { std::string name, id, parent; bool dyn, lookup, bad, has_t, has_q; std::vector<std::string> aliases; Eigen::Isometry3d T; int depth; };
static void p04(Rng& r) {
    shim::reset();
    shim::tf_tree().clear();
    std::vector<Node> nodes;
    const std::vector<std::string> labels = {"body", "base_link", "imu", "lidar", "cam", "mast", "arm", "gps"};
    const int n = r.range(1, 7);
    for (int k = 0; k < n; ++k) {
        Node x;
        x.name = r.chance(5) && k ? nodes[r.range(0, k - 1)].name : labels[k];
        x.id = r.chance(40) ? x.name : r.chance(6) && k ? nodes[r.range(0, k - 1)].id : x.name + "_id";
        x.depth = 0;
        int p = -1;
        if (k) { do p = r.range(0, k - 1); while (nodes[p].dyn); x.parent = nodes[p].name; x.depth = nodes[p].depth + 1; }
        x.dyn = k && r.chance(15);
        x.lookup = k && !x.dyn && r.chance(15);
        x.bad = x.dyn && r.chance(15);
        x.has_t = r.chance(85); x.has_q = r.chance(85);
        x.T = Eigen::Isometry3d::Identity();
        if (k && !x.dyn) { if (x.has_t) x.T.translation() = rand_vec(r, 3); if (x.has_q) x.T.linear() = rand_rot(r).toRotationMatrix(); }
        if (k && !x.dyn && r.chance(30)) for (int a = r.range(1, 2); a; --a) x.aliases.push_back(r.chance(6) ? nodes[r.range(0, k - 1)].id : x.name + "_alias" + std::to_string(a));
        // two children of one parent cannot share a name: the parameter tree is a map
        bool clash = false;
        for (auto& y : nodes) if (y.name == x.name && y.parent == x.parent) clash = true;
        if (clash) { x.name = labels[k]; }
        nodes.push_back(x);
    }
    // nodes are named uniquely except on purpose; children of a repeated name would be ambiguous in this list
    for (auto& x : nodes) { int c = 0; for (auto& y : nodes) c += y.name == x.name; if (c > 1) for (auto& y : nodes) if (y.parent == x.name) return; }
    // TF: what other nodes publish
    std::map<std::string, std::pair<Eigen::Isometry3d, Eigen::Vector3d>> tf;
    for (std::size_t k = 1; k < nodes.size(); ++k) if (nodes[k].dyn || nodes[k].lookup) {
        const Eigen::Isometry3d B = rand_iso(r, 3);
        const Eigen::Vector3d v = nodes[k].dyn ? rand_vec(r, 1) : Eigen::Vector3d::Zero();
        tf[nodes[k].id] = {B, v};
    }
    const bool missing = r.chance(5);
    auto parent_id = [&](const Node& x) { for (auto& y : nodes) if (y.name == x.parent) return y.id; return std::string(); };
    std::set<std::string> ids;
    for (auto& x : nodes) ids.insert(x.id);
    for (std::size_t k = 1; k < nodes.size() && ids.size() == nodes.size(); ++k) {  // repeated ids: no TF tree can have them
        auto& x = nodes[k];
        if (x.dyn || x.lookup) {
            if (missing) continue;
            const auto B = tf[x.id];
            shim::tf_tree()[x.id] = {parent_id(x), [B](const ros::Time& t) { Eigen::Isometry3d T = B.first; T.translation() += B.second * t.toSec(); return T; }};
            if (x.lookup) x.T = B.first;
        } else {  // as BodyFramesTf publishes it
            const Eigen::Isometry3d T = x.T;
            shim::tf_tree()[x.id] = {parent_id(x), [T](const ros::Time&) { return T; }};
        }
    }
    std::function<XmlRpc::XmlRpcValue(const std::string&)> children = [&](const std::string& p) {
        XmlRpc::XmlRpcValue v;
        for (std::size_t k = 1; k < nodes.size(); ++k) if (nodes[k].parent == p) {
            auto& x = nodes[k];
            XmlRpc::XmlRpcValue f; f.make_struct();
            if (x.id != x.name) f["frame_id"] = x.id;
            if (x.dyn) f["dynamic"] = true;
            if (x.bad) f["lookup_tf"] = true;
            if (!x.dyn) {
                if (x.lookup) f["lookup_tf"] = true; else if (r.chance(20)) f["lookup_tf"] = false;
                if (!x.lookup && x.has_t) { f["translation"]["x"] = x.T.translation().x(); f["translation"]["y"] = x.T.translation().y(); f["translation"]["z"] = x.T.translation().z(); }
                if (!x.lookup && x.has_q) { const Eigen::Quaterniond q(x.T.linear()); const double s = r.chance(30) ? r.real(0.5, 2) : 1; f["rotation"]["w"] = q.w() * s; f["rotation"]["x"] = q.x() * s; f["rotation"]["y"] = q.y() * s; f["rotation"]["z"] = q.z() * s; }
                for (std::size_t a = 0; a < x.aliases.size(); ++a) f["aliases"][int(a)] = x.aliases[a];
                XmlRpc::XmlRpcValue c = children(x.name);
                if (c.valid()) f["frames"] = c;
            }
            v[x.name] = f;
        }
        return v;
    };
    XmlRpc::XmlRpcValue root, body; body.make_struct();
    if (nodes[0].id != nodes[0].name) body["frame_id"] = nodes[0].id;
    XmlRpc::XmlRpcValue c = children(nodes[0].name);
    if (c.valid()) body["frames"] = c;
    root[nodes[0].name] = body;
    const int kind = r.chance(5) ? r.range(1, 2) : 0;
    if (kind == 1) root["second"] = body;
    if (kind == 2) root = XmlRpc::XmlRpcValue(std::string("x"));
    shim::params()["body_frames"] = root;
    std::unique_ptr<BodyFrames> bf;
    note("BodyFrames");
    const bool e = threw([&] { bf.reset(new BodyFrames("serpent")); });
    Ev("frames").i("kind", kind).b("missing", missing).b("exc", e).raw("nodes", list(nodes, [&](const Node& x) {
        return Obj().r("name", str(x.name)).r("id", str(x.id)).r("parent", str(x.parent)).r("dyn", x.dyn ? "true" : "false").r("lookup", x.lookup ? "true" : "false")
            .r("bad", x.bad ? "true" : "false").r("aliases", list(x.aliases, [](const std::string& s) { return str(s); })).r("T", mat(x.T.matrix().topRows<3>())).end(); }))
        .raw("names", e ? "[]" : [&] { return list(bf->frames(), [](const std::string& s) { return str(s); }); }())
        .t("body", e ? "" : bf->body_frame()).t("bodyid", e ? "" : bf->body_frame_id()).emit();
    if (e) return;
    for (int q = r.range(4, 10); q; --q) {
        auto any = [&] { return r.chance(7) ? std::string("nowhere") : nodes[r.range(0, n - 1)].name; };
        const std::string a = any(), b = any();
        const ros::Time t = r.chance(30) ? ros::Time(0) : ros::Time(r.range(0, 20), r.range(0, 9) * 100000000);
        Eigen::Isometry3d T = Eigen::Isometry3d::Identity(), U = T, B = T, F = T;
        note("frame_to_frame");
        const bool x1 = threw([&] { T = bf->frame_to_frame(a, b, t); }), x2 = threw([&] { U = bf->frame_to_frame(b, a, t); });
        const bool x3 = threw([&] { B = bf->body_to_frame(a, t); }), x4 = threw([&] { F = bf->frame_to_body(a, t); });
        // pose of every frame in the body frame, as TF has it at that time
        Ev("f2f").t("a", a).t("b", b).d("t", t.toSec()).b("x1", x1).b("x2", x2).b("x3", x3).b("x4", x4).T("ab", T).T("ba", U).T("ba_body", B).T("fb", F)
            .raw("tf", list(nodes, [&](const Node& x) {
                std::string rt; Eigen::Isometry3d P = shim::tf_root(x.id, t, rt);
                return Obj().r("name", str(x.name)).r("T", mat(P.matrix().topRows<3>())).end(); })).emit();
    }
    for (int q = 4; q; --q) {
        const Node& x = nodes[r.range(0, n - 1)];
        std::string id = r.chance(15) ? "nowhere" : !x.aliases.empty() && r.chance(60) ? x.aliases[r.range(0, int(x.aliases.size()) - 1)] : x.id;
        std::string fr; bool x1 = threw([&] { fr = bf->frame(id); });
        std::string nm = r.chance(15) ? "nowhere" : x.name, fid; bool dyn = false, lk = false;
        bool x2 = threw([&] { fid = bf->frame_id(nm); }), x3 = threw([&] { dyn = bf->is_dynamic(nm); lk = bf->lookedup_tf(nm); });
        std::vector<std::string> al; bool x4 = threw([&] { al = bf->aliases(x.id); });
        Ev("names").t("id", id).t("frame", fr).b("x1", x1).t("name", nm).t("fid", fid).b("x2", x2).b("dyn", dyn).b("lk", lk).b("x3", x3).b("has", bf->has_frame(nm))
            .t("aid", x.id).raw("al", list(al, [](const std::string& s) { return str(s); })).b("x4", x4).emit();
    }
    // broadcaster and lookup service
    std::vector<geometry_msgs::TransformStamped> st;
    shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == "tf_static") st.push_back(*shim::Travel<geometry_msgs::TransformStamped>::out(m)); });
    note("BodyFramesTf");
    std::unique_ptr<BodyFramesTf> bt;
    const bool e2 = threw([&] { bt.reset(new BodyFramesTf("serpent")); });
    Ev("static").b("exc", e2).raw("st", list(st, [](const geometry_msgs::TransformStamped& m) { return Obj().r("p", str(m.header.frame_id)).r("c", str(m.child_frame_id)).r("T", mat(from_ros<Eigen::Isometry3d>(m.transform).matrix().topRows<3>())).end(); })).emit();
    if (!e2) {
        const std::string a = nodes[r.range(0, n - 1)].name, b = nodes[r.range(0, n - 1)].name;
        eigen_ros::lookup_transform::Request rq; eigen_ros::lookup_transform::Response rs;
        rq.source_frame = a; rq.target_frame = b;
        auto it = shim::Bus::get().services.find("lookup_transform");
        const bool ok = it != shim::Bus::get().services.end();
        bool ex = true;
        if (ok) ex = threw([&] { it->second(&rq, &rs); });
        const Eigen::Isometry3d T = ex ? Eigen::Isometry3d(Eigen::Isometry3d::Identity()) : from_ros<Eigen::Isometry3d>(rs.transform);
        Eigen::Isometry3d U = Eigen::Isometry3d::Identity(); const bool ex2 = threw([&] { U = bf->frame_to_frame(a, b); });
        Ev("service").b("there", ok).b("exc", ex).b("exc2", ex2).t("a", a).t("b", b).T("out", T).T("direct", U).emit();
    }
    shim::reset();
}

// ---- P05
static void p05(Rng& r) {
    switch (r.range(0, 15)) {
        case 0: { Imu x = rimu(r, false); sensor_msgs::Imu m; if (r.chance(50)) to_ros(m, rimu(r, false)); to_ros(m, x); Ev("c_imu").raw("e", imuj(x)).raw("m", m_imu(m)).raw("back", imuj(from_ros<Imu>(m))).emit(); break; }
        case 1: { Odometry x = rodom(r); nav_msgs::Odometry m; if (r.chance(50)) to_ros(m, rodom(r)); to_ros(m, x); Ev("c_odom").raw("e", odomj(x)).raw("m", m_odom(m)).raw("back", odomj(from_ros<Odometry>(m))).emit(); break; }
        case 2: { Pose x = rpose(r); auto m = to_ros<geometry_msgs::PoseWithCovariance>(x); Ev("c_posec").raw("e", posej(x)).raw("m", m_posec(m)).raw("back", posej(from_ros<Pose>(m))).emit(); break; }
        case 3: { PoseStamped x(rpose(r), rtime(r)); auto m = to_ros<geometry_msgs::PoseWithCovarianceStamped>(x); auto b = from_ros<PoseStamped>(m);
            Ev("c_posecs").raw("e", posej(x.data)).raw("t", tj(x.timestamp)).raw("h", hdr(m.header)).raw("m", m_posec(m.pose)).raw("back", posej(b.data)).raw("bt", tj(b.timestamp)).emit(); break; }
        case 4: { PoseStamped x(rpose(r), rtime(r)); auto m = to_ros<geometry_msgs::PoseStamped>(x); auto b = from_ros<PoseStamped>(m);
            auto m2 = to_ros<geometry_msgs::TransformStamped>(x); auto b2 = from_ros<PoseStamped>(m2);
            Ev("c_poses").raw("e", posej(x.data)).raw("t", tj(x.timestamp)).raw("h", hdr(m.header)).raw("m", m_pose(m.pose)).raw("back", posej(b.data)).raw("bt", tj(b.timestamp)).emit();
            Ev("c_poses").raw("e", posej(x.data)).raw("t", tj(x.timestamp)).raw("h", hdr(m2.header)).raw("m", m_tf(m2.transform)).raw("back", posej(b2.data)).raw("bt", tj(b2.timestamp)).emit(); break; }
        case 5: { Pose x = rpose(r); auto m = to_ros<geometry_msgs::Pose>(x); auto b = from_ros<Pose>(m); auto m2 = to_ros<geometry_msgs::Transform>(x); auto b2 = from_ros<Pose>(m2);
            Ev("c_pose").raw("e", posej(x)).raw("m", m_pose(m)).raw("back", posej(b)).emit(); Ev("c_pose").raw("e", posej(x)).raw("m", m_tf(m2)).raw("back", posej(b2)).emit(); break; }
        case 6: case 7: { Eigen::Isometry3d x = rand_iso(r, 30); Eigen::Matrix4d x4 = x.matrix();
            auto m = to_ros<geometry_msgs::Transform>(x); auto b = from_ros<Eigen::Isometry3d>(m);
            auto m2 = to_ros<geometry_msgs::Transform>(x4); auto b2 = from_ros<Eigen::Matrix4d>(m2);
            auto m3 = to_ros<geometry_msgs::Pose>(x4); auto b3 = from_ros<Eigen::Matrix4d>(m3);
            Ev("c_mat").T("e", x).raw("m", m_tf(m)).m("back", b.matrix()).emit(); Ev("c_mat").T("e", x).raw("m", m_tf(m2)).m("back", b2).emit(); Ev("c_mat").T("e", x).raw("m", m_pose(m3)).m("back", b3).emit();
            const Eigen::Matrix3d R = x.linear(); auto m4 = to_ros<geometry_msgs::Quaternion>(R); auto b4 = from_ros<Eigen::Matrix3d>(m4);
            Ev("c_rot").m("e", R).raw("q", wxyz(m4)).m("back", b4).emit(); break; }
        case 8: { Twist x = rtwist(r); auto m = to_ros<geometry_msgs::TwistWithCovariance>(x); auto b = from_ros<Twist>(m); auto m2 = to_ros<geometry_msgs::Twist>(x); auto b2 = from_ros<Twist>(m2);
            Ev("c_twistc").raw("e", twistj(x)).raw("m", m_twistc(m)).raw("back", twistj(b)).m("wc", x.angular_velocity_covariance()).m("vc", x.linear_velocity_covariance()).emit();
            Ev("c_twist").raw("e", twistj(x)).raw("v", xyz(m2.linear)).raw("w", xyz(m2.angular)).raw("back", twistj(b2)).emit(); break; }
        case 9: { Eigen::Vector3d v = rand_vec(r, 100); auto m = to_ros<geometry_msgs::Point>(v); auto m2 = to_ros<geometry_msgs::Vector3>(v); const Eigen::Quaterniond q = rand_rot(r); auto m3 = to_ros<geometry_msgs::Quaternion>(q);
            Ev("c_vec").v("e", v).raw("m", xyz(m)).v("back", from_ros<Eigen::Vector3d>(m)).emit(); Ev("c_vec").v("e", v).raw("m", xyz(m2)).v("back", from_ros<Eigen::Vector3d>(m2)).emit();
            Ev("c_vec").raw("e", qj(q)).raw("m", wxyz(m3)).raw("back", qj(from_ros<Eigen::Quaterniond>(m3))).emit(); break; }
        case 10: { const int n = r.range(1, 7), k = r.chance(80) ? n : r.range(1, 7); Eigen::MatrixXd C(n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) C(i, j) = r.real(-5, 5);
            const ros::Time t = rtime(r); const std::string f = rname(r); Eigen::MatrixXd B; ros::Time bt; std::string bf;
            statistics_msgs::CovarianceStamped m; const bool e = threw([&] { if (r.chance(30)) to_ros(m, Eigen::MatrixXd(Eigen::MatrixXd::Zero(3, 3)), t, f); to_ros(m, C, t, f); });
            if (!e) from_ros(m, B, bt, bf); else B.resize(1, 1);
            Ev("c_cov").b("exc", e).m("e", C).raw("t", tj(t)).t("f", f).i("dim", m.covariance.dimensions).raw("m", flat(m.covariance.matrix)).raw("h", hdr(m.header)).m("back", B).raw("bt", tj(bt)).t("bf", bf).emit(); break; }
        case 11: { const int n = r.range(1, 7), k = r.chance(80) ? n : r.range(1, 7); Eigen::MatrixXf C(n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) C(i, j) = float(r.real(-5, 5));
            const ros::Time t = rtime(r); const std::string f = rname(r); Eigen::MatrixXf B; ros::Time bt; std::string bf;
            statistics_msgs::CovarianceFloat32Stamped m; const bool e = threw([&] { to_ros(m, C, t, f); });
            if (!e) from_ros(m, B, bt, bf); else B.resize(1, 1);
            Ev("c_cov").b("exc", e).m("e", C).raw("t", tj(t)).t("f", f).i("dim", m.covariance.dimensions).raw("m", flat(m.covariance.matrix)).raw("h", hdr(m.header)).m("back", B).raw("bt", tj(bt)).t("bf", bf).emit();
            if (!e && !m.covariance.matrix.empty()) { m.covariance.matrix.pop_back(); Ev("c_covbad").b("exc", threw([&] { from_ros(m, B, bt, bf); })).emit(); } break; }
        case 12: { Eigen::Matrix<double, 3, 5> A; for (int i = 0; i < 3; ++i) for (int j = 0; j < 5; ++j) A(i, j) = r.real(-5, 5);
            std_msgs::Float64MultiArray m; if (r.chance(50)) to_ros(m, rmat<6>(r)); to_ros(m, A); Eigen::Matrix<double, 3, 5> B = decltype(B)::Zero(); const bool e = threw([&] { from_ros(m, B); });
            Eigen::Matrix<double, 5, 3> W; const bool e2 = threw([&] { from_ros(m, W); });
            Ev("c_multi").b("exc", e).b("wrong", e2).m("e", A).raw("m", flat(m.data)).i("nd", m.layout.dim.size()).raw("dims", list(m.layout.dim, [](const std_msgs::MultiArrayDimension& d) { return "[" + std::to_string(d.size) + "," + std::to_string(d.stride) + "]"; })).m("back", B).emit(); break; }
        case 13: { Eigen::Isometry3d x = rand_iso(r, 30); auto g = eigen_gtsam::to_gtsam<gtsam::Pose3>(x); auto b = eigen_gtsam::to_eigen<Eigen::Isometry3d>(g); const Eigen::Vector3d p = rand_vec(r, 5);
            const Eigen::Matrix3d R = x.linear(); auto gr = eigen_gtsam::to_gtsam<gtsam::Rot3>(R); auto br = eigen_gtsam::to_eigen<Eigen::Matrix3d>(gr);
            Ev("c_gtsam").T("e", x).m("R", g.rotation().matrix()).v("t", g.translation()).v("p", p).v("gp", g.transformFrom(p)).T("back", b).m("R2", gr.matrix()).m("back2", br).emit();
            geometry_msgs::Pose m; serpent::to_ros(m, g); gtsam::Pose3 gb; serpent::from_ros(m, gb);
            Ev("c_mat").T("e", x).raw("m", m_pose(m)).m("back", gb.matrix()).emit(); break; }
        case 14: { const Eigen::Vector3d a = rand_vec(r, 1), g = rand_vec(r, 1); const ros::Time t = rtime(r); const std::string f = rname(r); serpent::ImuBiases m; serpent::to_ros(m, gtsam::imuBias::ConstantBias(a, g), t, f);
            gtsam::imuBias::ConstantBias b; serpent::from_ros(m, b);
            Ev("c_bias").v("a", a).v("g", g).raw("t", tj(t)).t("f", f).raw("h", hdr(m.header)).raw("ma", xyz(m.accelerometer_bias)).raw("mg", xyz(m.gyroscope_bias)).v("ba", b.accelerometer()).v("bg", b.gyroscope()).emit();
            std::deque<Imu> q, back; for (int i = r.range(0, 4); i; --i) q.push_back(rimu(r, false)); std::vector<sensor_msgs::Imu> ms; serpent::to_ros(ms, q); serpent::from_ros(ms, back);
            Ev("c_imus").raw("e", list(q, imuj)).raw("m", list(ms, m_imu)).raw("back", list(back, imuj)).emit(); break; }
        default: {
            const int k = r.range(0, 9); Odometry a = rodom(r), b = a; Imu i = rimu(r, false), j = i; if (i.orientation.norm() < 0.5) i.orientation = j.orientation = Eigen::Quaterniond::Identity();
            const Eigen::Vector3d d(0.5, -0.7, 0.9);
            switch (k) { case 1: b.pose.position += d; j.angular_velocity += d; break; case 2: b.pose.orientation = b.pose.orientation * Eigen::Quaterniond(Eigen::AngleAxisd(0.3, Eigen::Vector3d::UnitY())); j.orientation = b.pose.orientation * j.orientation * Eigen::Quaterniond(Eigen::AngleAxisd(0.3, Eigen::Vector3d::UnitY())); if (j.orientation.isApprox(i.orientation)) return; break;
                case 3: b.pose.covariance(r.range(0, 5), r.range(0, 5)) += 50; j.orientation_covariance(1, 2) += 50; break; case 4: b.twist.linear += d * 10; j.linear_acceleration += d * 10; break; case 5: b.twist.angular += d * 10; j.angular_velocity_covariance(0, 1) += 50; break;
                case 6: b.twist.covariance(r.range(0, 5), r.range(0, 5)) += 50; j.linear_acceleration_covariance(2, 0) += 50; break; case 7: b.timestamp = ros::Time(a.timestamp.sec, (a.timestamp.nsec + 1) % 1000000000); j.timestamp = ros::Time(i.timestamp.sec, (i.timestamp.nsec + 1) % 1000000000); break; case 8: b.frame += "x"; j.frame += "x"; break; case 9: b.child_frame += "x"; j.frame += "y"; break; default: b.pose.orientation.coeffs() *= -1; }
            Ev("c_eq").i("k", k).b("odom", a == b).b("imu", i == j).b("pose", a.pose == b.pose).b("twist", a.twist == b.twist).b("ps", a.pose_stamped() == b.pose_stamped()).b("ts", a.twist_stamped() == b.twist_stamped()).emit();
            const Eigen::Matrix3d A = rmat<3>(r), B = rmat<3>(r); const Pose p(a.pose.position, a.pose.orientation, A, B); const Twist t(a.twist.linear, a.twist.angular, A, B);
            Ev("c_blocks").m("A", A).m("B", B).raw("p", posej(p)).raw("q", twistj(t)).raw("ep", posej(a.pose)).raw("eq", twistj(a.twist)).emit();
        }
    }
}

// ---- P32
static void run_all() {
    for (int guard = 0; guard < 10000; ++guard) {
        auto s = shim::Bus::get().startable();
        if (s.empty()) return;
        auto& t = shim::Bus::get().start(s[0]);
        if (!shim::Sched::get().step(t)) { std::fprintf(stderr, "callback gave way\n"); std::exit(65); }
    }
}
static void p32(Rng& r) {
    {
        const Pose p = rpose(r); const Eigen::Isometry3d T = rand_iso(r, 5); const ros::Time t = rtime(r);
        note("apply_transform");
        const Pose a = apply_transform(p, T); const Pose b = apply_transform(p, Pose(T, rmat<6>(r))); const PoseStamped c = apply_transform(PoseStamped(p, t), T);
        Ev("apply").raw("p", posej(p)).T("T", T).raw("a", posej(a)).raw("b", posej(b)).raw("c", posej(c.data)).raw("t", tj(t)).raw("ct", tj(c.timestamp)).T("tt", to_transform(p)).emit();
    }
    {
        shim::reset();
        const int kind = r.range(0, 3);
        const char* names[] = {"TransformStamped", "PoseStamped", "PoseWithCovarianceStamped", "TransformStamped"};
        if (kind != 3) shim::params()["transform_type"] = std::string(names[kind]);
        std::vector<nav_msgs::Odometry> od; std::vector<nav_msgs::Path> pa;
        shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == "odometry") od.push_back(*shim::Travel<nav_msgs::Odometry>::out(m)); if (t == "path") pa.push_back(*shim::Travel<nav_msgs::Path>::out(m)); });
        CombineTransforms node;
        Ev("combstart").emit();
        std::uint64_t now = 1000000000ull * r.range(1, 1000);
        // a session of some minutes now and then: what is published must not forget with its length
        std::vector<std::string> before;
        for (int k = r.range(1, 50) == 1 ? r.range(100, 300) : r.range(1, 5); k; --k) {
            const Eigen::Isometry3d T = rand_iso(r, 2); now += r.range(1, 100000000);
            PoseStamped ps(Pose(T, rand_spd<6>(r)), ros::Time().fromNSec(now));
            if (kind == 1) shim::send("input", to_ros<geometry_msgs::PoseStamped>(ps)); else if (kind == 2) shim::send("input", to_ros<geometry_msgs::PoseWithCovarianceStamped>(ps)); else shim::send("input", to_ros<geometry_msgs::TransformStamped>(ps));
            od.clear(); pa.clear();
            note("CombineTransforms");
            run_all();
            Odometry o; if (od.size() == 1) from_ros(od[0], o);
            // the path against the one published before: how many leading poses are the very same, and the others in full
            std::vector<std::string> poses;
            if (!pa.empty()) for (const auto& m : pa[0].poses) poses.push_back(Obj().r("t", tj(m.header.stamp)).r("m", m_pose(m.pose)).end());
            std::size_t same = 0; while (same < poses.size() && same < before.size() && poses[same] == before[same]) ++same;
            const std::vector<std::string> more(poses.begin() + same, poses.end());
            Ev("combine").T("T", T).raw("t", tj(ps.timestamp)).i("n", od.size()).i("np", pa.size()).raw("out", odomj(o)).i("len", pa.empty() ? -1 : int(pa[0].poses.size()))
                .i("same", same).raw("more", list(more, [](const std::string& p) { return p; })).emit();
            before = poses;
        }
        shim::reset();
    }
    {
        shim::reset();
        std::vector<geometry_msgs::TransformStamped> tf;
        shim::Bus::get().taps.push_back([&](const std::string& t, const std::any& m) { if (t == "tf") tf.push_back(*shim::Travel<geometry_msgs::TransformStamped>::out(m)); });
        OdometryToTf node;
        const Odometry o = rodom(r);
        shim::send("input", to_ros<nav_msgs::Odometry>(o));
        run_all();
        geometry_msgs::TransformStamped m; if (tf.size() == 1) m = tf[0];
        Ev("odomtf").raw("e", odomj(o)).i("n", tf.size()).raw("h", hdr(m.header)).t("cf", m.child_frame_id).raw("m", m_tf(m.transform)).emit();
        shim::reset();
    }
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    for (int i = 0; i < a.count; ++i) {
        Rng r(a.seed * 1000003ull + a.part * 7919ull + i * 104729ull + std::hash<std::string>{}(a.group) % 1000);
        if (a.group == "P03") p03(r);
        else if (a.group == "P04") p04(r);
        else if (a.group == "P05") p05(r);
        else if (a.group == "P32") p32(r);
        else return 64;
    }
    return finish();
}
