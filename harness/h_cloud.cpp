// P11, P12, P13: rigid transforms of clouds, registration correspondences, registration covariance.
#include "vh.hpp"
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <pcl/registration/registration.h>
#include <pcl/search/impl/kdtree.hpp>
#include <pcl/kdtree/impl/kdtree_flann.hpp>
#include <pcl/impl/pcl_base.hpp>
#include <pointcloud_tools/pclpointcloud_transform.hpp>
#include <pointcloud_tools/pclpointcloud_utilities.hpp>
#include <pointcloud_tools/point_types.hpp>
#include <pointcloud_tools/registration_utilities.hpp>
#include <serpent/front_end/lidar/registration_covariance.hpp>
#include <serpent/front_end/lidar/transform_pointcloud.hpp>
#include <memory>
using namespace vh;

// ---------------------------------------------------------------- P11
template<class P> struct Rec;
static void put(std::vector<double>& v, std::initializer_list<float> x) { for (float f : x) v.push_back(f); }
template<> struct Rec<pcl::PointNormal> {
    static constexpr const char* name = "normal";
    static void fill(Rng& r, pcl::PointNormal& p) { p.curvature = r.real(0, 1); }
    static void read(const pcl::PointNormal& p, std::vector<double>& v) { put(v, {p.curvature}); }
};
template<> struct Rec<PointNormalUnit> {
    static constexpr const char* name = "unit";
    static void fill(Rng& r, PointNormalUnit& p) { p.curvature = r.real(0, 1); const auto u = rand_dir(r); p.ux = u.x(); p.uy = u.y(); p.uz = u.z(); }
    static void read(const PointNormalUnit& p, std::vector<double>& v) { put(v, {p.curvature, p.ux, p.uy, p.uz}); }
};
template<> struct Rec<PointNormalCovariance> {
    static constexpr const char* name = "cov";
    static void fill(Rng& r, PointNormalCovariance& p) {
        p.curvature = r.real(0, 1);
        const Eigen::Matrix3d c = rand_spd<3>(r, r.pick(std::vector<double>{1e-3, 1.0, 10.0}));
        p.covariance_xx = c(0, 0); p.covariance_xy = c(0, 1); p.covariance_xz = c(0, 2);
        p.covariance_yy = c(1, 1); p.covariance_yz = c(1, 2); p.covariance_zz = c(2, 2);
    }
    static void read(const PointNormalCovariance& p, std::vector<double>& v) {
        put(v, {p.curvature, p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz});
    }
};
template<class P>
std::string cloud_json(const pcl::PointCloud<P>& c) {
    std::string s = "[";
    for (std::size_t i = 0; i < c.size(); ++i) {
        std::vector<double> v;
        put(v, {c[i].x, c[i].y, c[i].z, c[i].normal_x, c[i].normal_y, c[i].normal_z});
        Rec<P>::read(c[i], v);
        s += (i ? "," : "") + nums(v);
    }
    return s + "]";
}
template<class P>
std::string meta_json(const pcl::PointCloud<P>& c) {
    return "[" + std::to_string(c.width) + "," + std::to_string(c.height) + "," + std::to_string(c.size()) + "," + str(c.header.frame_id) + "," +
           str(std::to_string(c.header.stamp)) + "," + std::to_string(c.header.seq) + "," + (c.is_dense ? "true" : "false") + "]";
}
template<class P>
pcl::PointCloud<P> rand_cloud(Rng& r, bool dense, int n) {
    pcl::PointCloud<P> c;
    const int w = (n % 2 == 0 && n > 0 && r.chance(30)) ? 2 : 1;
    c.points.resize(n);
    c.width = n / w; c.height = n ? w : 1;
    if (!n) c.width = 0;
    c.is_dense = dense;
    c.header.frame_id = r.pick(std::vector<std::string>{"lidar", "map", ""});
    c.header.stamp = r.next() % 1000000000000ull;
    c.header.seq = r.range(0, 1000);
    const float nan = std::numeric_limits<float>::quiet_NaN(), inf = std::numeric_limits<float>::infinity();
    for (auto& p : c) {
        const auto v = rand_vec(r, r.pick(std::vector<double>{0.1, 10, 100}));
        p.x = v.x(); p.y = v.y(); p.z = v.z();
        const auto m = rand_dir(r);
        p.normal_x = m.x(); p.normal_y = m.y(); p.normal_z = m.z();
        Rec<P>::fill(r, p);
        if (!dense && r.chance(35)) {
            const float bad = r.chance(60) ? nan : (r.chance(50) ? inf : -inf);
            switch (r.range(0, 3)) {
                case 0: p.x = p.y = p.z = nan; break;
                case 1: p.x = bad; break;
                case 2: p.y = bad; break;
                default: p.z = bad;
            }
        }
    }
    return c;
}
template<class P, class F>
void xform(Rng& r, const std::string& how, const Eigen::Isometry3d& T, F apply) {
    const bool dense = r.chance(50);
    pcl::PointCloud<P> in = rand_cloud<P>(r, dense, r.range(0, 5));
    const bool inplace = r.chance(50);
    Ev e("xform");
    e.t("type", Rec<P>::name).t("how", how).b("inplace", inplace).T("T", T).raw("in", cloud_json(in)).raw("meta", meta_json(in));
    note(e.s);
    pcl::PointCloud<P> outc = rand_cloud<P>(r, r.chance(50), r.range(0, 6));   // pre-filled with something else
    if (inplace) { apply(in, in); e.raw("out", cloud_json(in)).raw("ometa", meta_json(in)); }
    else {
        const std::string before = cloud_json(in) + meta_json(in);
        apply(in, outc);
        e.raw("out", cloud_json(outc)).raw("ometa", meta_json(outc)).b("kept", before == cloud_json(in) + meta_json(in));
    }
    if (inplace) e.b("kept", true);
    e.emit();
}
template<class P>
void xform_serpent(Rng& r) {
    const Eigen::Isometry3d T = rand_iso(r, r.pick(std::vector<double>{1, 20}));
    const Eigen::Isometry3f Tf = T.cast<float>();
    const Eigen::Affine3d Ta(T.matrix());
    const Eigen::Matrix4d M = T.matrix();
    const Eigen::Matrix4f Mf = M.cast<float>();
    switch (r.range(0, 4)) {
        case 0: xform<P>(r, "serpent matrix4d", T, [&](auto& a, auto& b) { serpent::transform_pointcloud(a, b, M); }); break;
        case 1: xform<P>(r, "serpent matrix4f", T, [&](auto& a, auto& b) { serpent::transform_pointcloud(a, b, Mf); }); break;
        case 2: xform<P>(r, "serpent isometry3d", T, [&](auto& a, auto& b) { serpent::transform_pointcloud(a, b, T); }); break;
        case 3: xform<P>(r, "serpent isometry3f", T, [&](auto& a, auto& b) { serpent::transform_pointcloud(a, b, Tf); }); break;
        default: xform<P>(r, "serpent affine3d", T, [&](auto& a, auto& b) { serpent::transform_pointcloud(a, b, Ta); }); break;
    }
}
static void xform_pct(Rng& r) {
    const Eigen::Isometry3d T = rand_iso(r, r.pick(std::vector<double>{1, 20}));
    const Eigen::Isometry3f Tf = T.cast<float>();
    const Eigen::Affine3d Ta(T.matrix());
    const Eigen::Matrix4d M = T.matrix();
    const Eigen::Matrix4f Mf = M.cast<float>();
    if (r.chance(50)) {
        using P = PointNormalUnit;
        switch (r.range(0, 4)) {
            case 0: xform<P>(r, "pct matrix4d", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, M); }); break;
            case 1: xform<P>(r, "pct matrix4f", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, Mf); }); break;
            case 2: xform<P>(r, "pct isometry3d", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, T); }); break;
            case 3: xform<P>(r, "pct isometry3f", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, Tf); }); break;
            default: xform<P>(r, "pct affine3d", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, Ta); }); break;
        }
    } else {
        using P = PointNormalCovariance;
        switch (r.range(0, 4)) {
            case 0: xform<P>(r, "pct matrix4d", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_covariances(a, b, M); }); break;
            case 1: xform<P>(r, "pct matrix4f", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_covariances(a, b, Mf); }); break;
            case 2: xform<P>(r, "pct isometry3d", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_covariances(a, b, T); }); break;
            case 3: xform<P>(r, "pct isometry3f", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_covariances(a, b, Tf); }); break;
            default: xform<P>(r, "pct affine3d", T, [&](auto& a, auto& b) { pct::transform_pointcloud_with_normals_and_covariances(a, b, Ta); }); break;
        }
    }
}
template<class P>
void roundtrip(Rng& r) {
    pcl::PointCloud<P> in = rand_cloud<P>(r, true, r.range(1, 5)), a, b;
    const Eigen::Isometry3d T = rand_iso(r, 5);
    note(std::string("round trip ") + Rec<P>::name);
    serpent::transform_pointcloud(in, a, T);
    serpent::transform_pointcloud(a, b, T.inverse());
    Ev("roundtrip").t("type", Rec<P>::name).T("T", T).raw("in", cloud_json(in)).raw("out", cloud_json(b)).emit();
}
static void normals(Rng& r) {
    auto c = rand_cloud<PointNormalUnit>(r, true, r.range(0, 6));
    const float thr = r.pick(std::vector<float>{1e-3f, 1e-2f, 0.3f});
    for (auto& p : c) if (r.chance(50)) { const float s = r.pick(std::vector<float>{0.f, 0.5f, 0.9f, 1.05f, 2.f}); p.normal_x *= s; p.normal_y *= s; p.normal_z *= s; }
    const int k = pct::check_normals(c, thr);
    const auto U = pct::extract_unit_vectors(c);
    Ev("normals").raw("in", cloud_json(c)).d("thr", thr).i("out", k).i("cols", U.cols()).m("U", U.transpose()).emit();
}
static void p11(const Args& a) {
    Rng r(a.seed * 1000 + a.part * 17 + 3);
    for (int i = 0; i < a.count; ++i) {
        switch (r.range(0, 9)) {
            case 0: xform_serpent<pcl::PointNormal>(r); break;
            case 1: case 2: xform_serpent<PointNormalUnit>(r); break;
            case 3: case 4: xform_serpent<PointNormalCovariance>(r); break;
            case 5: case 6: xform_pct(r); break;
            case 7: switch (r.range(0, 2)) { case 0: roundtrip<pcl::PointNormal>(r); break; case 1: roundtrip<PointNormalUnit>(r); break; default: roundtrip<PointNormalCovariance>(r); } break;
            case 8: normals(r); break;
            default: {
                // pose points
                const Eigen::Isometry3d T = rand_iso(r, 10);
                const Eigen::Isometry3f F = T.cast<float>();
                const Eigen::Quaternionf q(F.rotation());
                PointAngleAxis p;
                const int how = r.range(0, 5);
                const Eigen::Translation3f tr(F.translation());
                const Eigen::Vector3f t = F.translation();
                switch (how) {
                    case 0: p = PointAngleAxis(F); break;
                    case 1: p = PointAngleAxis(t, Eigen::AngleAxisf(q)); break;
                    case 2: p = PointAngleAxis(t, q); break;
                    case 3: p = PointAngleAxis(tr, q); break;
                    case 4: p = PointAngleAxis(tr, Eigen::Matrix3f(F.rotation())); break;
                    default: p.setPose(F);
                }
                Eigen::Isometry3d B = Eigen::Isometry3d::Identity();
                B.matrix() = p.getIsometry().cast<double>().matrix();
                Ev("posepoint").i("how", how).T("T", T).T("iso", B).m("R", p.getRotationMatrix()).d("angle", p.angle())
                        .raw("xyz", nums({p.x, p.y, p.z})).raw("r", nums({p.rx, p.ry, p.rz})).m("Q", p.getQuaternion().toRotationMatrix()).emit();
            }
        }
    }
}

// ---------------------------------------------------------------- P12
template<class P, class S>
struct Reg : pcl::Registration<P, P, S> {
    using B = pcl::Registration<P, P, S>;
    using PointCloudSource = typename B::PointCloudSource;
    Reg() { this->reg_name_ = "fixed"; }
    void computeTransformation(PointCloudSource&, const typename B::Matrix4&) override {}
    void fix(const Eigen::Matrix<S, 4, 4>& M) { this->final_transformation_ = M; }
    bool prepare() { return this->initCompute(); }
    bool prepare_reciprocal() { return this->initComputeReciprocal(); }
};
template<class C>
std::string xyz_json(const C& c) { return list(c, [](const auto& p) { return nums({p.x, p.y, p.z}); }); }

static void p12(const Args& a) {
    Rng r(a.seed * 1000 + a.part * 17 + 5);
    using P = pcl::PointXYZ;
    for (int i = 0; i < a.count; ++i) {
        auto src = std::make_shared<pcl::PointCloud<P>>(), tgt = std::make_shared<pcl::PointCloud<P>>();
        const int ns = r.range(1, 9), nt = r.range(1, 9);
        const bool lattice = r.chance(30);
        auto point = [&] { P p; if (lattice) { p.x = r.range(-3, 3); p.y = r.range(-3, 3); p.z = r.range(-3, 3); } else { const auto v = rand_vec(r, 4); p.x = v.x(); p.y = v.y(); p.z = v.z(); } return p; };
        for (int k = 0; k < ns; ++k) src->push_back(point());
        for (int k = 0; k < nt; ++k) tgt->push_back(point());
        Eigen::Isometry3d T = lattice ? Eigen::Isometry3d::Identity() : rand_iso(r, 1);
        if (!lattice) T.translation() = rand_vec(r, 2);
        if (lattice) T.translation() = Eigen::Vector3d(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2));
        const double maxd = lattice ? r.pick(std::vector<double>{1, 2, 3, 5}) : r.pick(std::vector<double>{0.5, 1.5, 3, 5, 100});
        const bool rec = r.chance(35);
        const bool subset = r.chance(40);
        std::vector<int> idx;
        for (int k = 0; k < ns; ++k) if (!subset || r.chance(60)) idx.push_back(k);
        if (idx.empty()) idx.push_back(ns - 1);
        if (subset && r.chance(30)) std::reverse(idx.begin(), idx.end());
        Ev e("corr");
        e.raw("src", xyz_json(*src)).raw("tgt", xyz_json(*tgt)).T("T", T).d("max", maxd).b("rec", rec).raw("idx", ints(idx));
        note(e.s);
        auto run = [&](auto& reg, auto M) {
            reg.setInputSource(src);
            reg.setInputTarget(tgt);
            if (subset) reg.setIndices(std::make_shared<pcl::Indices>(idx.begin(), idx.end()));
            reg.setMaxCorrespondenceDistance(maxd);
            if (!reg.prepare()) return;
            if (rec) {
                reg.prepare_reciprocal();
                reg.getSearchMethodSource()->setInputCloud(src, reg.getIndices());
            }
            reg.fix(M);
            bool exc = false;
            std::string s = "[";
            try {
                const auto c = pct::compute_registration_correspondences(reg, rec);
                for (std::size_t k = 0; k < c->size(); ++k)
                    s += (k ? ",[" : "[") + std::to_string((*c)[k].index_query) + "," + std::to_string((*c)[k].index_match) + "," + num((*c)[k].distance) + "]";
            } catch (const std::exception&) { exc = true; }
            e.b("exc", exc).raw("out", s + "]").emit();
        };
        if (r.chance(50)) { Reg<P, float> reg; run(reg, Eigen::Matrix4f(T.matrix().cast<float>())); }
        else { Reg<P, double> reg; run(reg, Eigen::Matrix4d(T.matrix())); }
    }
}

// ---------------------------------------------------------------- P13
using U = PointNormalUnit;
template<template<class, class> class M> struct Plane { static constexpr bool v = false; };
template<> struct Plane<serpent::PointToPlaneIcpNonlinearModel> { static constexpr bool v = true; };
template<> struct Plane<serpent::PointToPlaneIcpLinearisedModel> { static constexpr bool v = true; };

static U upoint(const Eigen::Vector3d& p, const Eigen::Vector3d& n, const Eigen::Vector3d& u) {
    U x;
    x.x = p.x(); x.y = p.y(); x.z = p.z();
    x.normal_x = n.x(); x.normal_y = n.y(); x.normal_z = n.z();
    x.ux = u.x(); x.uy = u.y(); x.uz = u.z();
    return x;
}
static Eigen::Vector3d rand_rvec(Rng& r) {
    switch (r.range(0, 7)) {
        case 0: return rand_dir(r) * r.pick(std::vector<double>{0.05, 0.1, 0.02, 1e-3});
        case 6: return rand_dir(r) * r.pick(std::vector<double>{1e-4, 1e-5, 3e-6, 1e-7, 1e-9});
        case 7: return Eigen::Vector3d::Zero();
        case 1: return Eigen::Vector3d::Unit(r.range(0, 2)) * r.real(0.1, 3.0);
        case 2: { Eigen::Vector3d v = rand_dir(r) * r.real(0.1, 3.0); v[r.range(0, 2)] = 0; return v.norm() > 0.05 ? v : Eigen::Vector3d(0.3, 0, 0.1); }
        default: return rand_dir(r) * r.real(0.1, 3.1);
    }
}
template<template<class, class> class M>
void hessian(Rng& r, const std::string& model) {
    using Model = M<U, U>;
    const Eigen::Vector3d rv = rand_rvec(r), t = rand_vec(r, 5), p = rand_vec(r, 5), n = rand_dir(r);
    const eigen_ext::PrecomputedTransformComponents<double> tf(rv, t);
    const Eigen::Vector3d q = r.chance(30) ? Eigen::Vector3d(rand_vec(r, 5)) : Eigen::Vector3d(tf.R() * p + t + rand_vec(r, 0.1));
    const U a = upoint(p, rand_dir(r), rand_dir(r)), b = upoint(q, n, rand_dir(r));
    Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero(), H2 = H, Z = H;
    Ev e("hessian");
    e.t("model", model).v("r", rv).v("t", t).raw("p", nums({a.x, a.y, a.z})).raw("q", nums({b.x, b.y, b.z})).raw("n", nums({b.normal_x, b.normal_y, b.normal_z}));
    note(e.s);
    const bool ok = Model::process_correspondence(a, b, tf, H, Z);
    const bool ok2 = Model::process_correspondence(a, b, tf, H2);
    e.b("ok", ok && ok2).m("H", H).m("H2", H2).m("Z", Z).emit();
}
template<template<class, class> class M, class S>
void covariance(Rng& r, const std::string& model) {
    using Model = M<U, U>;
    const bool plane = model.find("PLANE") != std::string::npos;
    const int n = r.range(plane ? 9 : 5, 12);
    Eigen::Vector3d rv, t = rand_vec(r, 1);
    const bool lin = model.find("LINEARISED") != std::string::npos;
    rv = lin ? Eigen::Vector3d(rand_dir(r) * r.real(0.05, 0.3)) : Eigen::Vector3d(rand_dir(r) * r.real(0.1, 2.5));
    const eigen_ext::PrecomputedTransformComponents<double> tf(rv, t);
    auto src = std::make_shared<pcl::PointCloud<U>>(), tgt = std::make_shared<pcl::PointCloud<U>>();
    for (int k = 0; k < n; ++k) {
        const Eigen::Vector3d p = rand_dir(r) * r.real(1.5, 3.0);
        const Eigen::Vector3d q = tf.R() * p + t + rand_vec(r, 0.02);
        src->push_back(upoint(p, rand_dir(r), p.normalized()));
        tgt->push_back(upoint(q, rand_dir(r), q.normalized()));
    }
    if (r.chance(40)) { const Eigen::Vector3d far = rand_dir(r) * 30; src->push_back(upoint(far, rand_dir(r), far.normalized())); }   // no correspondence
    if (r.chance(40)) std::reverse(tgt->begin(), tgt->end());
    Eigen::Matrix4d T = tf.T();
    Reg<U, S> reg;
    reg.setInputSource(src);
    reg.setInputTarget(tgt);
    reg.setMaxCorrespondenceDistance(r.pick(std::vector<double>{1.0, 2.0}));
    reg.prepare();
    reg.fix(T.template cast<S>());
    const double v1 = r.pick(std::vector<double>{1e-4, 2.5e-3, 1.0}), v2 = r.pick(std::vector<double>{1e-4, 4e-4, 0.5});
    int count = -1;
    auto pj = [](const pcl::PointCloud<U>& c) { return list(c, [](const U& p) { return nums({p.x, p.y, p.z, p.normal_x, p.normal_y, p.normal_z, p.ux, p.uy, p.uz}); }); };
    const std::string method = r.pick(std::vector<std::string>{"iid", "range", "bias", "lls"});
    Ev e("cov");
    e.t("model", model).t("method", method).v("r", rv).v("t", t).d("max", reg.getMaxCorrespondenceDistance()).raw("src", pj(*src)).raw("tgt", pj(*tgt)).d("v1", v1).d("v2", v2)
            .b("single", sizeof(S) == 4);
    note(e.s);
    Eigen::Matrix<double, 6, 6> C, C2;
    auto f = [&](double x, double y, int& cnt) -> Eigen::Matrix<double, 6, 6> {
        if (method == "iid") return serpent::censi_iid_covariance<Model, S>(reg, x, cnt);
        if (method == "range") return serpent::censi_range_covariance<Model, S>(reg, x, cnt);
        if (method == "bias") return serpent::censi_range_bias_covariance<Model, S>(reg, x, y, cnt);
        return serpent::lls_iid_covariance<Model, S>(reg, x, cnt);
    };
    C = f(v1, v2, count);
    int c2;
    C2 = f(v1 * 4, v2 * 4, c2);
    e.i("count", count).m("C", C).m("C4", C2).emit();
}
static void names(Rng& r) {
    using namespace serpent;
    static const std::vector<std::string> S{"CONSTANT", "CENSI", "LLS", "POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED",
            "POINT_TO_PLANE_NONLINEAR", "VOXEL_SIZE", "RANGE", "RANGE_BIAS", "", "censi", "RANGE_", "POINT_TO_PLANE"};
    const std::string s = r.pick(S), s2 = r.pick(S);
    auto get = [&](auto f) -> std::string { try { return f(); } catch (const std::exception&) { return "refused"; } };
    Ev("names").t("s", s).t("s2", s2)
        .t("method", get([&] { return to_string(to_covariance_estimation_method(s)); }))
        .t("model", get([&] { return to_string(to_covariance_estimation_model(s)); }))
        .t("point", get([&] { return to_string(to_point_covariance_method(s)); }))
        .t("units", get([&] { return std::string(requires_unit_vectors(s, s2) ? "yes" : "no"); }))
        .emit();
    // every combination of the accepted names, in turn
    static int k = 0;
    const std::vector<std::string> A{"CONSTANT", "CENSI", "LLS"}, B{"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"};
    const std::string a = A[k % 3], b = B[(k / 3) % 4];
    ++k;
    Ev("names").t("s", a).t("s2", b).t("method", get([&] { return to_string(to_covariance_estimation_method(a)); }))
        .t("model", get([&] { return to_string(to_covariance_estimation_model(a)); })).t("point", get([&] { return to_string(to_point_covariance_method(a)); }))
        .t("units", get([&] { return std::string(requires_unit_vectors(a, b) ? "yes" : "no"); })).emit();
}
template<class F> static void with_type_check(Rng&, F) {}
static void p13(const Args& a) {
    Rng r(a.seed * 1000 + a.part * 17 + 7);
    using namespace serpent;
    for (int i = 0; i < a.count; ++i) {
        switch (r.range(0, 11)) {
            case 0: hessian<PointToPointIcpNonlinearModel>(r, "POINT_NONLINEAR"); break;
            case 1: hessian<PointToPointIcpLinearisedModel>(r, "POINT_LINEARISED"); break;
            case 2: hessian<PointToPlaneIcpNonlinearModel>(r, "PLANE_NONLINEAR"); break;
            case 3: hessian<PointToPlaneIcpLinearisedModel>(r, "PLANE_LINEARISED"); break;
            case 4: covariance<PointToPointIcpNonlinearModel, double>(r, "POINT_NONLINEAR"); break;
            case 5: covariance<PointToPointIcpLinearisedModel, double>(r, "POINT_LINEARISED"); break;
            case 6: covariance<PointToPlaneIcpNonlinearModel, double>(r, "PLANE_NONLINEAR"); break;
            case 7: covariance<PointToPlaneIcpLinearisedModel, double>(r, "PLANE_LINEARISED"); break;
            case 8: covariance<PointToPointIcpNonlinearModel, float>(r, "POINT_NONLINEAR"); break;
            case 9: covariance<PointToPlaneIcpLinearisedModel, float>(r, "PLANE_LINEARISED"); break;
            default: names(r);
        }
    }
}

int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    if (a.group == "P11") p11(a);
    else if (a.group == "P12") p12(a);
    else if (a.group == "P13") p13(a);
    else return 64;
    return finish();
}
