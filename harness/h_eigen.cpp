// P01 / P02: drives eigen_ext over random, degenerate and extreme inputs and records each call.
#include "vh.hpp"
#include "eigen_ext/covariance.hpp"
#include "eigen_ext/geometry.hpp"
#include "eigen_ext/matrix.hpp"
#include "eigen_ext/precomputed_transform_components.hpp"
using namespace vh;
using M6 = Eigen::Matrix<double, 6, 6>;
using V6 = Eigen::Matrix<double, 6, 1>;
template<class S> using Iso = Eigen::Transform<S, 3, Eigen::Isometry>;

template<class S>
static Iso<S> cast(const Eigen::Isometry3d& T) { Iso<S> r; r.matrix() = T.matrix().cast<S>(); return r; }
template<class S>
static std::string TJ(const Iso<S>& T) { return mat(T.matrix().template topRows<3>()); }
template<class S>
static constexpr bool isf() { return std::is_same<S, float>::value; }

template<class S>
static void geometry(Rng& r) {
    const bool f = isf<S>();
    const double scale = f ? 3.0 : 10.0;
    const Iso<S> A = cast<S>(rand_iso(r, scale)), B = r.chance(10) ? A : cast<S>(rand_iso(r, scale)), T = cast<S>(rand_iso(r, scale));
    switch (r.range(0, 12)) {
        case 0: Ev("relative").b("f", f).raw("A", TJ(A)).raw("B", TJ(B)).raw("out", TJ<S>(eigen_ext::relative_transform(A, B))).emit(); break;
        case 1: {
            const bool three = r.chance(50);
            const Iso<S> out = three ? eigen_ext::change_relative_transform_frame<S>(A, T, T.inverse())
                                     : eigen_ext::change_relative_transform_frame<S>(A, T);
            Ev("chframe").b("f", f).raw("rel", TJ(A)).raw("T", TJ(T)).raw("out", TJ(out)).emit();
            const Iso<S> back = eigen_ext::change_relative_transform_frame<S>(out, T.inverse());
            Ev("chframe_back").b("f", f).raw("rel", TJ(A)).raw("T", TJ(T)).raw("out", TJ(back)).emit();
            break;
        }
        case 2: Ev("adj").b("f", f).raw("T", TJ(T)).m("out", eigen_ext::transform_adjoint(T)).emit(); break;
        case 3: {
            Eigen::Matrix<S, 6, 1> V;
            for (int i = 0; i < 6; ++i) V[i] = static_cast<S>(r.chance(20) ? 0.0 : r.real(-5, 5));
            const Eigen::Matrix<S, 6, 1> out = eigen_ext::change_twist_reference_frame(T, V);
            Ev("twist").b("f", f).raw("T", TJ(T)).v("V", V).v("out", out).emit();
            break;
        }
        case 4: case 5: {
            const S dt = static_cast<S>(r.pick(std::vector<double>{1.0, 0.1, 0.01, 2.0, 10.0, 0.0, -1.0, -1e-3, r.real(1e-4, 3.0)}));
            Eigen::Matrix<S, 6, 1> out = Eigen::Matrix<S, 6, 1>::Zero();
            const bool exc = threw([&] { out = eigen_ext::linear_rates<S>(A, B, dt); });
            Ev("rates").b("f", f).raw("A", TJ(A)).raw("B", TJ(B)).d("dt", dt).b("exc", exc).v("out", out).emit();
            break;
        }
        case 6: {
            const Eigen::Quaterniond qd = rand_rot(r);
            const Eigen::Quaternion<S> q = qd.cast<S>();
            const Eigen::Matrix<S, 3, 1> t = rand_vec(r, scale).cast<S>();
            Iso<S> out;
            switch (r.range(0, 2)) {
                case 0: out = eigen_ext::to_transform<S, 3>(Eigen::Translation<S, 3>(t), q); break;
                case 1: out = eigen_ext::to_transform<S, 3>(t, q); break;
                default: out = eigen_ext::to_transform<S, 3>(t, Eigen::Matrix<S, 3, 3>(q.toRotationMatrix()));
            }
            const Eigen::Matrix<S, 4, 1> qv(q.w(), q.x(), q.y(), q.z());
            Ev("mktransform").b("f", f).v("q", qv).v("t", t).raw("out", TJ(out)).emit();
            break;
        }
        case 7: {
            const Eigen::Matrix<S, 3, 1> v = rand_vec(r, scale).cast<S>();
            Eigen::Matrix<S, 3, 3> M = eigen_ext::skew_symmetric(v);
            Ev("skew").b("f", f).v("v", v).m("out", M).emit();
            if (r.chance(60)) M(r.range(0, 2), r.range(0, 2)) += static_cast<S>(r.pick(std::vector<double>{1.0, -1.0, 0.25, -0.5}));
            Eigen::Matrix<S, 3, 1> out = Eigen::Matrix<S, 3, 1>::Zero();
            const bool exc = threw([&] { out = eigen_ext::from_skew_symmetric<S>(M); });
            Ev("unskew").b("f", f).m("M", M).b("exc", exc).v("out", out).emit();
            break;
        }
        case 8: case 9: {
            Eigen::Matrix<S, 3, 1> p = (rand_vec(r, r.pick(std::vector<double>{1.0, 100.0, 0.01}))).cast<S>();
            const int z = r.range(0, 9);
            if (z == 0) p[0] = p[1] = 0;
            if (z == 1) p[0] = 0;
            if (z == 2) p[1] = 0;
            if (z == 3) p[2] = 0;
            if (z == 4) p = Eigen::Matrix<S, 3, 1>::Zero();
            Eigen::Matrix<S, 3, 1> out = Eigen::Matrix<S, 3, 1>::Zero();
            const bool one = r.chance(50);
            const bool exc = threw([&] { out = one ? eigen_ext::cartesian_to_polar<S>(p) : eigen_ext::cartesian_to_polar<S>(p[0], p[1], p[2]); });
            Ev("polar").b("f", f).v("p", p).b("exc", exc).v("out", out).emit();
            break;
        }
        case 10: {
            Eigen::Matrix<S, 3, 1> v = r.chance(15) ? Eigen::Matrix<S, 3, 1>::Zero().eval() : rand_vec(r, r.pick(std::vector<double>{1.0, 1e-3, 1e3})).cast<S>().eval();
            Eigen::Matrix<S, 3, 1> out = Eigen::Matrix<S, 3, 1>::Zero();
            const bool one = r.chance(50);
            const bool exc = threw([&] { out = one ? eigen_ext::safe_normalise(v) : eigen_ext::safe_normalise<S>(v[0], v[1], v[2]); });
            Ev("normalise").b("f", f).v("v", v).b("exc", exc).v("out", out).emit();
            break;
        }
        default: {
            const bool fromm = r.chance(50);
            Eigen::Matrix<S, 3, 1> r0 = Eigen::Matrix<S, 3, 1>::Zero(), t0 = Eigen::Matrix<S, 3, 1>::Zero();
            Eigen::Matrix<S, 4, 4> Tm = T.matrix();
            if (!fromm) {
                r0 = (r.chance(20) ? 0.0 : r.pick(std::vector<double>{1e-3, 0.1, 1.0, 3.0, 3.1})) * rand_dir(r).cast<S>();
                t0 = rand_vec(r, scale).cast<S>();
            }
            const eigen_ext::PrecomputedTransformComponents<S> c =
                    fromm ? eigen_ext::PrecomputedTransformComponents<S>(Tm) : eigen_ext::PrecomputedTransformComponents<S>(r0, t0);
            Ev("precomputed").b("f", f).t("from", fromm ? "matrix" : "vectors").raw("T", TJ(T)).v("r0", r0).v("t0", t0)
                    .m("Tm", c.T().template topRows<3>()).m("R", c.R()).v("r", c.r()).v("t", c.t()).d("a", c.a()).d("sina", c.sina()).d("cosa", c.cosa()).emit();
        }
    }
}

static void interpolation(Rng& r) {
    const double x = r.pick(std::vector<double>{0.0, 1.0, 0.5, -0.5, 1.5, r.unit(), r.unit()});
    if (r.chance(50)) {
        const Eigen::Vector3d a = rand_vec(r, 10), b = rand_vec(r, 10);
        const Eigen::Vector3d o = eigen_ext::linear_interpolate(a, b, x);
        Ev("interp").b("f", false).m("A", a).m("B", b).d("x", x).m("out", o).emit();
    } else {
        const Eigen::Matrix3d a = rand_spd<3>(r), b = rand_spd<3>(r);
        const Eigen::Matrix3d o = eigen_ext::linear_interpolate(a, b, x);
        Ev("interp").b("f", false).m("A", a).m("B", b).d("x", x).m("out", o).emit();
    }
}

template<int N>
static void reorder(Rng& r) {
    Eigen::Matrix<double, N, N> C = rand_spd<N>(r);
    if (r.chance(50)) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) C(i, j) = r.range(-50, 50);
    const int b = r.chance(70) ? r.range(1, N - 1) : r.pick(std::vector<int>{-2, -1, 0, N, N + 1});
    bool exc;
    if (r.chance(25)) {
        const Eigen::MatrixXd D = C;
        Eigen::MatrixXd out = Eigen::MatrixXd::Zero(N, N);
        exc = threw([&] { out = eigen_ext::reorder_covariance(D, b); });
        Ev("reorder").b("f", false).m("C", C).i("b", b).b("exc", exc).m("out", out).emit();
    } else {
        Eigen::Matrix<double, N, N> out = C;
        exc = threw([&] { out = eigen_ext::reorder_covariance(C, b); });
        Ev("reorder").b("f", false).m("C", C).i("b", b).b("exc", exc).m("out", out).emit();
    }
}

template<int N>
static void validity(Rng& r) {
    Eigen::Matrix<double, N, N> C = rand_spd<N>(r, r.pick(std::vector<double>{1.0, 1e-4, 100.0}));
    double prec = r.pick(std::vector<double>{0.0, 0.0, 1e-9, 1e-3});
    const int i = r.range(0, N - 1);
    int j = r.range(0, N - 1);
    const double scale = C.cwiseAbs().maxCoeff();
    switch (r.range(0, 7)) {
        case 0: break;
        case 1: C(i, j) = r.pick(std::vector<double>{std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}); break;
        case 2: case 3: {  // asymmetry of known size
            while (j == i) j = r.range(0, N - 1);
            prec = r.pick(std::vector<double>{0.0, 1e-9, 1e-6}) * scale;
            C(i, j) += r.pick(std::vector<double>{0.5, 2.0}) * (prec == 0.0 ? 1e-3 * scale : prec);
            break;
        }
        case 4: C(i, i) = -C(i, i); break;                                  // negative variance
        case 5: C(i, i) = -0.3 * scale; break;
        case 6: {  // indefinite with positive diagonal: make an off-diagonal entry too large
            while (j == i) j = r.range(0, N - 1);
            C(i, j) = C(j, i) = r.pick(std::vector<double>{1.5, -1.5}) * std::sqrt(C(i, i) * C(j, j));
            break;
        }
        default: if (r.chance(50)) C.setZero(); else C *= -1.0;
    }
    note("validity");
    if (r.chance(20)) {
        const Eigen::MatrixXd D = C;
        Ev("valid").b("f", false).m("C", C).d("prec", prec).b("out", eigen_ext::is_valid_covariance(D, prec)).emit();
    } else Ev("valid").b("f", false).m("C", C).d("prec", prec).b("out", eigen_ext::is_valid_covariance(C, prec)).emit();
    if (C.allFinite()) {
        Ev("sym").b("f", false).m("C", C).d("prec", prec).b("out", eigen_ext::is_symmetric(C, prec)).emit();
        if (C == C.transpose()) Ev("pd").b("f", false).m("C", C).b("out", eigen_ext::is_positive_definite(C)).emit();
    }
    const Eigen::Matrix<double, N, N> A = C.cwiseAbs();
    if (A.allFinite()) Ev("posdiag").b("f", false).m("M", A).b("out", eigen_ext::non_zero_diagonals(A)).emit();
}

static void uncertainty(Rng& r) {
    const Eigen::Isometry3d T = rand_iso(r);
    const M6 P = rand_spd<6>(r), Q = rand_spd<6>(r);
    switch (r.range(0, 6)) {
        case 0: reorder<6>(r); break;
        case 1: reorder<3>(r); break;
        case 2: {
            const M6 out = r.chance(50) ? eigen_ext::change_covariance_frame<double>(P, T)
                                        : eigen_ext::change_covariance_frame<double>(P, eigen_ext::transform_adjoint(T));
            Ev("chcov").b("f", false).m("C", P).T("T", T).m("out", out).emit();
            break;
        }
        case 3: {
            M6 X = M6::Zero();
            const bool cross = r.chance(60);
            if (cross) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) X(i, j) = r.real(-0.3, 0.3);
            const M6 out = cross ? eigen_ext::compose_transform_covariance<double, 3>(P, Q, T, X)
                                 : eigen_ext::compose_transform_covariance<double, 3>(P, Q, T);
            Ev("compose").b("f", false).m("P", P).m("Q", Q).T("T", T).m("X", X).m("out", out).emit();
            break;
        }
        case 4: {
            const Eigen::Quaterniond q = rand_rot(r);
            const Eigen::Matrix3d C = rand_spd<3>(r, r.pick(std::vector<double>{1.0, 1e-3})), R = q.toRotationMatrix();
            Eigen::Matrix3d out;
            switch (r.range(0, 2)) {
                case 0: out = eigen_ext::rotate_point_covariance(C, R); break;
                case 1: out = eigen_ext::rotate_point_covariance(C, q); break;
                default: out = eigen_ext::rotate_point_covariance(C, Eigen::AngleAxisd(q));
            }
            Ev("rotcov").b("f", false).m("C", C).m("R", R).m("out", out).emit();
            if (r.chance(30)) {
                const Eigen::Matrix3f Cf = C.cast<float>(), Rf = R.cast<float>();
                const Eigen::Matrix3f of = eigen_ext::rotate_point_covariance(Cf, Rf);
                Ev("rotcov").b("f", true).m("C", Cf).m("R", Rf).m("out", of).emit();
            }
            break;
        }
        case 5: {
            if (r.chance(10)) {
                const Eigen::MatrixXd N = Eigen::MatrixXd::Identity(r.range(1, 3), r.range(4, 6));
                Eigen::MatrixXd o;
                const bool v = eigen_ext::is_valid_covariance(N);
                const bool e = threw([&] { o = eigen_ext::reorder_covariance(N, 1); });
                Ev("nonsquare").b("f", false).b("valid", v).b("reorder_exc", e).emit();
            }
            validity<6>(r);
            break;
        }
        default: validity<3>(r);
    }
}

int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000 + a.part);
    for (int k = 0; k < a.count; ++k) {
        if (a.group == "P01") {
            if (r.chance(8)) interpolation(r);
            else if (r.chance(20)) geometry<float>(r);
            else geometry<double>(r);
        } else uncertainty(r);
    }
    return finish();
}
