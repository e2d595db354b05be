// GTSAM values and factors as JSON; the calls to ISAM2::update and marginalizeLeaves are interposed and recorded.
#pragma once
#include "vh.hpp"
#include <functional>
#include <gtsam/inference/Symbol.h>
#include <gtsam/nonlinear/ISAM2.h>
#include <gtsam/nonlinear/NonlinearFactorGraph.h>
#include <gtsam/nonlinear/Values.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <dlfcn.h>
#include <set>
using namespace vh;
using gtsam::Pose3;
using Bias = gtsam::imuBias::ConstantBias;
using SF = gtsam::GenericStereoFactor<Pose3, gtsam::Point3>;
using gtsam::symbol_shorthand::B; using gtsam::symbol_shorthand::P; using gtsam::symbol_shorthand::S; using gtsam::symbol_shorthand::V; using gtsam::symbol_shorthand::X;

// ---- values, keys and factors as text
static std::vector<double> flat(const Eigen::Ref<const Eigen::MatrixXd>& m) { std::vector<double> v; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v.push_back(m(i, j)); return v; }
static std::string txt(const std::vector<double>& v) { std::string s; char b[40]; for (double d : v) { std::snprintf(b, sizeof b, "%.17g ", d); s += b; } return s; }
static std::string jm(const Eigen::Ref<const Eigen::MatrixXd>& m) { return nums(flat(m)); }
static std::string jv(const Pose3& p) { return jm(p.matrix().topRows<3>()); }
static std::string jv(const Bias& b) { return jm(b.vector()); }
static std::string jv(double d) { return nums({d}); }
static std::string jv(const Eigen::Vector3d& v) { return jm(v); }
static std::string jkey(gtsam::Key k) { gtsam::Symbol s(k); return std::string("[\"") + char(std::toupper(s.chr())) + "\"," + std::to_string(s.index()) + "]"; }
static std::string jval(const gtsam::Value& v) {
    if (auto p = dynamic_cast<const gtsam::GenericValue<Pose3>*>(&v)) return jv(p->value());
    if (auto p = dynamic_cast<const gtsam::GenericValue<Bias>*>(&v)) return jv(p->value());
    if (auto p = dynamic_cast<const gtsam::GenericValue<double>*>(&v)) return jv(p->value());
    if (auto p = dynamic_cast<const gtsam::GenericValue<gtsam::Vector3>*>(&v)) return jv(p->value());
    return "[\"?\"]";
}
static std::string jvals(const gtsam::Values& vs) {
    std::string r = "[";
    for (const auto& kv : vs) r += std::string(r.size() > 1 ? "," : "") + "[" + jkey(kv.key) + "," + jval(kv.value) + "]";
    return r + "]";
}
static std::string noise_txt(const gtsam::SharedNoiseModel& n) {
    if (auto g = boost::dynamic_pointer_cast<gtsam::noiseModel::Gaussian>(n)) return txt(flat(g->covariance()));
    if (auto r = boost::dynamic_pointer_cast<gtsam::noiseModel::Robust>(n)) return "robust " + noise_txt(r->noise());
    return "?";
}
static std::string imu_txt(const gtsam::PreintegratedCombinedMeasurements& m) {
    return txt({m.deltaTij()}) + txt(flat(m.deltaPij())) + txt(flat(m.deltaVij())) + txt(flat(m.deltaRij().matrix())) + txt(flat(m.biasHat().vector()));
}
struct Desc { std::string k, m, n; };
static Desc describe(const gtsam::NonlinearFactor& f) {
    Desc d{"?", "", ""};
    if (auto n = dynamic_cast<const gtsam::NoiseModelFactor*>(&f)) d.n = noise_txt(n->noiseModel());
    if (auto p = dynamic_cast<const gtsam::PriorFactor<Pose3>*>(&f)) { d.k = "priorX"; d.m = txt(flat(p->prior().matrix())); }
    else if (auto p = dynamic_cast<const gtsam::PriorFactor<Bias>*>(&f)) { d.k = "priorB"; d.m = txt(flat(p->prior().vector())); }
    else if (auto p = dynamic_cast<const gtsam::PriorFactor<double>*>(&f)) { d.k = "priorP"; d.m = txt({p->prior()}); }
    else if (auto p = dynamic_cast<const gtsam::PriorFactor<gtsam::Velocity3>*>(&f)) { d.k = "priorV"; d.m = txt(flat(p->prior())); }
    else if (auto p = dynamic_cast<const gtsam::BetweenFactor<Pose3>*>(&f)) { d.k = "between"; d.m = txt(flat(p->measured().matrix())); }
    else if (auto p = dynamic_cast<const gtsam::BetweenFactor<double>*>(&f)) { d.k = "bbias"; d.m = txt({p->measured()}); }
    else if (auto p = dynamic_cast<const gtsam::BarometricFactor*>(&f)) { d.k = "baro"; d.m = txt({p->measurementIn()}); }
    else if (auto p = dynamic_cast<const gtsam::CombinedImuFactor*>(&f)) { d.k = "imu"; d.m = imu_txt(p->preintegratedMeasurements()); d.n = ""; }
    else if (auto p = dynamic_cast<const SF*>(&f)) { d.k = "stereo"; d.m = txt(flat(p->measured().vector())); d.n += "| " + txt(flat(p->calibration()->vector())); }
    return d;
}
// numbers for the specification to judge
static bool g_numeric = false;
static std::string numeric(const gtsam::NonlinearFactor& f) {
    std::string m = "[]", n = "[]", x;
    bool robust = false;
    if (auto nf = dynamic_cast<const gtsam::NoiseModelFactor*>(&f)) {
        gtsam::SharedNoiseModel z = nf->noiseModel();
        if (auto r = boost::dynamic_pointer_cast<gtsam::noiseModel::Robust>(z)) { robust = true; z = r->noise(); x = ",\"rw\":" + nums({r->robust()->weight(0.05), r->robust()->weight(0.7), r->robust()->weight(2.0)}) + ",\"rs\":\"" + (r->robust()->reweightScheme() == gtsam::noiseModel::mEstimator::Base::Block ? "BLOCK" : "SCALAR") + "\""; }
        if (auto g = boost::dynamic_pointer_cast<gtsam::noiseModel::Gaussian>(z)) { const gtsam::Matrix c = g->covariance(); n = "["; for (int i = 0; i < c.rows(); ++i) n += (i ? "," : "") + jm(c.row(i)); n += "]"; }
    }
    if (auto p = dynamic_cast<const gtsam::PriorFactor<Pose3>*>(&f)) m = mat(p->prior().matrix().topRows<3>().eval());
    else if (auto p = dynamic_cast<const gtsam::PriorFactor<Bias>*>(&f)) m = jm(p->prior().vector());
    else if (auto p = dynamic_cast<const gtsam::PriorFactor<double>*>(&f)) m = jv(p->prior());
    else if (auto p = dynamic_cast<const gtsam::PriorFactor<gtsam::Velocity3>*>(&f)) m = jm(p->prior());
    else if (auto p = dynamic_cast<const gtsam::BetweenFactor<Pose3>*>(&f)) m = mat(p->measured().matrix().topRows<3>().eval());
    else if (auto p = dynamic_cast<const gtsam::BetweenFactor<double>*>(&f)) m = jv(p->measured());
    else if (auto p = dynamic_cast<const gtsam::BarometricFactor*>(&f)) m = jv(p->measurementIn());
    else if (auto p = dynamic_cast<const SF*>(&f)) { m = jm(p->measured().vector()); x += ",\"K\":" + jm(p->calibration()->vector()) + ",\"err\":" + jm(p->evaluateError(Pose3(), gtsam::Point3(8, 0.3, -0.2))); }
    else if (auto p = dynamic_cast<const gtsam::CombinedImuFactor*>(&f)) {
        const auto& z = p->preintegratedMeasurements(); const auto& q = z.p();
        n = "[]";
        auto rows = [](const gtsam::Matrix& c) { std::string s = "["; for (int i = 0; i < c.rows(); ++i) s += (i ? "," : "") + jm(c.row(i)); return s + "]"; };
        m = nums({z.deltaTij()});
        x = ",\"dR\":" + rows(z.deltaRij().matrix()) + ",\"dp\":" + jm(z.deltaPij()) + ",\"dv\":" + jm(z.deltaVij());
        x += ",\"bias\":" + jm(z.biasHat().vector()) + ",\"acc\":" + rows(q.getAccelerometerCovariance()) + ",\"gyr\":" + rows(q.getGyroscopeCovariance()) + ",\"itg\":" + rows(q.getIntegrationCovariance())
          + ",\"ba\":" + rows(q.biasAccCovariance) + ",\"bg\":" + rows(q.biasOmegaCovariance) + ",\"bi\":" + rows(q.biasAccOmegaInt) + ",\"g\":" + jm(q.n_gravity) + ",\"BI\":" + (q.getBodyPSensor() ? mat(q.getBodyPSensor()->matrix().topRows<3>().eval()) : std::string("[]"));
    }
    return ",\"mv\":" + m + ",\"nv\":" + n + ",\"rob\":" + (robust ? "true" : "false") + x;
}
static std::string jfac(const gtsam::NonlinearFactor& f) {
    const Desc d = describe(f);
    return "{\"k\":" + str(d.k) + ",\"keys\":" + list(f.keys(), [](gtsam::Key k) { return jkey(k); }) + ",\"m\":" + str(d.m) + ",\"n\":" + str(d.n) + (g_numeric ? numeric(f) : std::string()) + "}";
}
static std::string jfacs(const gtsam::NonlinearFactorGraph& g) { return list(g, [](const auto& f) { return f ? jfac(*f) : std::string("{\"k\":\"null\",\"keys\":[],\"m\":\"\",\"n\":\"\"}"); }); }

// ---- interposed optimiser calls
static std::vector<std::string> g_updates, g_removed;
static gtsam::ISAM2* g_opt = nullptr;
static std::string g_est = "[]";
static int g_depth = 0;
static std::function<void()> g_on_update;   // after each successful call
static std::string g_libwhat;
static bool g_libexc = false;   // the optimiser itself gave up
template<class F> static F next_symbol(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { std::fprintf(stderr, "no %s\n", name); std::exit(65); }
    return reinterpret_cast<F>(p);
}
namespace gtsam {
template<class Real> static ISAM2Result recorded(ISAM2& o, const NonlinearFactorGraph& f, const Values& v, Real real) {
    if (g_depth) return real();     // one overload calling the other
    g_opt = &o;
    g_updates.push_back("{\"f\":" + jfacs(f) + ",\"v\":" + jvals(v) + "}");
    g_libexc = false;
    ++g_depth;
    try { ISAM2Result r = real(); --g_depth; g_est = jvals(o.calculateEstimate()); if (g_on_update) g_on_update(); return r; } catch (const std::exception& e) { g_depth = 0; g_libexc = true; g_libwhat = e.what(); throw; } catch (...) { g_depth = 0; g_libexc = true; throw; }
}
ISAM2Result ISAM2::update(const NonlinearFactorGraph& f, const Values& v, const ISAM2UpdateParams& u) {
    static auto real = next_symbol<ISAM2Result (*)(ISAM2*, const NonlinearFactorGraph&, const Values&, const ISAM2UpdateParams&)>(
        "_ZN5gtsam5ISAM26updateERKNS_20NonlinearFactorGraphERKNS_6ValuesERKNS_17ISAM2UpdateParamsE");
    return recorded(*this, f, v, [&] { return real(this, f, v, u); });
}
ISAM2Result ISAM2::update(const NonlinearFactorGraph& f, const Values& v, const FactorIndices& rm, const boost::optional<FastMap<Key, int>>& ck,
                          const boost::optional<FastList<Key>>& nr, const boost::optional<FastList<Key>>& ex, bool force) {
    static auto real = next_symbol<ISAM2Result (*)(ISAM2*, const NonlinearFactorGraph&, const Values&, const FactorIndices&, const boost::optional<FastMap<Key, int>>&,
                                                   const boost::optional<FastList<Key>>&, const boost::optional<FastList<Key>>&, bool)>(
        "_ZN5gtsam5ISAM26updateERKNS_20NonlinearFactorGraphERKNS_6ValuesERKSt6vectorImN3tbb6detail2d113tbb_allocatorImEEERKN5boost8optionalINS_7FastMapImiEEEERKNSH_INS_8FastListImEEEESR_b");
    return recorded(*this, f, v, [&] { return real(this, f, v, rm, ck, nr, ex, force); });
}
void ISAM2::marginalizeLeaves(const FastList<Key>& ks, boost::optional<FactorIndices&>, boost::optional<FactorIndices&>) {
    g_removed.push_back(list(ks, [](Key k) { return jkey(k); }));   // recorded, not done: which variables are leaves is the optimiser's business
}
}

