// P21 store, P22 hand-over to the optimiser, P23 marginalisation, P24 stereo landmarks: serpent::ISAM2GraphManager.
// ISAM2::update and ISAM2::marginalizeLeaves are interposed: what the graph manager passes to them is recorded.
#include "vh.hpp"
#include "scen.hpp"
#include <serpent/back_end/graph_manager.hpp>
#include "isam.hpp"
// ---- inputs
static Pose3 rpose(Rng& r, int k = -1) {
    if (k < 0) return Pose3(gtsam::Rot3(rand_rot(r)), rand_vec(r, 5));
    Eigen::Vector3d w = rand_vec(r, 0.1), t = rand_vec(r, 0.2);
    return Pose3(gtsam::Rot3::Expmap(w), t + Eigen::Vector3d(0.5 * k, 0, 0));
}
static Bias rbias(Rng& r, double s = 0.1) { return Bias(rand_vec(r, s), rand_vec(r, s)); }
template<int N> static gtsam::SharedNoiseModel rnoise(Rng& r) {
    Eigen::Matrix<double, N, 1> s; for (int i = 0; i < N; ++i) s(i) = r.real(0.05, 0.5);
    if (r.chance(30)) return gtsam::noiseModel::Gaussian::Covariance(rand_spd<N>(r, 0.1));
    return gtsam::noiseModel::Diagonal::Sigmas(s);
}
static gtsam::PreintegratedCombinedMeasurements rimu(Rng& r, bool plausible) {
    auto p = gtsam::PreintegrationCombinedParams::MakeSharedU(9.81);
    p->setAccelerometerCovariance(Eigen::Matrix3d::Identity() * 1e-1); p->setGyroscopeCovariance(Eigen::Matrix3d::Identity() * 1e-1);
    p->setIntegrationCovariance(Eigen::Matrix3d::Identity() * 1e-1); p->setBiasAccCovariance(Eigen::Matrix3d::Identity() * 1e-1); p->setBiasOmegaCovariance(Eigen::Matrix3d::Identity() * 1e-1);
    gtsam::PreintegratedCombinedMeasurements m(p, rbias(r, 0.01));
    const int steps = r.range(1, 4);
    for (int n = steps; n; --n) m.integrateMeasurement(plausible ? Eigen::Vector3d(rand_vec(r, 0.1) + Eigen::Vector3d(0, 0, 9.81)) : rand_vec(r, 5), rand_vec(r, plausible ? 0.05 : 1), plausible ? 0.5 / steps : r.real(0.01, 0.1));
    return m;
}

using GM = serpent::ISAM2GraphManager;
struct Ctx {
    std::unique_ptr<GM> gm;
    std::string snoise;                    // text of the stereo noise model
    gtsam::Cal3_S2Stereo K; Pose3 cam;
    int maxkey = -1;
    std::set<int> ids;
};
static gtsam::ISAM2Params params(Rng& r) {
    gtsam::ISAM2Params p;
    if (r.chance(30)) p.setOptimizationParams(gtsam::ISAM2DoglegParams());
    p.setRelinearizeThreshold(r.pick(std::vector<double>{0.1, 0.01, 1.0}));
    p.relinearizeSkip = r.pick(std::vector<int>{1, 10});
    if (r.chance(30)) p.setFactorization("QR");
    return p;
}
static Ctx make(Rng& r) {
    Ctx c;
    c.gm.reset(new GM(params(r)));
    c.K = gtsam::Cal3_S2Stereo(r.real(300, 600), r.real(300, 600), 0.0, r.real(200, 400), r.real(150, 300), r.real(0.3, 0.7));
    Eigen::Matrix3d Rc; Rc << 0, 0, 1, -1, 0, 0, 0, -1, 0;
    c.cam = Pose3(gtsam::Rot3(Rc) * gtsam::Rot3::Expmap(rand_vec(r, 0.05)), rand_vec(r, 0.3));
    gtsam::SharedNoiseModel n = gtsam::noiseModel::Diagonal::Sigmas(Eigen::Vector3d(r.real(0.5, 5), r.real(0.5, 5), r.real(0.5, 5)));
    if (r.chance(30)) n = gtsam::noiseModel::Robust::Create(gtsam::noiseModel::mEstimator::Huber::Create(1.345), n);
    if (r.chance(50)) c.gm->set_stereo_calibration(c.K); else c.gm->set_stereo_calibration(boost::make_shared<gtsam::Cal3_S2Stereo>(c.K));
    c.gm->set_body_to_stereo_left_cam_pose(c.cam);
    c.gm->set_stereo_noise_model(n);
    c.snoise = noise_txt(n) + "| " + txt(flat(c.K.vector()));
    g_opt = nullptr; g_est = "[]"; g_updates.clear(); g_removed.clear();
    Ev("newgraph").raw("K", jm(c.K.vector())).raw("cam", jv(c.cam)).raw("Kr", jm(c.gm->stereo_calibration() ? c.gm->stereo_calibration()->vector() : Eigen::Matrix<double, 6, 1>::Zero().eval())).i("opt", c.gm->opt_key()).i("marg", c.gm->marginalisation_key()).emit();
    return c;
}
static void dump(Ctx& c) {
    Ev("dump").raw("vals", jvals(c.gm->values())).raw("facs", jfacs(c.gm->factors(0, c.maxkey + 2)))
        .raw("ts", list(c.gm->timestamps(), [](const auto& kt) { return "[" + std::to_string(kt.first) + "," + str(std::to_string(kt.second.toNSec())) + "]"; })).emit();
}
// a key, by number or by name and offset
struct KeyRef { int k; std::string name; int off; };
static std::vector<std::string> g_names;
static std::map<std::string, int> g_namekey;
static KeyRef keyref(Rng& r, int k) {
    if (!g_names.empty() && r.chance(40)) { const std::string n = r.pick(g_names); return {k, n, k - g_namekey[n]}; }
    return {k, "", 0};
}
static Ev& put(Ev& e, const KeyRef& k) { if (k.name.empty()) return e.i("k", k.k); return e.t("name", k.name).i("off", k.off); }

static void set_value(Ctx& c, Rng& r, char kind, int key, bool plausible) {
    const KeyRef k = keyref(r, key);
    c.maxkey = std::max(c.maxkey, key);
    auto& g = *c.gm;
    const bool z = k.off == 0 && r.chance(50);     // defaulted offset
    note("set value");
    Ev e("set");
    put(e, k).t("kind", std::string(1, kind));
    switch (kind) {
        case 'X': { Pose3 p = rpose(r, plausible ? key : -1); if (k.name.empty()) g.set_pose(k.k, p); else z ? g.set_pose(k.name, p) : g.set_pose(k.name, p, k.off); e.raw("v", jv(p)); break; }
        case 'V': { Eigen::Vector3d v = rand_vec(r, plausible ? 0.3 : 5) + Eigen::Vector3d(plausible ? 1 : 0, 0, 0); if (k.name.empty()) g.set_velocity(k.k, v); else z ? g.set_velocity(k.name, v) : g.set_velocity(k.name, v, k.off); e.raw("v", jv(v)); break; }
        case 'B': { Bias b = rbias(r); if (k.name.empty()) g.set_imu_bias(k.k, b); else z ? g.set_imu_bias(k.name, b) : g.set_imu_bias(k.name, b, k.off); e.raw("v", jv(b)); break; }
        case 'P': { double d = plausible ? r.real(-0.5, 0.5) : r.real(-5, 5); if (k.name.empty()) g.set_barometer_bias(k.k, d); else z ? g.set_barometer_bias(k.name, d) : g.set_barometer_bias(k.name, d, k.off); e.raw("v", jv(d)); break; }
        case 'N': {
            Pose3 p = rpose(r, plausible ? key : -1); Eigen::Vector3d v = rand_vec(r, 0.3) + Eigen::Vector3d(plausible ? 1 : 0, 0, 0); gtsam::NavState n(p, v);
            if (k.name.empty()) g.set_navstate(k.k, n); else z ? g.set_navstate(k.name, n) : g.set_navstate(k.name, n, k.off);
            e.raw("v", jv(p)).raw("v2", jv(v)); break;
        }
        default: { ros::Time t(r.range(1, 2000000000), r.range(0, 999999999)); if (k.name.empty()) g.set_timestamp(k.k, t); else z ? g.set_timestamp(k.name, t) : g.set_timestamp(k.name, t, k.off); e.t("v", std::to_string(t.toNSec())); }
    }
    e.emit();
}
static void factor(Ctx& c, Rng& r, const std::string& kind, int k, bool plausible) {
    auto& g = *c.gm;
    c.maxkey = std::max(c.maxkey, k);
    note("create factor " + kind);
    Ev e("addfac");
    e.t("kind", kind).i("k", k);
    std::string m, n;
    if (kind == "priorX") { Pose3 p = rpose(r, plausible ? k : -1); auto z = rnoise<6>(r); g.create_prior_pose_factor(k, p, z); m = txt(flat(p.matrix())); n = noise_txt(z); }
    else if (kind == "priorV") { Eigen::Vector3d p = rand_vec(r, 0.3) + Eigen::Vector3d(plausible ? 1 : 0, 0, 0); auto z = rnoise<3>(r); g.create_prior_velocity_factor(k, p, z); m = txt(flat(p)); n = noise_txt(z); }
    else if (kind == "priorB") { Bias p = rbias(r); auto z = rnoise<6>(r); g.create_prior_imu_bias_factor(k, p, z); m = txt(flat(p.vector())); n = noise_txt(z); }
    else if (kind == "priorP") { double p = plausible ? r.real(-0.5, 0.5) : r.real(-5, 5); auto z = rnoise<1>(r); g.create_prior_barometer_bias_factor(k, p, z); m = txt({p}); n = noise_txt(z); }
    else if (kind == "between") { Pose3 p = plausible ? rpose(r, 1) : rpose(r); auto z = rnoise<6>(r); g.create_between_pose_factor(k, p, z); m = txt(flat(p.matrix())); n = noise_txt(z); }
    else if (kind == "bbias") { auto z = rnoise<1>(r); g.create_barometric_bias_factor(k, z); m = txt({0.0}); n = noise_txt(z); }
    else if (kind == "imu") { auto p = rimu(r, plausible); g.create_combined_imu_factor(k, p); m = imu_txt(p); }
    else if (kind == "baro") {
        double kpa = plausible ? r.real(101.31, 101.34) : r.real(90, 105); auto z = rnoise<1>(r); double h = g.create_barometric_factor(k, kpa, z);
        gtsam::BarometricFactor ref(X(0), P(0), kpa, z);
        m = txt({ref.measurementIn()}); n = noise_txt(z); e.d("h", h).d("wanth", ref.heightOut(kpa));
    }
    e.t("m", m).t("n", n).emit();
}
static Eigen::Vector3d true_point(int id) { Rng r(id * 977 + 5); return {r.real(9, 16), r.real(-3, 3), r.real(-2, 2)}; }
static bool frame(Ctx& c, Rng& r, int k, const std::vector<int>& ids) {
    std::map<int, gtsam::StereoPoint2> f;
    auto& g = *c.gm;
    const gtsam::StereoCamera cam(rpose(r, k) * c.cam, boost::make_shared<gtsam::Cal3_S2Stereo>(c.K));
    for (int id : ids) {
        gtsam::StereoPoint2 o(0, 0, 0);
        try { o = cam.project(true_point(id)); } catch (const std::exception&) { }
        double d = std::max(o.uL() - o.uR(), 2.0);
        o = gtsam::StereoPoint2(o.uL() + r.real(-1, 1), o.uL() - d + r.real(-0.5, 0.5), o.v() + r.real(-1, 1));
        f.emplace(id, o);
        c.ids.insert(id);
    }
    c.maxkey = std::max(c.maxkey, k);
    note("create stereo factors");
    const bool ex = threw([&] { g.create_stereo_factors_and_values(k, f); });
    Ev e("frame");
    e.i("k", k).b("exc", ex).t("n", c.snoise)
        .raw("f", list(f, [](const auto& x) { return "[" + std::to_string(x.first) + "," + jm(x.second.vector()) + "," + str(txt(flat(x.second.vector()))) + "]"; }));
    std::string lm = "[";
    for (const auto& x : f) if (g.has_stereo_landmark(x.first)) lm += std::string(lm.size() > 1 ? "," : "") + "[" + std::to_string(x.first) + "," + jv(g.stereo_landmark(x.first)) + "]";
    e.raw("lm", lm + "]").emit();
    return ex;
}
template<class F> static void get(Ev& e, F f) {   // f returns JSON text
    std::string s;
    note(e.s);
    const bool x = threw([&] { s = f(); });
    e.b("exc", x).raw("r", x ? "[]" : s).emit();
}
template<class A, class Bf> static void getk(const char* what, const KeyRef& k, A a, Bf b) {   // by number / by name
    Ev e("get"); e.t("what", what); put(e, k);
    get(e, [&] { return k.name.empty() ? a(k.k) : b(k.name, k.off); });
}
static std::string jstate(const serpent::RobotState& s) {
    return "[" + str(std::to_string(s.timestamp().toNSec())) + "," + jv(s.pose()) + "," + jv(s.velocity()) + "," + jv(s.imu_bias()) + "," + jv(s.barometer_bias()) + "," + jv(s.navstate().pose()) + "," + jv(gtsam::Vector3(s.navstate().velocity())) + "]";
}
static void read(Ctx& c, Rng& r) {
    auto& g = *c.gm;
    const int kk = r.range(0, c.maxkey + 2);
    const KeyRef k = keyref(r, kk);
    switch (r.range(0, 19)) {
        case 0: getk("X", k, [&](int i) { return jv(g.pose(i)); }, [&](const std::string& n, int o) { return jv(g.pose(n, o)); }); break;
        case 1: getk("V", k, [&](int i) { return jv(g.velocity(i)); }, [&](const std::string& n, int o) { return jv(g.velocity(n, o)); }); break;
        case 2: getk("B", k, [&](int i) { return jv(g.imu_bias(i)); }, [&](const std::string& n, int o) { return jv(g.imu_bias(n, o)); }); break;
        case 3: getk("P", k, [&](int i) { return jv(g.barometer_bias(i)); }, [&](const std::string& n, int o) { return jv(g.barometer_bias(n, o)); }); break;
        case 4: getk("nav", k, [&](int i) { auto s = g.navstate(i); return "[" + jv(s.pose()) + "," + jv(gtsam::Vector3(s.velocity())) + "]"; },
                     [&](const std::string& n, int o) { auto s = g.navstate(n, o); return "[" + jv(s.pose()) + "," + jv(gtsam::Vector3(s.velocity())) + "]"; }); break;
        case 5: getk("state", k, [&](int i) { return jstate(g.state(i)); }, [&](const std::string& n, int o) { return jstate(g.state(n, o)); }); break;
        case 6: getk("ts", k, [&](int i) { return str(std::to_string(g.timestamp(i).toNSec())); }, [&](const std::string& n, int o) { return str(std::to_string(g.timestamp(n, o).toNSec())); }); break;
        case 7: getk("has", k, [&](int i) { return std::string(g.has_pose(i) ? "true" : "false"); }, [&](const std::string& n, int o) { return std::string(g.has_pose(n, o) ? "true" : "false"); }); break;
        case 8: {
            const int k2 = r.range(0, c.maxkey + 1);
            Ev e("get"); e.t("what", "dt").i("k", kk).i("k2", k2);
            if (!g_names.empty() && r.chance(40)) {
                const std::string a = r.pick(g_names), b = r.pick(g_names);
                get(e, [&] { return str(std::to_string(g.time_between(a, b, kk - g_namekey[a], k2 - g_namekey[b]).toNSec())); });
            } else get(e, [&] { return str(std::to_string(g.time_between(kk, k2).toNSec())); });
            break;
        }
        case 9: case 10: case 11: {
            int a = r.range(0, c.maxkey + 1), b = r.range(0, c.maxkey + 2);
            Ev e("get"); e.t("what", "values").i("a", a).i("b", b); get(e, [&] { return jvals(g.values(a, b)); }); break;
        }
        case 12: case 13: {
            int a = r.range(-1, c.maxkey + 1), b = r.range(0, c.maxkey + 2);
            Ev e("get"); e.t("what", "factors").i("a", a).i("b", b); get(e, [&] { return jfacs(g.factors(a, b)); }); break;
        }
        case 14: {
            gtsam::Key key = r.chance(30) ? S(r.range(0, 7)) : r.pick(std::vector<gtsam::Key>{X(kk), V(kk), B(kk), P(kk)});
            if (r.chance(50)) { Ev e("get"); e.t("what", "fackey").raw("key", jkey(key)); get(e, [&] { return jfacs(g.factors_for_key(key)); }); }
            else { Ev e("get"); e.t("what", "value").raw("key", jkey(key)); get(e, [&] { return jval(g.value(key)); }); }
            break;
        }
        case 15: {
            const int id = c.ids.empty() ? 0 : r.chance(20) ? 99 : r.pick(std::vector<int>(c.ids.begin(), c.ids.end()));
            { Ev e("get"); e.t("what", "haslm").i("k", id); get(e, [&] { return std::string(g.has_stereo_landmark(id) ? "true" : "false"); }); }
            { Ev e("get"); e.t("what", "lm").i("k", id); get(e, [&] { return jv(g.stereo_landmark(id)); }); }
            break;
        }
        case 16: {
            const int q = r.chance(40) ? -1 : kk;
            Ev e("get"); e.t("what", "lms").i("k", q);
            get(e, [&] { return list(q == -1 && r.chance(50) ? g.stereo_landmarks() : g.stereo_landmarks(q), [](const auto& x) { return "[" + std::to_string(x.first) + "," + jv(x.second) + "]"; }); });
            break;
        }
        case 17: getk("cam", k, [&](int i) { return jv(g.stereo_camera(i).pose()); }, [&](const std::string& n, int o) { return jv(g.stereo_camera(n, o).pose()); }); break;
        case 18: {
            const std::string n = g_names.empty() || r.chance(10) ? "nobody" : r.pick(g_names);
            const int o = r.range(-2, 3);
            { Ev e("get"); e.t("what", "key").t("name", n).i("off", o); get(e, [&] { return std::to_string(g.key(n, o)); }); }
            { Ev e("get"); e.t("what", "prio").t("name", n); get(e, [&] { return std::to_string(g.priority(n)); }); }
            const int p = r.range(0, 3);
            { Ev e("get"); e.t("what", "minkey").i("p", p); get(e, [&] { return std::to_string(p == 3 ? g.minimum_key() : g.minimum_key(p)); }); }
            break;
        }
        default: {  // marginal covariances come from the optimiser
            if (!g_opt) break;
            const char kind = r.pick(std::vector<char>{'X', 'V', 'B', 'P'});
            const gtsam::Key key = gtsam::Symbol(std::tolower(kind), kk);
            if (!g_opt->valueExists(key)) break;
            std::string want;
            if (threw([&] { want = jm(g_opt->marginalCovariance(key)); })) break;
            Ev e("get"); e.t("what", "cov").raw("want", want);
            get(e, [&]() -> std::string {
                if (r.chance(30)) return jm(g.covariance(key));
                switch (kind) { case 'X': return jm(g.pose_covariance(kk)); case 'V': return jm(g.velocity_covariance(kk)); case 'B': return jm(g.imu_bias_covariance(kk)); default: return jm(g.barometer_bias_variance(kk)); }
            });
        }
    }
}
static void names(Ctx& c, Rng& r) {
    auto& g = *c.gm;
    if (g_names.empty() || r.chance(25)) {
        const std::string n = r.pick(std::vector<std::string>{"imu", "reg", "stereo", "barometer"});
        const int k = r.range(-1, 3), p = r.range(0, 2);
        const int form = r.range(0, 2);
        if (form == 0) g.set_named_key(n); else if (form == 1) g.set_named_key(n, k); else g.set_named_key(n, k, p);
        if (!g_namekey.count(n)) g_names.push_back(n);
        g_namekey[n] = form ? k : 0;
        Ev("named").t("name", n).i("k", form ? k : 0).i("p", form == 2 ? p : 0).emit();
    } else {
        const std::string n = r.chance(5) ? "nobody" : r.pick(g_names);
        const bool x = threw([&] { g.increment(n); });
        if (!x) ++g_namekey[n];
        Ev("inc").t("name", n).b("exc", x).emit();
    }
}
static bool optimise(Ctx& c, int k) {
    g_updates.clear(); g_removed.clear(); g_libexc = false;
    note("optimise");
    std::string what;
    bool x = false;
    try { c.gm->optimise(k); } catch (const std::exception& e) { x = true; what = e.what(); }
    Ev("optimise").i("k", k).b("exc", x).b("lib", g_libexc).t("why", what.substr(0, 200)).raw("updates", list(g_updates, [](const std::string& s) { return s; })).raw("est", g_est)
        .raw("removed", list(g_removed, [](const std::string& s) { return s; })).i("opt", c.gm->opt_key()).i("marg", c.gm->marginalisation_key()).emit();
    return x;
}
static void marginalise(Ctx& c, int k) {
    g_removed.clear();
    note("marginalise");
    const bool x = threw([&] { c.gm->marginalise(k); });
    Ev("marginalise").i("k", k).b("exc", x).raw("removed", list(g_removed, [](const std::string& s) { return s; })).i("opt", c.gm->opt_key()).i("marg", c.gm->marginalisation_key()).emit();
}
// arbitrary store calls, no optimiser
static void store(Rng& r) {
    g_names.clear(); g_namekey.clear();
    Ctx c = make(r);
    const int states = r.range(1, 4);
    std::set<int> live, seen; int lastframe = -1;
    for (int n = r.range(5, 40); n; --n) switch (r.range(0, 11)) {
        case 0: case 1: case 2: set_value(c, r, r.pick(std::vector<char>{'X', 'X', 'V', 'B', 'P', 'N', 'T', 'T'}), r.chance(3) ? r.range(9, 12) : r.range(0, states), false); break;
        case 3: case 4: { const std::string k = r.pick(std::vector<std::string>{"priorX", "priorV", "priorB", "priorP", "between", "bbias", "imu", "baro"});
                  factor(c, r, k, r.range(k[0] == 'p' || k == "baro" ? 0 : 1, states), false); break; }
        case 5: {
            const int k = lastframe < 0 || r.chance(85) ? lastframe + r.range(1, 2) : r.range(0, lastframe);
            if (k < lastframe) break;   // frames arrive in order (a repeated one is refused)
            std::vector<int> ids; std::set<int> now;
            for (int id = 1; id <= 9; ++id) if (r.chance(40) && (!seen.count(id) || live.count(id))) { ids.push_back(id); now.insert(id); }
            if (!c.gm->has_pose(k) && r.chance(80)) set_value(c, r, 'X', k, false);
            const bool x = frame(c, r, k, ids);
            if (x && k != lastframe) return;     // refused for want of a pose: nothing is promised about what follows
            if (!x) { lastframe = k; live = now; seen.insert(now.begin(), now.end()); }
            break;
        }
        case 6: names(c, r); break;
        case 7: {
            gtsam::Values v; std::string j;
            const bool extra = r.chance(10);
            for (const auto& kv : c.gm->values()) if (r.chance(30)) {
                gtsam::Symbol s(kv.key);
                if (s.chr() == 'x') v.insert(kv.key, rpose(r)); else if (s.chr() == 'v') v.insert<gtsam::Velocity3>(kv.key, rand_vec(r, 5)); else if (s.chr() == 'b') v.insert(kv.key, rbias(r)); else if (s.chr() == 'p') v.insert(kv.key, r.real(-5, 5)); else v.insert<gtsam::Point3>(kv.key, rand_vec(r, 5));
            }
            if (extra) v.insert(X(77), rpose(r));
            const bool x = threw([&] { c.gm->update_from_values(v); });
            Ev("upd").raw("v", jvals(v)).b("exc", x).emit();
            if (x) return;    // part of it may have been taken over
            break;
        }
        case 8: if (r.chance(30)) marginalise(c, r.range(-1, 2)); break;   // nothing was optimised: only -1 is allowed
        default: read(c, r);
    }
    dump(c);
}
static void play(const std::vector<scen::Op>& ops, Rng& r0) {
    g_names.clear(); g_namekey.clear();
    Ctx c = make(r0);
    for (const auto& o : ops) {
        const std::string op = o.str("op");
        Rng r(o.i("s") + 17);
        if (op == "state") {
            const int k = o.i("k");
            if (r.chance(50)) set_value(c, r, 'N', k, true); else { set_value(c, r, 'X', k, true); set_value(c, r, 'V', k, true); }
            set_value(c, r, 'B', k, true);
            if (r.chance(70)) set_value(c, r, 'T', k, true);
            for (auto f : {"priorX", "priorV", "priorB"}) factor(c, r, f, k, true);
            if (o.b("between")) factor(c, r, "between", k, true);
            if (o.b("imu")) factor(c, r, "imu", k, true);
        } else if (op == "baro") {
            const int k = o.i("k");
            set_value(c, r, 'P', k, true);
            if (o.b("meas")) factor(c, r, "baro", k, true);
            factor(c, r, k ? "bbias" : "priorP", k, true);
        } else if (op == "frame") frame(c, r, o.i("k"), o.list("ids"));
        else if (op == "optimise") { if (optimise(c, o.i("k"))) return; }
        else if (op == "marginalise") marginalise(c, o.i("k"));
        else if (op == "window") { const int w = o.i("w"); c.gm->set_marginalisation(w >= 0, w < 0 ? 3 : w); Ev("window").i("w", w < 0 ? -1 : w).emit(); }
        else if (op == "change") set_value(c, r, o.str("kind")[0], o.i("k"), true);
        else if (op == "read") { for (int n = r.range(1, 4); n; --n) read(c, r); if (r.chance(30)) dump(c); }
    }
    for (int n = 0; n < 6; ++n) read(c, r0);
    dump(c);
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 29);
    if (argc > 6) { for (const auto& s : scen::load(argv[6])) play(s, r); return finish(); }
    for (int n = 0; n < a.count; ++n) store(r);
    return finish();
}
