// P28 / P29 / P30: stereo matcher, cost functions, match filters and stereo equations.
#include "vh.hpp"
#include <opencv2/core.hpp>
#include "serpent/front_end/stereo/match_filters.hpp"
#include "serpent/front_end/stereo/stereo_cost_functions.hpp"
#include "serpent/front_end/stereo/stereo_equations.hpp"
#include "serpent/front_end/stereo/stereo_keypoint_matcher.hpp"
#include "serpent/front_end/stereo/window_functions.hpp"
using namespace vh;
using serpent::StereoKeyPointMatcher;
using MF = StereoKeyPointMatcher::MatchingFilter;
static const std::vector<std::string> KINDS{"SAD", "SSD", "ZSAD", "LSSAD", "NCC"};

// Overwrites the stack below the caller, so that reading an uninitialised local variable shows.
static void __attribute__((noinline)) dirty() {
    volatile unsigned char junk[4096];
    for (int i = 0; i < 4096; ++i) junk[i] = 0xA7;
}

struct Pair { cv::Mat L, R; cv::Mat storeL, storeR; };
static cv::Mat view(Rng& r, int rows, int cols, cv::Mat& store) {  // sometimes a sub-image (row step > columns)
    if (r.chance(60)) { store = cv::Mat(rows, cols, CV_8U); return store; }
    store = cv::Mat(rows + 3, cols + 5, CV_8U, cv::Scalar(77));
    return store(cv::Rect(r.range(0, 5), r.range(0, 3), cols, rows));
}
static Pair images(Rng& r, int rows, int cols, bool nonzero) {
    Pair p;
    p.L = view(r, rows, cols, p.storeL);
    p.R = view(r, rows, cols, p.storeR);
    const int lo = nonzero ? 1 : 0, style = r.range(0, 4), shift = r.range(0, 4);
    for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) {
        int v = r.range(lo, 255), w = r.range(lo, 255);
        if (style == 1) { v = r.range(lo, lo + 3); w = r.range(lo, lo + 3); }            // little texture: many ties
        if (style == 2) { v = r.range(200, 255); w = r.range(lo, lo + 20); }             // brightness offset
        p.L.at<unsigned char>(y, x) = static_cast<unsigned char>(v);
        p.R.at<unsigned char>(y, x) = static_cast<unsigned char>(w);
    }
    if (style >= 3) for (int y = 0; y < rows; ++y) for (int x = 0; x + shift < cols; ++x) {  // R is L shifted, with noise
        int v = p.L.at<unsigned char>(y, x + shift);
        if (style == 4) v = std::min(255, std::max(lo, v + r.range(-6, 6)));
        p.R.at<unsigned char>(y, x) = static_cast<unsigned char>(v);
    }
    auto J = [](const cv::Mat& m) {
        std::string s = "[";
        for (int y = 0; y < m.rows; ++y) { s += y ? ",[" : "["; for (int x = 0; x < m.cols; ++x) { if (x) s += ","; s += std::to_string(m.at<unsigned char>(y, x)); } s += "]"; }
        return s + "]";
    };
    Ev("images").raw("L", J(p.L)).raw("R", J(p.R)).emit();
    return p;
}

static double cost(const std::string& k, const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) {
    using namespace serpent;
    if (k == "SAD") return sum_of_absolute_differences(a, b, p, q, w);
    if (k == "SSD") return sum_of_squared_differences(a, b, p, q, w);
    if (k == "ZSAD") return zero_mean_sum_of_absolute_differences(a, b, p, q, w);
    if (k == "LSSAD") return locally_scaled_sum_of_absolute_differences(a, b, p, q, w);
    return negative_normalised_cross_correlation(a, b, p, q, w);
}
static double cost2(const std::string& k, const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) {
    using namespace serpent;
    double s = 0, s2 = 0;
    for (int y = 0; y < w.height; ++y) for (int x = 0; x < w.width; ++x) { const double v = a.at<unsigned char>(p.y + y, p.x + x); s += v; s2 += v * v; }
    if (k == "ZSAD") return zero_mean_sum_of_absolute_differences(a, b, p, q, w, s / (w.width * w.height));
    if (k == "LSSAD") return locally_scaled_sum_of_absolute_differences(a, b, p, q, w, s / (w.width * w.height));
    if (k == "NCC") return negative_normalised_cross_correlation(a, b, p, q, w, s2);
    return cost(k, a, b, p, q, w);
}

static void costs(Rng& r) {
    const bool big = r.chance(4);
    const int rows = big ? 34 : r.range(3, 10), cols = big ? 36 : r.range(3, 14);
    const Pair im = images(r, rows, cols, true);
    const int n = big ? 4 : 14;
    for (int k = 0; k < n; ++k) {
        const int w = big ? r.range(20, 33) : r.range(1, std::min(cols, 7)), h = big ? r.range(20, 33) : r.range(1, std::min(rows, 7));
        if (r.chance(50)) {
            const bool left = r.chance(50);
            const cv::Mat& m = left ? im.L : im.R;
            cv::Point2i tl(r.range(-2, cols - w + 2), r.range(-2, rows - h + 2));
            if (r.chance(60)) tl = {r.range(0, cols - w), r.range(0, rows - h)};
            const cv::Size s(w, h);
            const bool in = tl.x >= 0 && tl.y >= 0 && tl.x + w <= cols && tl.y + h <= rows;
            note("window functions");
            dirty();
            const bool inside = serpent::window_within_image(m, tl, s);
            double a = 0, b = 0, c = 0;
            if (in) {
                dirty(); a = serpent::window_sum(m, tl, s);
                dirty(); b = serpent::window_mean(m, tl, s);
                dirty(); c = serpent::window_sum_squares(m, tl, s);
            }
            Ev("winstat").b("left", left).i("x", tl.x).i("y", tl.y).i("w", w).i("h", h).b("inside", inside).d("sum", a).d("mean", b).d("sumsq", c).emit();
        } else {
            const std::string kind = r.pick(KINDS);
            const cv::Point2i p(r.range(0, cols - w), r.range(0, rows - h)), q(r.range(0, cols - w), r.range(0, rows - h));
            dirty();
            const double a = cost(kind, im.L, im.R, p, q, {w, h});
            dirty();
            const double b = cost2(kind, im.L, im.R, p, q, {w, h});
            Ev("cost").t("kind", kind).i("x1", p.x).i("y1", p.y).i("x2", q.x).i("y2", q.y).i("w", w).i("h", h).d("out", a).d("out2", b).emit();
        }
    }
    if (r.chance(30)) {
        const std::string kind = r.pick(KINDS);
        const int type = r.pick(std::vector<int>{CV_16U, CV_32F, CV_8UC3, CV_8S, CV_64F});
        const cv::Mat bad(rows, cols, type, cv::Scalar::all(1));
        const bool first = r.chance(50);
        const bool pre = r.chance(50);
        const bool exc = threw([&] {
            if (pre) cost2(kind, first ? bad : im.L, first ? im.R : bad, {0, 0}, {0, 0}, {1, 1});
            else cost(kind, first ? bad : im.L, first ? im.R : bad, {0, 0}, {0, 0}, {1, 1});
        });
        Ev("badtype").t("kind", kind).b("first", first).b("exc", exc).emit();
    }
}

static cv::Ptr<StereoKeyPointMatcher> make(const std::string& kind, const cv::Size& w, float v, MF f, double ratio, bool via_create) {
    using namespace serpent;
    if (via_create) {
        if (kind == "SAD") return SADStereoKeyPointMatcher::create(w, v, f, ratio);
        if (kind == "SSD") return SSDStereoKeyPointMatcher::create(w, v, f, ratio);
        if (kind == "ZSAD") return ZeroMeanSADStereoKeyPointMatcher::create(w, v, f, ratio);
        if (kind == "LSSAD") return LocallyScaledSADStereoKeyPointMatcher::create(w, v, f, ratio);
        return NCCStereoKeyPointMatcher::create(w, v, f, ratio);
    }
    if (kind == "SAD") return cv::makePtr<SADStereoKeyPointMatcher>(w, v, f, ratio);
    if (kind == "SSD") return cv::makePtr<SSDStereoKeyPointMatcher>(w, v, f, ratio);
    if (kind == "ZSAD") return cv::makePtr<ZeroMeanSADStereoKeyPointMatcher>(w, v, f, ratio);
    if (kind == "LSSAD") return cv::makePtr<LocallyScaledSADStereoKeyPointMatcher>(w, v, f, ratio);
    return cv::makePtr<NCCStereoKeyPointMatcher>(w, v, f, ratio);
}
using KPs = std::vector<cv::KeyPoint>;
static cv::KeyPoint kp(int x4, int y4) { return cv::KeyPoint(x4 / 4.f, y4 / 4.f, 3.f); }
static std::string kpj(const std::vector<std::pair<int, int>>& v) {
    return list(v, [](const std::pair<int, int>& p) { return "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; });
}

static void matching(Rng& r) {
    const int rows = r.range(5, 9), cols = r.range(6, 14);
    Pair im = images(r, rows, cols, true);
    const std::vector<std::string> FN{"UNIDIRECTIONAL", "BIDIRECTIONAL", "RATIO_TEST"};
    for (int k = 0; k < 4; ++k) {
        const int fi = r.range(0, 2);
        std::string kind = r.pick(KINDS);
        if (fi == 2 && kind == "NCC") kind = "SAD";  // a ratio of negative costs has no meaning
        cv::Size w(r.pick(std::vector<int>{1, 3, 3, 5}), r.pick(std::vector<int>{1, 3, 3, 5}));
        int rn = r.range(1, 9), rd = 10, v4 = r.pick(std::vector<int>{0, 1, 2, 4, 6, 8});
        const int bad = r.range(0, 19);
        if (bad == 0) w.width = r.pick(std::vector<int>{2, 0, -1, 4});
        if (bad == 1) w.height = r.pick(std::vector<int>{2, 0, -1, 6});
        if (bad == 2) rn = r.pick(std::vector<int>{0, -3, 10, 12});
        MF f = MF::UNIDIRECTIONAL;
        const bool fexc = threw([&] { f = serpent::to_matching_filter(FN[fi]); });
        Ev("tofilter").t("name", FN[fi]).b("exc", fexc).emit();
        if (r.chance(10)) {
            const std::string nm = r.pick(std::vector<std::string>{"", "unidirectional", "RATIO", "BOTH"});
            Ev("tofilter").t("name", nm).b("exc", threw([&] { serpent::to_matching_filter(nm); })).emit();
        }
        cv::Ptr<StereoKeyPointMatcher> m;
        const bool viac = r.chance(50);
        const bool exc = threw([&] { m = make(kind, w, v4 / 4.f, f, rn / static_cast<double>(rd), viac); });
        Ev("config").raw("c", "{\"kind\":" + str(kind) + ",\"w\":" + std::to_string(w.width) + ",\"h\":" + std::to_string(w.height) + ",\"filter\":" + str(FN[fi]) +
                ",\"rn\":" + std::to_string(rn) + ",\"rd\":" + std::to_string(rd) + ",\"v4\":" + std::to_string(v4) + "}").b("exc", exc).emit();
        if (exc) continue;
        auto coord = [&](int n) { return r.chance(85) ? r.range(0, n * 4 - 1) : r.range(-6, n * 4 + 6); };
        if (r.chance(15)) {
            const cv::Mat other(rows + 1, cols, CV_8U, cv::Scalar(9));
            double c; bool b;
            const int which = r.range(0, 1);
            const bool e = threw([&] { if (which) m->keypoint_in_other_image(kp(12, 12), im.L, other, true, c, b); else m->keypoint_index_in_other_image(kp(12, 12), {kp(12, 12)}, im.L, other, true, c); });
            Ev("badsize").i("which", which).b("exc", e).emit();
        }
        for (int q = 0; q < 3; ++q) {
            const bool right = r.chance(50);
            const int x4 = coord(cols), y4 = coord(rows);
            double c = -12345.0;
            bool matched = r.chance(50);
            note("dense search");
            dirty();
            const cv::KeyPoint o = m->keypoint_in_other_image(kp(x4, y4), im.L, im.R, right, c, matched);
            Ev("search").raw("p", "[" + std::to_string(x4) + "," + std::to_string(y4) + "]").b("right", right).b("matched", matched).d("cost", c)
                    .i("x2", std::lround(o.pt.x * 2)).i("y2", std::lround(o.pt.y * 2)).emit();
        }
        auto points = [&](int n) {
            std::vector<std::pair<int, int>> v;
            const int row = r.range(0, rows - 1) * 4;
            for (int i = 0; i < n; ++i) v.emplace_back(coord(cols), r.chance(70) ? row + r.range(-3, 5) : coord(rows));
            return v;
        };
        auto K = [&](const std::vector<std::pair<int, int>>& v) { KPs o; for (auto& p : v) o.push_back(kp(p.first, p.second)); return o; };
        for (int q = 0; q < 2; ++q) {
            const bool right = r.chance(50);
            const auto Q = points(r.range(0, 6));
            std::pair<int, int> p{coord(cols), coord(rows)};
            if (!Q.empty() && r.chance(60)) p.second = r.pick(Q).second + r.range(-4, 4);
            double c = -12345.0;
            note("sparse search");
            dirty();
            const int i = m->keypoint_index_in_other_image(kp(p.first, p.second), K(Q), im.L, im.R, right, c);
            Ev("index").raw("p", "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]").raw("Q", kpj(Q)).b("right", right).i("i", i).d("cost", c).emit();
        }
        {
            const bool right = r.chance(50);
            const auto P = points(r.range(0, 5)), Q = points(r.range(0, 5));
            std::vector<double> c(r.range(0, 3), -1.0);
            note("sparse matching");
            dirty();
            // the argument order of the call is left key points, right key points
            const std::vector<int> idx = m->keypoint_indices_in_other_image(K(right ? P : Q), K(right ? Q : P), im.L, im.R, right, c);
            for (std::size_t i = 0; i < c.size(); ++i) if (i < idx.size() && idx[i] < 0) c[i] = 0.0;
            Ev("indices").raw("P", kpj(P)).raw("Q", kpj(Q)).b("right", right).raw("idx", ints(idx)).raw("cost", nums(c)).emit();
        }
        if (r.chance(50)) {
            const bool right = r.chance(50);
            const auto P = points(r.range(0, 3));
            std::vector<double> c(r.range(0, 2), -1.0);
            std::vector<bool> mt(r.range(0, 2), r.chance(50));
            note("dense matching");
            dirty();
            const KPs o = m->keypoints_in_other_image(K(P), im.L, im.R, right, c, mt);
            std::vector<int> x2, y2;
            for (auto& q : o) { x2.push_back(std::lround(q.pt.x * 2)); y2.push_back(std::lround(q.pt.y * 2)); }
            Ev("searches").raw("P", kpj(P)).b("right", right).raw("matched", list(mt, [](bool b) { return std::string(b ? "true" : "false"); }))
                    .raw("cost", nums(c)).raw("x2", ints(x2)).raw("y2", ints(y2)).emit();
        }
    }
}

static std::string matchj(const std::vector<cv::DMatch>& m) {
    return list(m, [](const cv::DMatch& d) { return "[" + std::to_string(d.queryIdx) + "," + std::to_string(d.trainIdx) + "," + num(d.distance) + "]"; });
}
static std::string ptsj(const KPs& v) { return list(v, [](const cv::KeyPoint& k) { return "[" + num(k.pt.x) + "," + num(k.pt.y) + "]"; }); }
static std::string idxj(const std::vector<std::size_t>& v) { return list(v, [](std::size_t i) { return std::to_string(i); }); }

static void filters(Rng& r) {
    using namespace serpent;
    const int kind = r.range(0, 2);
    auto q4 = [&](int lo, int hi) { return r.range(lo * 4, hi * 4) / 4.f; };
    cv::Ptr<DistanceMatchFilter> df;
    cv::Ptr<StereoMatchFilter> sf;
    cv::Ptr<StereoDistanceFilter> rf;
    float thr = r.pick(std::vector<float>{0.f, 0.25f, 0.5f, 1.f, 2.f, 3.75f}), fx = r.pick(std::vector<float>{100.f, 64.f, 256.f, 0.f}), b = r.pick(std::vector<float>{0.25f, 0.5f, 0.125f, 0.f});
    float mx = r.pick(std::vector<float>{12.5f, 6.25f, 4.013f, 32.f, 3.4e38f}), mn = r.pick(std::vector<float>{0.f, 1.5625f, 2.f, 0.7131f});
    const bool viac = r.chance(50), defaults = r.chance(20);
    dirty();
    if (kind == 0) { if (defaults) thr = std::numeric_limits<float>::max();
        df = defaults ? (viac ? DistanceMatchFilter::create() : cv::makePtr<DistanceMatchFilter>()) : (viac ? DistanceMatchFilter::create(thr) : cv::makePtr<DistanceMatchFilter>(thr));
        Ev("newfilter").raw("s", "{\"kind\":\"distance\",\"thr\":" + num(thr) + "}").emit(); }
    if (kind == 1) { if (defaults) thr = 1.f;
        sf = defaults ? (viac ? StereoMatchFilter::create() : cv::makePtr<StereoMatchFilter>()) : (viac ? StereoMatchFilter::create(thr) : cv::makePtr<StereoMatchFilter>(thr));
        Ev("newfilter").raw("s", "{\"kind\":\"stereo\",\"thr\":" + num(thr) + "}").emit(); }
    if (kind == 2) { if (defaults) { mx = std::numeric_limits<float>::max(); mn = 0.f; }
        rf = defaults ? (viac ? StereoDistanceFilter::create(fx, b) : cv::makePtr<StereoDistanceFilter>(fx, b)) : (viac ? StereoDistanceFilter::create(fx, b, mx, mn) : cv::makePtr<StereoDistanceFilter>(fx, b, mx, mn));
        Ev("newfilter").raw("s", "{\"kind\":\"range\",\"fx\":" + num(fx) + ",\"b\":" + num(b) + ",\"max\":" + num(mx) + ",\"min\":" + num(mn) + "}").emit(); }
    const int n = r.range(2, 5);
    for (int s = 0; s < n; ++s) {
        if (r.chance(40) && kind == 1) {
            const float v = r.pick(std::vector<float>{0.f, 0.5f, 1.5f, 2.25f});
            sf->set_vertical_pixel_threshold(v);
            Ev("setfilter").t("field", "thr").d("value", v).d("readback", sf->vertical_pixel_threshold()).emit();
        }
        if (r.chance(40) && kind == 2) {
            if (r.chance(50)) { const float v = r.pick(std::vector<float>{0.25f, 0.5f, 1.f, 0.f}); rf->set_baseline(v); Ev("setfilter").t("field", "b").d("value", v).emit(); }
            else { const float v = r.pick(std::vector<float>{50.f, 128.f, 200.f, 0.f}); rf->set_fx(v); Ev("setfilter").t("field", "fx").d("value", v).emit(); }
        }
        KPs P, Q;
        const int np = r.range(1, 6), nq = r.range(1, 6);
        for (int i = 0; i < np; ++i) P.push_back(cv::KeyPoint(q4(0, 60), q4(0, 8), 1.f));
        for (int i = 0; i < nq; ++i) Q.push_back(cv::KeyPoint(q4(0, 60), q4(0, 8), 1.f));
        for (int i = 0; i < nq; ++i) if (r.chance(50)) { const auto& p = r.pick(P); Q[i].pt = {p.pt.x - r.pick(std::vector<float>{0.f, 1.f, 2.f, 4.f, 8.f, 16.f, -1.f}), p.pt.y + r.pick(std::vector<float>{0.f, 0.25f, 1.f, -1.f, -0.5f, 2.f, -2.f})}; }
        std::vector<cv::DMatch> M;
        const int nm = r.range(0, 8);
        for (int i = 0; i < nm; ++i) M.emplace_back(r.range(0, np - 1), r.range(0, nq - 1), r.pick(std::vector<float>{0.f, 0.25f, 0.5f, 1.f, 2.f, 3.75f, 4.f, 1.75f, 10.f}));
        std::vector<cv::DMatch> out;
        std::vector<std::size_t> idx;
        note("filter");
        if (kind == 0) { if (r.chance(60)) { out = df->filter(M); idx = df->indices(); } else { idx = {7, 7}; out = DistanceMatchFilter::filter(M, thr, idx); } }
        if (kind == 1) { if (r.chance(70)) { out = sf->filter(P, Q, M); idx = sf->indices(); } else { idx = {7, 7}; out = StereoMatchFilter::filter(P, Q, M, sf->vertical_pixel_threshold(), idx); } }
        if (kind == 2) { out = rf->filter(P, Q, M); idx = rf->indices(); }
        Ev("filter").raw("P", ptsj(P)).raw("Q", ptsj(Q)).raw("M", matchj(M)).raw("out", matchj(out)).raw("idx", idxj(idx)).emit();
    }
}

template<class S>
static void equations(Rng& r) {
    const char* tol = std::is_same<S, float>::value ? "1e-4" : "1e-9";
    Eigen::Matrix<S, 3, 3> K = Eigen::Matrix<S, 3, 3>::Identity();
    K(0, 0) = static_cast<S>(r.real(100, 900)); K(1, 1) = static_cast<S>(r.real(100, 900)); K(0, 2) = static_cast<S>(r.real(100, 700)); K(1, 2) = static_cast<S>(r.real(100, 500));
    const S b = static_cast<S>(r.real(0.05, 0.6));
    const std::string KJ = "[" + num(K(0, 0)) + "," + num(K(1, 1)) + "," + num(K(0, 2)) + "," + num(K(1, 2)) + "]";
    // the coordinates are embedded in a larger array with junk around them
    S junk[5] = {static_cast<S>(-7), 0, 0, 0, static_cast<S>(r.pick(std::vector<double>{-5.0, 3.0, 0.0}))};
    Eigen::Map<Eigen::Matrix<S, 3, 1>> p(junk + 1);
    p = Eigen::Matrix<S, 3, 1>(static_cast<S>(r.real(-5, 5)), static_cast<S>(r.real(-5, 5)), static_cast<S>(r.chance(20) ? r.pick(std::vector<double>{0.0, -1.0, -0.01}) : r.real(0.5, 40)));
    Eigen::Matrix<S, 3, 1> s = Eigen::Matrix<S, 3, 1>::Zero(), pp = p;
    dirty();
    const bool exc = threw([&] { s = serpent::stereo_project<S>(pp, K, b); });
    Ev("project").raw("K", KJ).d("b", b).v("p", pp).b("exc", exc).v("out", s).t("tol", tol).emit();
    if (!exc && r.chance(50)) {
        Eigen::Matrix<S, 3, 1> q = Eigen::Matrix<S, 3, 1>::Zero();
        const bool e2 = threw([&] { q = serpent::stereo_backproject<S>(s, K, b); });
        if (!e2 && std::is_same<S, double>::value) Ev("roundtrip").v("p", pp).v("out", q).emit();
    }
    Eigen::Matrix<S, 3, 1> c(static_cast<S>(r.range(0, 600)), 0, static_cast<S>(r.range(0, 400))), o = Eigen::Matrix<S, 3, 1>::Zero();
    c[1] = c[0] - static_cast<S>(r.chance(15) ? 0 : r.chance(15) ? r.range(-40, -1) : r.range(1, 60));
    const bool e3 = threw([&] { o = serpent::stereo_backproject<S>(c, K, b); });
    Ev("backproject").raw("K", KJ).d("b", b).v("s", c).b("exc", e3).v("out", o).t("tol", tol).emit();
}

int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000 + a.part);
    for (int k = 0; k < a.count; ++k) {
        if (a.group == "P28") matching(r);
        else if (a.group == "P29") costs(r);
        else if (r.chance(60)) filters(r);
        else if (r.chance(60)) equations<double>(r);
        else equations<float>(r);
    }
    return finish();
}
