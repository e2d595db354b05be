// P27: the stereo feature tracker with parts whose outcomes are scripted. P34: the stereo node and the parts it makes.
#include "node.hpp"
#include "scen.hpp"
#include <array>
#include <cv_bridge/cv_bridge.h>
#include <new>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <set>
#include <serpent/front_end/stereo/stereo_factor_finder.hpp>
#include <serpent/front_end/stereo/stereo_feature_tracker.hpp>
using namespace vh;
using serpent::StereoFeatureTracker;
using serpent::StereoKeyPointMatcher;

// ---- the world the parts see: what is found in each image, where each point goes. Positions in quarter pixels.
struct Ext { int x, y, c; };
struct World {
    int frame = 0;                                                   // images carry frame and side in their first pixels
    std::array<std::vector<Ext>, 2> ext;
    std::array<std::map<std::pair<int, int>, std::array<int, 3>>, 2> flow;
    std::map<int, std::array<int, 3>> pair;                          // left name -> right name (0: none), cost, cost also when there is none
    bool odd = false;                                                // a part was used in a way it does not support
};
static World W;
static int q4(float v) { return static_cast<int>(std::lround(v * 4)); }
static cv::KeyPoint kp(const Ext& e) { return cv::KeyPoint(e.x / 4.f, e.y / 4.f, e.c + 0.5f, e.c % 360, e.c * 0.25f, e.c % 7, e.c); }
static bool whole(const cv::KeyPoint& k) { const Ext e{0, 0, k.class_id}; const cv::KeyPoint w = kp(e); return k.size == w.size && k.angle == w.angle && k.response == w.response && k.octave == w.octave; }
static int mark_frame(const cv::Mat& m) { return m.at<unsigned char>(0, 0) + 256 * m.at<unsigned char>(0, 1); }
static int mark_side(const cv::Mat& m) { return m.at<unsigned char>(0, 2); }
static cv::Mat picture(Rng& r, int rows, int cols, int frame, int side) {
    cv::Mat m(rows, cols, CV_8U);
    for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) m.at<unsigned char>(y, x) = static_cast<unsigned char>(r.range(0, 255));
    m.at<unsigned char>(0, 0) = frame % 256; m.at<unsigned char>(0, 1) = frame / 256; m.at<unsigned char>(0, 2) = side;
    return m;
}
static void detect_in(cv::InputArray image, std::vector<cv::KeyPoint>& out, cv::InputArray mask) {
    const cv::Mat im = image.getMat();
    out.clear();
    const int s = mark_side(im);
    if (mark_frame(im) != W.frame || s > 1) { W.odd = true; return; }
    for (const Ext& e : W.ext[s]) out.push_back(kp(e));
    if (!mask.empty()) {
        if (mask.size() != image.size() || mask.type() != CV_8UC1) { W.odd = true; return; }
        cv::KeyPointsFilter::runByPixelsMask(out, mask.getMat());
    }
}
static void flow_in(cv::InputArray prev, cv::InputArray next, cv::InputArray from, cv::InputOutputArray to, cv::OutputArray status, cv::OutputArray err) {
    const cv::Mat a = prev.getMat(), b = next.getMat(), p = from.getMat();
    const int n = int(p.total()), s = mark_side(b) & 1;
    if (p.type() != CV_32FC2 || n < 1) { W.odd = true; return; }
    const bool right = mark_frame(b) == W.frame && mark_frame(a) == W.frame - 1 && mark_side(a) == mark_side(b) && a.size() == b.size();
    cv::Mat t(n, 1, CV_32FC2), st(n, 1, CV_8U), er(n, 1, CV_32F, cv::Scalar(0));
    for (int i = 0; i < n; ++i) {
        const cv::Point2f f = p.at<cv::Point2f>(i);
        const auto k = W.flow[s].find({q4(f.x), q4(f.y)});
        // a point nobody tracked, or the wrong images: flow finds something, somewhere
        if (!right || k == W.flow[s].end()) { st.at<unsigned char>(i) = 1; t.at<cv::Point2f>(i) = f + cv::Point2f(31.25f, 17.5f); continue; }
        st.at<unsigned char>(i) = static_cast<unsigned char>(k->second[0]);
        t.at<cv::Point2f>(i) = cv::Point2f(k->second[1] / 4.f, k->second[2] / 4.f);
    }
    t.copyTo(to); st.copyTo(status); if (err.needed()) er.copyTo(err);
}
#define DETECTS void detect(cv::InputArray i, std::vector<cv::KeyPoint>& k, cv::InputArray m = cv::noArray()) override { detect_in(i, k, m); }
#define FLOWS void calc(cv::InputArray a, cv::InputArray b, cv::InputArray f, cv::InputOutputArray t, cv::OutputArray s, cv::OutputArray e = cv::noArray()) override { flow_in(a, b, f, t, s, e); }
struct Detector : cv::Feature2D { DETECTS };
struct OpticalFlow : cv::SparseOpticalFlow { FLOWS };
struct Matcher : StereoKeyPointMatcher {
    Matcher() : StereoKeyPointMatcher(cv::Size(3, 3)) {}
    int keypoint_index_in_other_image(const cv::KeyPoint& k, const std::vector<cv::KeyPoint>& others, const cv::Mat& l, const cv::Mat& r, const bool in_right, double& cost) const override {
        if (!in_right || mark_side(l) != 0 || mark_side(r) != 1 || mark_frame(l) != W.frame || mark_frame(r) != W.frame || l.size() != r.size()) W.odd = true;
        const auto p = W.pair.find(k.class_id);
        if (p == W.pair.end()) { W.odd = true; cost = 0; return -1; }
        for (std::size_t i = 0; i < others.size(); ++i) if (others[i].class_id == p->second[0]) { cost = p->second[1]; return int(i); }
        cost = p->second[2] ? p->second[1] : std::numeric_limits<double>::max();
        return -1;
    }
    serpent::MatchingCostFunction generate_cost_function(const cv::Mat&, const cv::Point2i&) const override { return &serpent::sum_of_absolute_differences; }
};

// ---- what a frame brings, from the numbers of the scenario
struct Cfg { int near = 8, v = 4; bool dist = false; int k = 0, dmin = 0, dmax = 0, limit = 10; cv::Rect2i roi; int rows = 0, cols = 0; bool real = false; };
struct Seen { int id, lx, ly, rx, ry; };      // what the tracker reported last
static int names = 0;
static std::pair<int, int> disparity(const Cfg& c) {      // an allowed range of disparities
    if (!c.dist) return {1, 60};
    int lo = c.k / (2 * c.dmax) + 1, hi = c.k / (2 * c.dmin);
    return {std::max(1, lo), std::max(std::max(1, lo), std::min(hi, 90))};
}
static void prepare(const Cfg& c, const scen::Op& o, const std::vector<Seen>& last, Rng& r) {
    W.ext = {}; W.flow = {}; W.pair.clear(); W.odd = false;
    const int Wd = c.cols * 4, H = c.rows * 4, g = c.real ? 4 : 1;
    const auto D = disparity(c);
    auto X = [&] { return r.range(40 / g, (Wd - 24) / g) * g; };
    auto Y = [&] { return r.range(16 / g, (H - 16) / g) * g; };
    auto clampx = [&](int x) { return std::min(std::max(x, 0), Wd - 4); };
    auto clampy = [&](int y) { return std::min(std::max(y, 0), H - 4); };
    const auto old = o.list("old"), nw = o.list("new");
    std::vector<std::array<int, 2>> tl, tr;       // where the tracked features are now
    for (std::size_t i = 0; i < last.size(); ++i) {
        const auto& t = last[i];
        const int code = old.empty() ? 0 : old[i % old.size()];
        int lx = clampx(t.lx + r.range(-12, 12)), ly = clampy(t.ly + r.range(-8, 8)), d = r.range(D.first, D.second), rx = clampx(lx - d), ry = clampy(ly + r.range(-c.v, c.v));
        int fl = 1, fr = 1;
        if (code == 1) fl = 0;
        if (code == 2) fr = 0;
        if (code == 3) fl = fr = 0;
        if (code == 4) rx = clampx(lx + r.range(0, 6));
        if (code == 5) ry = clampy(ly + (r.chance(50) ? 1 : -1) * (c.v + r.range(1, 3)));
        if (code == 6 && c.dist) rx = clampx(lx - (r.chance(50) ? std::max(1, D.first - r.range(1, 3)) : D.second + r.range(1, 3)));
        if (code == 7 && !tl.empty()) { const auto& q = r.pick(tl); lx = q[0]; ly = q[1]; }
        if (code == 8 && !tr.empty()) { const auto& q = r.pick(tr); rx = q[0]; ry = q[1]; }
        if (code == 9) { rx = clampx(lx - (r.chance(50) ? D.first : D.second)); ry = clampy(ly + (r.chance(50) ? c.v : -c.v)); }
        if (code == 0 && r.chance(20)) { lx = t.lx; ly = t.ly; rx = t.rx; ry = t.ry; }
        W.flow[0].emplace(std::make_pair(t.lx, t.ly), std::array<int, 3>{fl, lx, ly});
        W.flow[1].emplace(std::make_pair(t.rx, t.ry), std::array<int, 3>{fr, rx, ry});
        const auto& a = W.flow[0][{t.lx, t.ly}]; const auto& b = W.flow[1][{t.rx, t.ry}];
        if (a[0] && b[0]) { tl.push_back({a[1], a[2]}); tr.push_back({b[1], b[2]}); }
    }
    auto beside = [&](const std::array<int, 2>& p, int how) -> std::array<int, 2> {      // at, within or beyond the distance kept from tracked features
        if (how == 0) { const bool h = r.chance(50); return {p[0] + (h ? c.near : 0), p[1] + (h ? 0 : c.near)}; }
        if (how == 1) { const int n = std::max(0, int(c.near * 0.7)); return {p[0] - n, p[1] + n}; }
        return {p[0], p[1] + c.near + 1};
    };
    for (std::size_t i = 0; i < nw.size(); ++i) {
        const int code = nw[i];
        int lx = X(), ly = Y(), d = r.range(D.first, D.second), rx = clampx(lx - d), ry = clampy(ly + (c.real ? 0 : r.range(-c.v, c.v)));
        int cost = r.range(0, c.limit - 1), low = 0;
        bool has_right = true, paired = true;
        if (code == 1) has_right = false;
        if (code == 2) cost = c.limit;
        if (code == 3) cost = c.limit + r.range(1, 5);
        if (code == 4) { paired = false; low = 1; }
        if (code == 5 && !tl.empty()) { const auto b = beside(r.pick(tl), r.range(0, 2)); lx = clampx(b[0]); ly = clampy(b[1]); rx = clampx(lx - d); ry = ly; }
        if (code == 6 && !tr.empty()) { const auto b = beside(r.pick(tr), r.range(0, 2)); rx = clampx(b[0]); ry = clampy(b[1]); lx = clampx(rx + d); ly = ry; }
        if (code == 7) rx = clampx(lx + (r.chance(60) ? 0 : r.range(1, 4)));
        if (code == 8) ry = clampy(ly + (r.chance(50) ? 1 : -1) * (c.v + r.range(1, 3)));
        if (code == 10 && c.roi != cv::Rect2i{}) { lx = clampx((r.chance(50) ? c.roi.x : c.roi.x + c.roi.width) * 4 + r.range(-4, 4)); rx = clampx(lx - d); }
        if (code == 11 && c.dist) rx = clampx(lx - (r.chance(50) ? std::max(1, D.first - r.range(1, 3)) : D.second + r.range(1, 3)));
        if (code == 12) { rx = clampx(lx - (r.chance(50) ? D.first : D.second)); ry = clampy(ly + (r.chance(50) ? c.v : -c.v)); }
        if (code == 13 && c.roi != cv::Rect2i{}) { ly = ry = clampy((r.chance(50) ? c.roi.y : c.roi.y + c.roi.height) * 4 + r.range(-4, 4)); }
        if (c.real) { lx = lx / 4 * 4; ly = ly / 4 * 4; rx = rx / 4 * 4; ry = ry / 4 * 4; }
        const int lc = ++names;
        W.ext[0].push_back({lx, ly, lc});
        int rc = 0;
        if (has_right) {
            if (code == 9 && !W.ext[1].empty()) rc = r.pick(W.ext[1]).c;        // two left features want the same right one
            else { rc = ++names; W.ext[1].push_back({rx, ry, rc}); }
        }
        W.pair[lc] = {paired ? rc : 0, cost, low};
    }
    if (r.chance(30)) W.ext[1].push_back({X(), Y(), ++names});
    for (int s = 0; s < 2; ++s) for (std::size_t i = W.ext[s].size(); i > 1; --i) if (r.chance(50)) std::swap(W.ext[s][i - 1], W.ext[s][r.range(0, int(i) - 1)]);
}
static std::string ints(std::initializer_list<int> v) { return list(v, [](int x) { return std::to_string(x); }); }
static std::string ext_json() {
    std::string s = "[";
    for (int k = 0; k < 2; ++k) s += (k ? "," : "") + list(W.ext[k], [](const Ext& e) { return ints({e.x, e.y, e.c}); });
    return s + "]";
}
static std::string flow_json() {
    std::string s = "[";
    for (int k = 0; k < 2; ++k) s += (k ? "," : "") + list(W.flow[k], [](const auto& f) { return "[" + std::to_string(f.first.first) + "," + std::to_string(f.first.second) + "," + (f.second[0] ? "true" : "false") + "," + std::to_string(f.second[1]) + "," + std::to_string(f.second[2]) + "]"; });
    return s + "]";
}
static std::string stats_json(const StereoFeatureTracker::Statistics& s) {
    auto n = [](auto v) { return long(v) > 1000000 || long(v) < -1000000 ? -999999L : long(v); };
    return Obj().i("fn", n(s.frame_number)).i("max", n(s.max_match_id)).i("longest", n(s.longest_tracked_match_id))
        .r("tkp", "[" + std::to_string(n(s.tracked_kp_count[0])) + "," + std::to_string(n(s.tracked_kp_count[1])) + "]")
        .r("ekp", "[" + std::to_string(n(s.extracted_kp_count[0])) + "," + std::to_string(n(s.extracted_kp_count[1])) + "]")
        .r("fkp", "[" + std::to_string(n(s.filtered_extracted_kp_count[0])) + "," + std::to_string(n(s.filtered_extracted_kp_count[1])) + "]")
        .i("tm", n(s.tracked_match_count)).i("nm", n(s.new_match_count)).i("tot", n(s.total_match_count)).r("ids", list(s.match_ids, [](int x) { return std::to_string(x); })).end();
}
static std::string cfg_json(const Cfg& c, const std::string& mode, const std::string& limit, int rn, int rd) {
    return Obj().r("roi", c.roi == cv::Rect2i{} ? "[]" : ints({c.roi.x, c.roi.y, c.roi.width, c.roi.height})).i("near", c.near).i("v", c.v)
        .r("dist", c.dist ? ints({c.k, c.dmin, c.dmax}) : "[]").t("mode", mode).r("limit", limit).i("rn", rn).i("rd", rd).end();
}
static Cfg any_cfg(Rng& r) {
    Cfg c;
    c.rows = r.range(24, 40); c.cols = r.range(40, 64);
    c.near = r.pick(std::vector<int>{0, 4, 8, 20});
    c.v = r.pick(std::vector<int>{0, 2, 4, 8});
    c.dist = r.chance(40);
    if (c.dist) { c.dmin = r.range(1, 6); c.dmax = c.dmin + r.range(2, 40); c.k = c.dmax * 2 * r.range(2, 9) + r.range(0, 5); }      // k = 8 fx b
    if (r.chance(40)) { c.roi.width = r.range(8, 30); c.roi.height = r.range(8, 20); c.roi.x = r.range(0, c.cols - c.roi.width); c.roi.y = r.range(0, c.rows - c.roi.height); }
    c.limit = r.range(1, 12);
    return c;
}
static void bottom(Rng& r, bool& stats, bool& pics) { stats = r.chance(60); pics = r.chance(25); }

static void play(const std::vector<scen::Op>& ops, Rng& r0) {
    Rng r(std::uint64_t(ops[0].i("s")) * 41 + r0.next() % 1000);
    shim::reset();
    Cfg c = any_cfg(r);
    names = 0;
    W = World{};
    const float fx = 16.f;
    auto dist = c.dist ? serpent::StereoDistanceFilter::create(fx, c.k / (8.f * fx), c.dmax, c.dmin) : cv::Ptr<serpent::StereoDistanceFilter>();
    const bool later = r.chance(50);
    StereoFeatureTracker t(cv::makePtr<Detector>(), cv::makePtr<OpticalFlow>(), serpent::StereoMatchFilter::create(c.v / 4.f), cv::makePtr<Matcher>(), c.near / 4.f, c.limit,
            later ? cv::Ptr<serpent::StereoDistanceFilter>() : dist, c.roi);
    if (later && dist) t.set_stereo_distance_filter(dist);
    Ev("tracker").raw("cfg", cfg_json(c, "table", std::to_string(c.limit), 1, 2)).i("fn", t.frame_number()).emit();
    std::vector<Seen> last;
    std::array<cv::Mat, 2> keep;
    bool with_stats, with_pics;
    bottom(r, with_stats, with_pics);
    for (std::size_t j = 1; j < ops.size(); ++j) {
        if (r.chance(5)) {      // a pair that does not fit changes nothing
            bool exc = false;
            const int n = W.frame; W.frame = 999;
            try { t.process(picture(r, c.rows, c.cols, 999, 0), picture(r, c.rows + 1, c.cols, 999, 1)); } catch (const std::exception&) { exc = true; }
            W.frame = n;
            Ev("badsize").b("exc", exc).i("fn", t.frame_number()).emit();
        }
        ++W.frame;
        prepare(c, ops[j], last, r);
        if (r.chance(10)) bottom(r, with_stats, with_pics);
        // memory that was used before
        alignas(StereoFeatureTracker::Statistics) unsigned char raw[sizeof(StereoFeatureTracker::Statistics)];
        std::memset(raw, 0xA7, sizeof raw);
        auto* st = new (raw) StereoFeatureTracker::Statistics;
        StereoFeatureTracker::IntermediateImages pics;
        if (r.chance(50)) pics.match_draw_flags = pics.keypoint_draw_flags = cv::DrawMatchesFlags::DEFAULT;
        std::optional<std::reference_wrapper<StereoFeatureTracker::Statistics>> so; if (with_stats) so = *st;
        std::optional<std::reference_wrapper<StereoFeatureTracker::IntermediateImages>> po; if (with_pics) po = pics;
        std::array<cv::Mat, 2> im{picture(r, c.rows, c.cols, W.frame, 0), picture(r, c.rows, c.cols, W.frame, 1)};
        std::string what;
        StereoFeatureTracker::LRKeyPointMatches out;
        bool exc = false;
        try { out = t.process(im[0], im[1], so, po); } catch (const std::exception& e) { exc = true; what = e.what(); }
        keep = im;
        Ev e("frame");
        e.raw("ext", ext_json()).raw("flow", flow_json())
            .raw("pair", list(W.pair, [](const auto& p) { const bool has = std::any_of(W.ext[1].begin(), W.ext[1].end(), [&](const Ext& x) { return x.c == p.second[0]; }); return ints({p.first, has ? p.second[0] : 0, p.second[1]}); })).raw("cost", "[]");
        e.b("exc", exc).b("odd", W.odd).i("fn", t.frame_number());
        if (exc) { e.t("what", what).emit(); st->~Statistics(); break; }
        bool meta = true, sizes = out.matches.size() == out.match_ids.size() && out.size() == out.matches.size();
        std::string tr = "[";
        last.clear();
        for (std::size_t i = 0; sizes && i < out.matches.size(); ++i) {
            const auto& m = out.matches[i];
            if (m.queryIdx < 0 || m.trainIdx < 0 || m.queryIdx >= int(out.keypoints[0].size()) || m.trainIdx >= int(out.keypoints[1].size())) { sizes = false; break; }
            const auto &a = out.keypoints[0][m.queryIdx], &b = out.keypoints[1][m.trainIdx];
            meta = meta && whole(a) && whole(b);
            last.push_back({out.match_ids[i], q4(a.pt.x), q4(a.pt.y), q4(b.pt.x), q4(b.pt.y)});
            const auto& s = last.back();
            tr += (i ? "," : "") + Obj().i("id", s.id).r("l", ints({s.lx, s.ly})).r("r", ints({s.rx, s.ry})).i("lc", a.class_id).i("rc", b.class_id).end();
        }
        e.b("sizes", sizes).b("meta", meta).raw("tracks", tr + "]");
        if (with_stats) e.raw("stats", stats_json(*st));
        e.emit();
        st->~Statistics();
        if (!sizes) break;
    }
}

// ---- the node
struct Made { std::string detector, flow; };
static Made made;
template<class B> struct Part : B { DETECTS };
struct Fast : Part<cv::FastFeatureDetector> {
    void setThreshold(int) override {} int getThreshold() const override { return 0; } void setNonmaxSuppression(bool) override {} bool getNonmaxSuppression() const override { return false; }
    void setType(cv::FastFeatureDetector::DetectorType) override {} cv::FastFeatureDetector::DetectorType getType() const override { return cv::FastFeatureDetector::TYPE_9_16; }
};
struct Gftt : Part<cv::GFTTDetector> {
    void setMaxFeatures(int) override {} int getMaxFeatures() const override { return 0; } void setQualityLevel(double) override {} double getQualityLevel() const override { return 0; }
    void setMinDistance(double) override {} double getMinDistance() const override { return 0; } void setBlockSize(int) override {} int getBlockSize() const override { return 0; }
    void setHarrisDetector(bool) override {} bool getHarrisDetector() const override { return false; } void setK(double) override {} double getK() const override { return 0; }
};
struct Orb : Part<cv::ORB> {
    void setMaxFeatures(int) override {} int getMaxFeatures() const override { return 0; } void setScaleFactor(double) override {} double getScaleFactor() const override { return 0; }
    void setNLevels(int) override {} int getNLevels() const override { return 0; } void setEdgeThreshold(int) override {} int getEdgeThreshold() const override { return 0; }
    void setFirstLevel(int) override {} int getFirstLevel() const override { return 0; } void setWTA_K(int) override {} int getWTA_K() const override { return 0; }
    void setScoreType(cv::ORB::ScoreType) override {} cv::ORB::ScoreType getScoreType() const override { return cv::ORB::FAST_SCORE; }
    void setPatchSize(int) override {} int getPatchSize() const override { return 0; } void setFastThreshold(int) override {} int getFastThreshold() const override { return 0; }
};
struct Sift : Part<cv::SIFT> {};
struct Lk : cv::SparsePyrLKOpticalFlow {
    FLOWS
    cv::Size getWinSize() const override { return {}; } void setWinSize(cv::Size) override {} int getMaxLevel() const override { return 0; } void setMaxLevel(int) override {}
    cv::TermCriteria getTermCriteria() const override { return {}; } void setTermCriteria(cv::TermCriteria&) override {} int getFlags() const override { return 0; } void setFlags(int) override {}
    double getMinEigThreshold() const override { return 0; } void setMinEigThreshold(double) override {}
};
using namespace cv;
extern "C++" {
cv::Ptr<cv::FastFeatureDetector> wrap_fast(int, bool, cv::FastFeatureDetector::DetectorType) __asm__("__wrap__ZN2cv19FastFeatureDetector6createEibNS0_12DetectorTypeE");
cv::Ptr<cv::GFTTDetector> wrap_gftt(int, double, double, int, bool, double) __asm__("__wrap__ZN2cv12GFTTDetector6createEiddibd");
cv::Ptr<cv::GFTTDetector> wrap_gftt2(int, double, double, int, int, bool, double) __asm__("__wrap__ZN2cv12GFTTDetector6createEiddiibd");
cv::Ptr<cv::ORB> wrap_orb(int, float, int, int, int, int, cv::ORB::ScoreType, int, int) __asm__("__wrap__ZN2cv3ORB6createEifiiiiNS0_9ScoreTypeEii");
cv::Ptr<cv::SIFT> wrap_sift(int, int, double, double, double) __asm__("__wrap__ZN2cv4SIFT6createEiiddd");
cv::Ptr<cv::SIFT> wrap_sift2(int, int, double, double, double, int) __asm__("__wrap__ZN2cv4SIFT6createEiidddi");
cv::Ptr<cv::SparsePyrLKOpticalFlow> wrap_lk(cv::Size, int, cv::TermCriteria, int, double) __asm__("__wrap__ZN2cv22SparsePyrLKOpticalFlow6createENS_5Size_IiEEiNS_12TermCriteriaEid");
}
cv::Ptr<cv::FastFeatureDetector> wrap_fast(int t, bool n, cv::FastFeatureDetector::DetectorType k) {
    made.detector = Obj().t("type", "FAST").d("threshold", t).b("nonmax_suppression", n).t("kind", k == 0 ? "TYPE_5_8" : k == 1 ? "TYPE_7_12" : "TYPE_9_16").end();
    return cv::makePtr<Fast>();
}
cv::Ptr<cv::GFTTDetector> wrap_gftt(int n, double q, double d, int b, bool h, double k) {
    made.detector = Obj().t("type", "GFTT").d("max_corners", n).d("quality_level", q).d("min_distance", d).d("block_size", b).b("use_harris_detector", h).d("k", k).end();
    return cv::makePtr<Gftt>();
}
cv::Ptr<cv::GFTTDetector> wrap_gftt2(int n, double q, double d, int b, int, bool h, double k) { return wrap_gftt(n, q, d, b, h, k); }
cv::Ptr<cv::ORB> wrap_orb(int n, float s, int l, int e, int f, int w, cv::ORB::ScoreType t, int p, int ft) {
    made.detector = Obj().t("type", "ORB").d("num_features", n).d("scale_factor", s).d("num_levels", l).d("edge_threshold", e).d("first_level", f).d("wta_k", w)
        .t("score_type", t == cv::ORB::HARRIS_SCORE ? "HARRIS_SCORE" : "FAST_SCORE").d("patch_size", p).d("fast_threshold", ft).end();
    return cv::makePtr<Orb>();
}
cv::Ptr<cv::SIFT> wrap_sift(int n, int l, double c, double e, double s) {
    made.detector = Obj().t("type", "SIFT").d("num_features", n).d("num_octave_layers", l).d("contrast_threshold", c).d("edge_threshold", e).d("sigma", s).end();
    return cv::makePtr<Sift>();
}
cv::Ptr<cv::SIFT> wrap_sift2(int n, int l, double c, double e, double s, int) { return wrap_sift(n, l, c, e, s); }
cv::Ptr<cv::SparsePyrLKOpticalFlow> wrap_lk(cv::Size w, int l, cv::TermCriteria t, int f, double m) {
    made.flow = Obj().d("w", w.width).d("h", w.height).d("max_level", l).b("count", t.type & cv::TermCriteria::COUNT).b("eps", t.type & cv::TermCriteria::EPS)
        .d("max_count", t.maxCount).d("epsilon", t.epsilon).d("flags", f).d("min_eig_threshold", m).end();
    return cv::makePtr<Lk>();
}
static void set(const std::string& k, const XmlRpc::XmlRpcValue& v) { shim::params()[k] = v; }

static double window_cost(const std::string& kind, const cv::Mat& a, const cv::Mat& b, const cv::Point2i& p, const cv::Point2i& q, const cv::Size& w) {
    using namespace serpent;
    if (kind == "SAD") return sum_of_absolute_differences(a, b, p, q, w);
    if (kind == "SSD") return sum_of_squared_differences(a, b, p, q, w);
    if (kind == "ZMSAD") return zero_mean_sum_of_absolute_differences(a, b, p, q, w);
    if (kind == "LSSAD") return locally_scaled_sum_of_absolute_differences(a, b, p, q, w);
    return negative_normalised_cross_correlation(a, b, p, q, w);
}
static bool same(const sensor_msgs::CameraInfo& a, const sensor_msgs::CameraInfo& b) {
    return a.header.stamp == b.header.stamp && a.header.frame_id == b.header.frame_id && a.height == b.height && a.width == b.width && a.distortion_model == b.distortion_model && a.D == b.D && a.K == b.K && a.R == b.R && a.P == b.P
        && a.binning_x == b.binning_x && a.binning_y == b.binning_y && a.roi.x_offset == b.roi.x_offset && a.roi.y_offset == b.roi.y_offset && a.roi.height == b.roi.height && a.roi.width == b.roi.width && a.roi.do_rectify == b.roi.do_rectify;
}
static void node(const std::vector<scen::Op>& ops, Rng& r0) {
    Rng r(std::uint64_t(ops[0].i("s")) * 43 + r0.next() % 1000);
    shim::reset();
    names = 0; W = World{}; made = Made{};
    Cfg c = any_cfg(r);
    c.real = true;
    // settings
    Obj det, flow;
    const std::string type = r.pick(std::vector<std::string>{"FAST", "GFTT", "ORB", "SIFT", "ORB", "FAST", r.chance(20) ? "orb" : "GFTT"});
    std::string sub, bad = type == "orb" ? "detector" : "";
    det.t("type", type);
    const std::string dp = "stereo_tracking/detector/";
    set(dp + "type", type);
    auto number = [&](Obj& o, const std::string& path, const std::string& k, double v, bool integer) { if (integer) set(path + k, int(v)); else set(path + k, v); o.d(k, v); };
    auto flag = [&](Obj& o, const std::string& path, const std::string& k, bool v) { set(path + k, v); o.b(k, v); };
    auto word = [&](Obj& o, const std::string& path, const std::string& k, const std::string& v, const std::string& as) { set(path + k, v); o.t(as, v); };
    auto odd = [&](const std::string& what, const std::string& v) { if (bad.empty() && r.chance(4)) { bad = what; return v + "x"; } return v; };
    // every detector's settings are there, the one in use must be given its own
    for (const std::string& k : {std::string("FAST"), std::string("GFTT"), std::string("ORB"), std::string("SIFT")}) {
        Obj o; Obj& d = k == type ? det : o;
        if (k == "FAST") {
            const std::string p = dp + "fast/"; number(d, p, "threshold", r.range(1, 90), true); flag(d, p, "nonmax_suppression", r.chance(50));
            word(d, p, "type", k == type ? odd("fast type", r.pick(std::vector<std::string>{"TYPE_5_8", "TYPE_7_12", "TYPE_9_16"})) : "TYPE_5_8", "kind");
        } else if (k == "GFTT") {
            const std::string p = dp + "gftt/"; number(d, p, "max_corners", r.range(1, 900), true); number(d, p, "quality_level", r.range(1, 900) / 1024. + 1e-4, false); number(d, p, "min_distance", r.range(1, 90) + 0.125, false);
            number(d, p, "block_size", r.range(1, 9), true); flag(d, p, "use_harris_detector", r.chance(50)); number(d, p, "k", r.range(1, 900) / 1024. + 1e-4, false);
        } else if (k == "ORB") {
            const std::string p = dp + "orb/"; number(d, p, "num_features", r.range(1, 900), true); number(d, p, "scale_factor", 1.0625 + r.range(0, 9) / 8., false); number(d, p, "num_levels", r.range(1, 12), true);
            number(d, p, "edge_threshold", r.range(1, 60), true); number(d, p, "first_level", r.range(0, 5), true); number(d, p, "wta_k", r.range(2, 4), true);
            word(d, p, "score_type", k == type ? odd("score type", r.pick(std::vector<std::string>{"HARRIS_SCORE", "FAST_SCORE"})) : "FAST_SCORE", "score_type"); number(d, p, "patch_size", r.range(3, 60), true); number(d, p, "fast_threshold", r.range(1, 60), true);
        } else {
            const std::string p = dp + "sift/"; number(d, p, "num_features", r.range(1, 900), true); number(d, p, "num_octave_layers", r.range(1, 9), true); number(d, p, "contrast_threshold", r.range(1, 900) / 1024. + 1e-4, false);
            number(d, p, "edge_threshold", r.range(1, 60) + 0.125, false); number(d, p, "sigma", r.range(1, 90) / 16. + 1e-4, false);
        }
    }
    const std::string fp = "stereo_tracking/sparse_optical_flow/";
    set(fp + "type", odd("flow type", "PyrLK"));
    { const int w = r.range(3, 40), h = r.range(3, 40); set(fp + "pyrlk/win_size", XmlRpc::XmlRpcValue(std::vector<int>{w, h})); flow.d("w", w).d("h", h); }
    number(flow, fp + "pyrlk/", "max_level", r.range(0, 9), true);
    const std::string tc = r.pick(std::vector<std::string>{"COUNT", "EPS", "COUNT+EPS", "MAX_ITER", "MAX_ITER+EPS"});
    flow.b("count", tc != "EPS").b("eps", tc.find("EPS") != std::string::npos);
    set(fp + "pyrlk/term_criteria/type", odd("term criteria", tc));
    number(flow, fp + "pyrlk/term_criteria/", "max_count", r.range(1, 90), true); number(flow, fp + "pyrlk/term_criteria/", "epsilon", r.range(1, 900) / 1024. + 1e-4, false);
    number(flow, fp + "pyrlk/", "flags", r.pick(std::vector<int>{0, 4, 8}), true); number(flow, fp + "pyrlk/", "min_eig_threshold", r.range(1, 900) / 65536. + 1e-6, false);
    set("stereo_tracking/new_feature_dist_threshold", c.near / 4.);
    set("stereo_tracking/stereo_match_filter/vertical_pixel_threshold", c.v / 4.);
    const std::string mp = "stereo_tracking/stereo_keypoint_matcher/";
    const std::string kind = r.pick(std::vector<std::string>{"SAD", "SSD", "ZMSAD", "LSSAD", "NNCC"}), filter = r.pick(kind == "NNCC" ? std::vector<std::string>{"UNIDIRECTIONAL", "BIDIRECTIONAL"} : std::vector<std::string>{"UNIDIRECTIONAL", "BIDIRECTIONAL", "RATIO_TEST"});
    const int w = 1 + 2 * r.range(1, 2), h = 1 + 2 * r.range(0, 2), rn = r.range(1, 9), vm = r.pick(std::vector<int>{0, 4, 8});
    set(mp + "cost_function", odd("cost function", kind)); set(mp + "matching_filter", odd("matching filter", filter)); set(mp + "window_size/width", w); set(mp + "window_size/height", h);
    set(mp + "ratio", rn / 10.); set(mp + "vertical_pixel_threshold", vm / 4.);
    const double limit = kind == "NNCC" ? -r.range(60, 95) / 100. - 1e-5 : (kind == "SSD" ? r.range(20, 160) * 1000. : r.range(5, 14) * 100.) * w * h / 15 + 0.3;
    set(mp + "cost_threshold", limit);
    set("stereo_mask/enabled", c.roi != cv::Rect2i{});
    { cv::Rect2i q = c.roi; if (q == cv::Rect2i{}) q = cv::Rect2i(1, 2, 3, 4); set("stereo_mask/top_left_x", q.x); set("stereo_mask/top_left_y", q.y); set("stereo_mask/width", q.width); set("stereo_mask/height", q.height); }
    set("stereo_tracking/stereo_distance_filter/enabled", c.dist);
    set("stereo_tracking/stereo_distance_filter/min_distance", double(c.dist ? c.dmin : 3)); set("stereo_tracking/stereo_distance_filter/max_distance", double(c.dist ? c.dmax : 4));
    const bool pub_stats = r.chance(50), pub_pics = r.chance(20), pub_points = r.chance(50), print = r.chance(30);
    set("debug/stereo/publish_stats", pub_stats); set("debug/stereo/publish_intermediate_results", pub_pics); set("debug/stereo/publish_points", pub_points); set("debug/stereo/print_stats", print);
    set("debug/stereo/rich_keypoints", r.chance(50)); set("debug/stereo/rich_matches", r.chance(50));
    bool exc = false;
    std::unique_ptr<serpent::StereoFactorFinder> n;
    try { n = std::make_unique<serpent::StereoFactorFinder>(); } catch (const std::exception&) { exc = true; }
    Ev("finder").raw("cfg", cfg_json(c, filter, num(limit), rn, 10)).b("stats", pub_stats).b("points", pub_points).b("pics", pub_pics).t("bad", bad).b("exc", exc)
        .raw("want", Obj().r("detector", det.end()).r("flow", flow.end()).end()).raw("made", Obj().r("detector", made.detector.empty() ? "[]" : made.detector).r("flow", made.flow.empty() ? "[]" : made.flow).end()).emit();
    if (exc) return;
    // the camera: k = 8 fx b
    const int fx = 16; double b = c.dist ? c.k / (8. * fx) : r.range(1, 16) / 8.;
    const int fy = r.range(10, 20), cx = r.range(10, 30), cy = r.range(10, 20);
    const int wrong = r.chance(8) ? r.range(1, 2) : 0;       // no baseline / different focal lengths
    if (wrong == 1) b = r.chance(50) ? 0 : -b;
    std::vector<Seen> last;
    Driver d(r.next());
    d.dies = true;
    std::vector<Seen> now; bool ok_header = true;
    ros::Time stamp(100, 0); std::string frame_id;
    std::vector<std::string> topics;
    std::string feats, points = "[]", stats = "[]"; bool infos = true;
    sensor_msgs::CameraInfo li, ri;
    auto good = [&](const std_msgs::Header& x) { return x.stamp == stamp && x.frame_id == frame_id; };
    shim::Bus::get().taps.push_back([&](const std::string& topic, const std::any& m) {
        topics.push_back(topic);
        if (topic == "stereo/features") {
            const auto fp = shim::Travel<serpent::StereoFeatures>::out(m); const auto& f = *fp;
            ok_header = ok_header && good(f.header);
            infos = infos && same(f.left_info, li) && same(f.right_info, ri);
            feats = list(f.features, [&](const serpent::StereoFeature& x) { now.push_back({int(x.id), q4(x.left_x), q4(x.left_y), q4(x.right_x), q4(x.right_y)}); const auto& s = now.back(); return Obj().i("id", s.id).r("l", ints({s.lx, s.ly})).r("r", ints({s.rx, s.ry})).end(); });
        } else if (topic == "stereo/statistics") {
            const auto sp = shim::Travel<serpent::StereoTrackerStatistics>::out(m); const auto& s = *sp;
            ok_header = ok_header && good(s.header);
            StereoFeatureTracker::Statistics t;
            t.frame_number = s.frame_number; t.max_match_id = s.max_match_id; t.longest_tracked_match_id = s.longest_tracked_match_id; t.tracked_match_count = s.tracked_match_count; t.new_match_count = s.new_match_count; t.total_match_count = s.total_match_count;
            for (int i = 0; i < 2; ++i) { t.tracked_kp_count[i] = s.tracked_kp_count[i]; t.extracted_kp_count[i] = s.extracted_kp_count[i]; t.filtered_extracted_kp_count[i] = s.filtered_extracted_kp_count[i]; }
            t.match_ids.assign(s.match_ids.begin(), s.match_ids.end());
            stats = stats_json(t);
        } else if (topic == "stereo/track_points") {
            const auto pp = shim::Travel<pcl::PointCloud<pcl::PointXYZ>>::out(m); const auto& p = *pp;
            ok_header = ok_header && p.header.frame_id == frame_id && p.header.stamp == stamp.toNSec() / 1000;
            points = list(p.points, [](const pcl::PointXYZ& q) { return vec(Eigen::Vector3f(q.x, q.y, q.z)); });
        } else if (topic.find("/image") != std::string::npos || topic.find("matches") != std::string::npos) ok_header = ok_header && good(shim::Travel<sensor_msgs::Image>::out(m)->header);
    });
    for (std::size_t j = 1; j < ops.size() && !d.dead; ++j) {
        const bool complete = !r.chance(12);
        if (complete) { ++W.frame; }
        const int side_frame = complete ? W.frame : 999;
        stamp = stamp + ros::Duration(0.05); frame_id = "cam" + std::to_string(r.range(0, 9));
        std::array<cv::Mat, 2> im{picture(r, c.rows, c.cols, side_frame, 0), picture(r, c.rows, c.cols, side_frame, 1)};
        // costs of all admissible pairs; drawn again when two are (nearly) the same
        std::string costs;
        for (int tries = 0; complete && tries < 50; ++tries) {
            prepare(c, ops[j], last, r);
            for (auto& e : W.ext) { std::set<std::pair<int, int>> seen; e.erase(std::remove_if(e.begin(), e.end(), [&](const Ext& x) { return !seen.insert({x.x, x.y}).second; }), e.end()); }
            std::vector<double> all; bool tie = false;
            costs = "[";
            for (const auto& a : W.ext[0]) for (const auto& q : W.ext[1]) {
                const cv::Point2i p(a.x / 4 - (w - 1) / 2, a.y / 4 - (h - 1) / 2), s(q.x / 4 - (w - 1) / 2, q.y / 4 - (h - 1) / 2);
                auto in = [&](const cv::Point2i& t) { return t.x >= 0 && t.y >= 0 && t.x + w <= c.cols && t.y + h <= c.rows; };
                if (!in(p) || !in(s) || std::abs(a.y - q.y) > vm || q.x > a.x) continue;
                const double v = window_cost(kind, im[0], im[1], p, s, cv::Size(w, h)), u = window_cost(kind, im[1], im[0], s, p, cv::Size(w, h));      // matching back need not cost the same
                for (double z : {v, u}) {
                    for (double o : all) { if (std::abs(o - z) < 1e-6 * (1 + std::abs(z))) tie = true; for (double k : {z / o, o / z}) if (std::abs(k - rn / 10.) < 1e-6) tie = true; }
                    if (std::abs(z - limit) < 1e-6 * (1 + std::abs(z))) tie = true;
                }
                all.push_back(v); all.push_back(u);
                costs += (costs.size() > 1 ? "," : "") + std::string("[") + std::to_string(a.c) + "," + std::to_string(q.c) + "," + num(v) + "," + num(u) + "]";
            }
            costs += "]";
            if (!tie) break;
        }
        auto msg = [&](int s) { sensor_msgs::Image m; m.header.stamp = stamp; m.header.frame_id = s ? "right" : frame_id; m.height = c.rows; m.width = c.cols; m.encoding = r.chance(50) ? "mono8" : "8UC1"; m.step = c.cols + (r.chance(40) ? r.range(1, 9) : 0); m.data.assign(m.step * c.rows, 201); for (int y = 0; y < c.rows; ++y) std::memcpy(&m.data[y * m.step], im[s].ptr(y), c.cols); return m; };
        auto info = [&](int s) { sensor_msgs::CameraInfo m; m.header.stamp = stamp; m.header.frame_id = s ? "ri" : "li"; m.height = c.rows; m.width = c.cols; m.K = {double(fx + (s && wrong == 2)), 0, double(cx), 0, double(fy), double(cy), 0, 0, 1}; m.P = {double(fx), 0, double(cx), s ? -fx * b : 0., 0, double(fy), double(cy), 0, 0, 0, 1, 0}; m.D = {double(r.range(0, 9))}; m.R[0] = r.range(0, 9); m.distortion_model = r.chance(50) ? "plumb_bob" : ""; m.binning_x = r.range(0, 3); m.roi.width = r.range(0, 3); return m; };
        li = info(0); ri = info(1);
        std::vector<int> order{0, 1, 2, 3};
        for (int i = 3; i > 0; --i) std::swap(order[i], order[r.range(0, i)]);
        if (!complete) order.resize(r.range(0, 3));
        now.clear(); topics.clear(); feats = ""; points = stats = "[]"; ok_header = infos = true;
        for (int k : order) {
            if (k == 0) shim::send<sensor_msgs::Image>("stereo/left/image", msg(0));
            if (k == 1) shim::send<sensor_msgs::Image>("stereo/right/image", msg(1));
            if (k == 2) shim::send<sensor_msgs::CameraInfo>("stereo/left/camera_info", li);
            if (k == 3) shim::send<sensor_msgs::CameraInfo>("stereo/right/camera_info", ri);
            d.settle(2);
        }
        d.settle(2);
        Ev e("views");
        e.b("complete", complete).b("died", d.dead);
        if (complete) e.raw("ext", ext_json()).raw("flow", flow_json()).raw("pair", "[]").raw("cost", costs).b("odd", W.odd);
        e.raw("cam", ints({fx, fy, cx, cy})).d("b", b).i("wrong", wrong).raw("topics", list(topics, [](const std::string& s) { return str(s); })).b("header", ok_header).b("infos", infos);
        if (!feats.empty()) e.raw("tracks", feats);
        e.raw("points", points);
        if (stats != "[]") e.raw("stats", stats);
        e.emit();
        if (complete) last = now;
    }
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    if (argc <= 6) return 64;
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 53);
    for (const auto& s : scen::load(argv[6])) if (!s.empty()) { if (a.group == "P27") play(s, r); else node(s, r); }
    return finish();
}
