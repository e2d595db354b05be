// P31: image operations and the nodes of camera_tools.
#include "node.hpp"
#include <camera_tools/change_frame_id.hpp>
#include <camera_tools/image_operations.hpp>
#include <camera_tools/publish_info.hpp>
#undef CAMERA_TOOLS_SPLIT_IMAGE_HPP
#include <camera_tools/split_image.hpp>
#include <cv_bridge/cv_bridge.h>
#include <new>
using namespace vh;
using sensor_msgs::CameraInfo;
using sensor_msgs::Image;
using Xml = XmlRpc::XmlRpcValue;

static std::string hex(const unsigned char* p, std::size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (std::size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
static std::string pixels(const unsigned char* data, int rows, int cols, std::size_t step, std::size_t size) {
    std::string s = "[";
    for (int y = 0; y < rows; ++y) { s += y ? ",[" : "["; for (int x = 0; x < cols; ++x) s += (x ? "," : "") + std::string("\"") + hex(data + y * step + x * size, size) + "\""; s += "]"; }
    return s + "]";
}
static std::string pixels(const cv::Mat& m) { return pixels(m.data, m.rows, m.cols, m.step, m.elemSize()); }
static std::string nums(std::initializer_list<double> v) { return list(v, [](double x) { return num(x); }); }
static std::string ints(std::initializer_list<int> v) { return list(v, [](int x) { return std::to_string(x); }); }
static std::string cam(const CameraInfo& c) { return nums({c.K[0], c.K[4], c.K[2], c.K[5]}); }
static double some(Rng& r) { return r.chance(40) ? r.range(0, 900) : r.real(0.5, 2000); }
static std::string word(Rng& r, const std::string& p) { return p + std::to_string(r.range(0, 999)); }
static std::string time(const ros::Time& t) { return std::to_string(t.toNSec()); }

static void operation(Rng& r) {
    const int types[] = {CV_8UC1, CV_8UC3, CV_16UC1, CV_32FC1, CV_8UC4, CV_64FC1, CV_16SC2};
    cv::Mat big(r.range(1, 7) + 2, r.range(1, 7) + 2, types[r.range(0, 6)]);
    for (std::size_t i = 0; i < big.total() * big.elemSize(); ++i) big.data[i] = static_cast<unsigned char>(r.range(0, 255));
    // on its own, or a part of a larger picture
    cv::Mat in = r.chance(50) ? big : big(cv::Rect(r.range(0, 2), r.range(0, 2), big.cols - 2, big.rows - 2));
    CameraInfo info;
    info.header.frame_id = word(r, "f"); info.header.stamp = ros::Time(r.range(0, 1000), r.range(0, 999999999)); info.header.seq = r.range(0, 999);
    info.width = in.cols; info.height = in.rows; info.K[0] = some(r); info.K[4] = some(r); info.K[2] = some(r); info.K[5] = some(r); info.K[8] = 1; info.D = {some(r), some(r), 0, 0, 0}; info.distortion_model = "plumb_bob";
    std::string name = "-"; int d = 0; bool degrees = false, exc = false;
    alignas(camera_tools::Rotate) unsigned char raw[sizeof(camera_tools::Rotate)];
    std::memset(raw, r.pick(std::vector<int>{0, 1, 2, 0xA7}), sizeof raw);      // memory that was used before
    std::unique_ptr<camera_tools::Flip> flip;
    camera_tools::Rotate* rotate = nullptr;
    camera_tools::ImageOperation* op = nullptr;
    const int how = r.range(0, 2);
    try {
        if (how == 0) {
            degrees = true;
            d = r.chance(70) ? r.range(0, 3) * 90 : r.chance(50) ? r.range(-8, 9) * 90 : r.range(-800, 800);
            rotate = new (raw) camera_tools::Rotate(d);
        } else if (how == 1) {
            const int k = r.range(0, 2);
            name = k == 0 ? "cw90" : k == 1 ? "cw180" : "cw270";
            rotate = new (raw) camera_tools::Rotate(k == 0 ? cv::ROTATE_90_CLOCKWISE : k == 1 ? cv::ROTATE_180 : cv::ROTATE_90_COUNTERCLOCKWISE);
        } else {
            const int k = r.range(0, 2);
            name = k == 0 ? "horiz" : k == 1 ? "vert" : "both";
            flip = std::make_unique<camera_tools::Flip>(k == 0 ? camera_tools::Flip::FLIP_HORIZ : k == 1 ? camera_tools::Flip::FLIP_VERT : camera_tools::Flip::FLIP_BOTH);
        }
    } catch (const std::exception&) { exc = true; }
    Ev e("operation");
    e.b("degrees", degrees).i("d", d).t("name", name).raw("in", pixels(in)).raw("cam", cam(info)).b("exc", exc);
    if (!exc) {
        if (rotate) op = rotate; else op = flip.get();
        const cv::Mat before = in.clone();
        const CameraInfo info0 = info;
        cv::Mat out; CameraInfo o;
        if (r.chance(50)) { out = op->apply(in); o = op->apply(info); } else { o = op->apply(info); out = op->apply(in); }
        const bool kept = pixels(before) == pixels(in) && info.width == info0.width && info.height == info0.height && info.K == info0.K && info.D == info0.D;
        e.raw("out", pixels(out)).b("kind", out.type() == in.type()).raw("cam2", cam(o)).raw("size", ints({int(o.width), int(o.height)}))
            .b("header", o.header.frame_id == info.header.frame_id && o.header.stamp == info.header.stamp && o.header.seq == info.header.seq).b("kept", kept);
    }
    e.emit();
    if (rotate) rotate->~Rotate();
}
static Image image(Rng& r, int w, int h, const std::string& enc) {
    Image m;
    m.header.frame_id = word(r, "cam"); m.header.stamp = ros::Time(r.range(1, 1000), r.range(0, 999999999)); m.header.seq = r.range(0, 999);
    m.height = h; m.width = w; m.encoding = enc;
    const int size = CV_ELEM_SIZE(cv_bridge::type_of(enc));
    m.step = w * size + (r.chance(30) ? r.range(1, 5) * size : 0);
    m.data.resize(m.step * h);
    for (auto& b : m.data) b = static_cast<unsigned char>(r.range(0, 255));
    return m;
}
static std::string encoding(Rng& r) { return r.pick(std::vector<std::string>{"mono8", "bgr8", "rgb8", "mono16", "32FC1", "bgra8"}); }
static void splitter(Rng& r) {
    shim::reset();
    const int n = r.range(1, 4), W = r.range(4, 9), H = r.range(4, 8);
    Xml images;
    std::string parts = "[";
    bool bad_all = false;
    if (r.chance(3)) { bad_all = true; images = Xml(std::string("none")); }
    for (int i = 0; i < n && !bad_all; ++i) {
        int u = r.range(0, W - 1), v = r.range(0, H - 1), w = r.range(1, W - u), h = r.range(1, H - v);
        if (r.chance(2)) { if (r.chance(50)) w = W - u + 1; else h = H - v + 1; }
        Xml x, region, dist, intr;
        Obj o;
        bool bad = false;
        auto text = [&](const std::string& k, const std::string& as, const std::string& p) { const std::string s = p + std::to_string(i) + word(r, "_"); x[k] = Xml(s); o.t(as, s); };
        text("topic", "topic", "pic"); text("info_topic", "info", "inf"); text("frame_id", "frame", "frame");
        region["u"] = Xml(u); region["v"] = Xml(v); region["w"] = Xml(w); region["h"] = Xml(h);
        if (r.chance(1)) { region = Xml(std::string("all")); bad = true; }
        x["region"] = region;
        o.i("u", u).i("v", v).i("w", w).i("h", h);
        const std::string model = word(r, "plumb");
        std::string ds = "[";
        dist["model"] = Xml(model);
        std::map<std::string, double> ks; for (const char* k : {"k1", "k2", "k3", "t1", "t2"}) { ks[k] = r.real(-2, 2); dist[k] = Xml(ks[k]); }
        x["distortion"] = dist;
        o.t("model", model).r("dist", nums({ks["k1"], ks["k2"], ks["t1"], ks["t2"], ks["k3"]}));
        const double fx = r.real(1, 900), fy = r.real(1, 900); const int cx = r.range(0, 900), cy = r.range(0, 900);
        intr["fx"] = Xml(fx); intr["fy"] = Xml(fy); intr["cx"] = Xml(cx); intr["cy"] = Xml(cy);
        x["intrinsic"] = intr;
        o.r("cam", nums({fx, fy, double(cx), double(cy)}));
        int cw = -1, acw = -1; std::string flip;
        auto degrees = [&] { return r.chance(95) ? r.range(0, 3) * 90 : r.chance(50) ? r.range(0, 9) * 90 : r.range(1, 400); };
        if (r.chance(70)) {
            Xml ops; ops.make_struct();
            if (r.chance(50)) { cw = degrees(); ops["rotate_cw"] = Xml(cw); }
            if (r.chance(50)) { acw = degrees(); ops["rotate_acw"] = Xml(acw); }
            if (r.chance(50)) { flip = r.chance(96) ? r.pick(std::vector<std::string>{"horiz", "vert", "both"}) : "diag"; ops["flip"] = Xml(flip); }
            if (r.chance(2)) { ops["shear"] = Xml(1); bad = true; }
            if (r.chance(4)) {      // operations that are no struct
                bad = true;
                if (r.chance(50)) ops = Xml(std::string("flip")); else { Xml a; a.make_array(); a[0] = ops; ops = a; }
                cw = acw = -1; flip = "";
            }
            x["operations"] = ops;
        }
        o.i("cw", cw).i("acw", acw).t("flip", flip).b("bad", bad);
        parts += (i ? "," : "") + o.end();
        images[i] = x;
    }
    shim::params()["images"] = images;
    bool exc = false;
    std::unique_ptr<camera_tools::ImageSplitter> node;
    try { node = std::make_unique<camera_tools::ImageSplitter>(); } catch (const std::exception&) { exc = true; }
    Ev("splitter").b("bad", bad_all).raw("parts", parts + "]").b("exc", exc).emit();
    if (exc) return;
    Driver d(r.next());
    d.dies = true;
    std::vector<std::string> out;
    shim::Bus::get().taps.push_back([&](const std::string& topic, const std::any& any) {
        Obj o; o.t("topic", topic);
        if (any.type() == typeid(Image::ConstPtr)) {
            const auto m = std::any_cast<Image::ConstPtr>(any);
            const std::size_t size = CV_ELEM_SIZE(cv_bridge::type_of(m->encoding));
            const bool whole = m->step >= m->width * size && m->data.size() == std::size_t(m->step) * m->height && !m->is_bigendian;
            o.t("kind", "image").r("px", whole ? pixels(m->data.data(), m->height, m->width, m->step, size) : "[]").t("enc", m->encoding).b("whole", whole).t("frame", m->header.frame_id).t("stamp", time(m->header.stamp));
        } else {
            const auto m = std::any_cast<CameraInfo::ConstPtr>(any);
            const bool one = m->K[1] == 0 && m->K[3] == 0 && m->K[6] == 0 && m->K[7] == 0 && m->K[8] == 1;
            o.t("kind", "info").r("size", ints({int(m->width), int(m->height)})).r("cam", cam(*m)).r("proj", nums({m->P[0], m->P[5], m->P[2], m->P[6]})).b("one", one).t("model", m->distortion_model)
                .r("dist", list(m->D, [](double x) { return num(x); })).t("frame", m->header.frame_id).t("stamp", time(m->header.stamp));
        }
        out.push_back(o.end());
    });
    for (int k = r.range(1, 3); k > 0 && !d.dead; --k) {
        int w = W, h = H;
        if (r.chance(20)) { w += r.range(-1, 2); h += r.range(-1, 2); }      // cameras do not change size, but the node need not know
        const Image m = image(r, w, h, encoding(r));
        out.clear();
        shim::send<Image>("input/image", m);
        d.settle(2);
        Ev("split").raw("in", pixels(m.data.data(), h, w, m.step, CV_ELEM_SIZE(cv_bridge::type_of(m.encoding)))).t("enc", m.encoding).t("stamp", time(m.header.stamp)).b("died", d.dead)
            .raw("out", list(out, [](const std::string& s) { return s; })).emit();
    }
    shim::reset();
}
static void info(Rng& r) {
    shim::reset();
    const std::string model = word(r, "model");
    const bool has_model = r.chance(80), has_dist = r.chance(80), has_k = r.chance(80), has_p = r.chance(80), has_b = r.chance(60);
    std::vector<double> D; for (int n = r.range(0, 8); n > 0; --n) D.push_back(r.real(-1, 1));
    if (D.empty()) { Xml a; a.make_array(); if (has_dist) shim::params()["distortion_coefficients"] = a; } else if (has_dist) shim::params()["distortion_coefficients"] = Xml(D);
    if (has_model) shim::params()["distortion_model"] = Xml(model);
    double k[4] = {0, 0, 0, 0}, p[4] = {0, 0, 0, 0}, b = 0;
    const char* names[] = {"fx", "fy", "cx", "cy"};
    Xml K, P; K.make_struct(); P.make_struct();
    for (int i = 0; i < 4; ++i) { if (has_k) { k[i] = some(r); K[names[i]] = Xml(k[i]); } if (has_p) { p[i] = some(r); P[names[i]] = Xml(p[i]); } }
    if (has_b) { b = r.real(-0.2, 1.5); P["baseline"] = Xml(b); }
    if (r.chance(50)) { shim::params()["K"] = K; shim::params()["P"] = P; }
    else { for (auto& x : K) shim::params()["K/" + x.first] = x.second; for (auto& x : P) shim::params()["P/" + x.first] = x.second; }
    camera_tools::PublishInfo node;
    Driver d(r.next());
    std::vector<std::string> out;
    shim::Bus::get().taps.push_back([&](const std::string& topic, const std::any& any) {
        const auto m = shim::Travel<CameraInfo>::out(any);
        out.push_back(Obj().t("topic", topic).t("model", m->distortion_model).r("dist", list(m->D, [](double x) { return num(x); })).r("K", list(m->K, [](double x) { return num(x); })).r("R", list(m->R, [](double x) { return num(x); })).r("P", list(m->P, [](double x) { return num(x); }))
            .r("size", ints({int(m->width), int(m->height)})).t("frame", m->header.frame_id).t("stamp", time(m->header.stamp)).i("seq", m->header.seq).end());
    });
    for (int n = r.range(1, 3); n > 0; --n) {
        const Image m = image(r, r.range(1, 9), r.range(1, 9), encoding(r));
        out.clear();
        shim::send<Image>("input/image", m);
        d.settle(2);
        Ev("info").raw("conf", Obj().t("model", has_model ? model : "").r("dist", list(has_dist ? D : std::vector<double>{}, [](double x) { return num(x); })).r("k", nums({k[0], k[1], k[2], k[3]})).r("p", nums({p[0], p[1], p[2], p[3]})).d("b", b).end())
            .t("frame", m.header.frame_id).t("stamp", time(m.header.stamp)).i("seq", m.header.seq).raw("size", ints({int(m.width), int(m.height)})).raw("out", list(out, [](const std::string& s) { return s; })).emit();
    }
    shim::reset();
}
static std::string rest(const Image& m) { return time(m.header.stamp) + " " + std::to_string(m.header.seq) + " " + std::to_string(m.width) + " " + std::to_string(m.height) + " " + std::to_string(m.step) + " " + m.encoding + " " + std::to_string(m.is_bigendian) + " " + hex(m.data.data(), m.data.size()); }
static std::string rest(const CameraInfo& c) {
    std::ostringstream s; s.precision(17);
    s << time(c.header.stamp) << " " << c.header.seq << " " << c.width << " " << c.height << " " << c.distortion_model << " " << c.binning_x << " " << c.binning_y << " " << c.roi.x_offset << " " << c.roi.y_offset << " " << c.roi.height << " " << c.roi.width << " " << int(c.roi.do_rectify);
    for (double x : c.D) s << " " << x; s << ";"; for (double x : c.K) s << " " << x; for (double x : c.R) s << " " << x; for (double x : c.P) s << " " << x;
    return s.str();
}
static void rename(Rng& r) {
    shim::reset();
    const bool has = r.chance(90);
    const std::string to = has ? word(r, "frame") : "CHANGED_FRAME_ID_DEFAULT";
    if (has) shim::params()["frame_id"] = Xml(to);
    camera_tools::ChangeFrameId node;
    Driver d(r.next());
    std::vector<std::string> out;
    shim::Bus::get().taps.push_back([&](const std::string& topic, const std::any& any) {
        Obj o; o.t("topic", topic);
        if (any.type() == typeid(Image::ConstPtr)) { const auto m = std::any_cast<Image::ConstPtr>(any); o.t("frame", m->header.frame_id).t("rest", rest(*m)); }
        else { const auto m = std::any_cast<CameraInfo::ConstPtr>(any); o.t("frame", m->header.frame_id).t("rest", rest(*m)); }
        out.push_back(o.end());
    });
    int now = 10;
    for (int n = r.range(1, 4); n > 0; --n) {
        Image m = image(r, r.range(1, 5), r.range(1, 5), encoding(r));
        now += 2;
        m.header.stamp = ros::Time(now, r.range(0, 999));
        CameraInfo c;
        c.header = m.header; c.header.frame_id = word(r, "other"); c.header.seq = r.range(0, 99);
        if (r.chance(20)) c.header.stamp = ros::Time(now, m.header.stamp.nsec + 1);
        c.width = r.range(0, 99); c.height = r.range(0, 99); c.distortion_model = word(r, "m"); for (auto& x : c.K) x = some(r); for (auto& x : c.R) x = some(r); for (auto& x : c.P) x = some(r); for (int i = r.range(0, 5); i > 0; --i) c.D.push_back(some(r));
        c.binning_x = r.range(0, 3); c.binning_y = r.range(0, 3); c.roi.width = r.range(0, 9); c.roi.height = r.range(0, 9); c.roi.x_offset = r.range(0, 9); c.roi.y_offset = r.range(0, 9); c.roi.do_rectify = r.chance(50);
        out.clear();
        if (r.chance(50)) { shim::send<Image>("input/image", m); d.settle(2); shim::send<CameraInfo>("input/camera_info", c); }
        else { shim::send<CameraInfo>("input/camera_info", c); d.settle(2); shim::send<Image>("input/image", m); }
        d.settle(2);
        Ev("rename").t("to", to).t("stamp", time(m.header.stamp)).t("stamp2", time(c.header.stamp)).raw("rest", "[" + str(rest(m)) + "," + str(rest(c)) + "]").raw("out", list(out, [](const std::string& s) { return s; })).emit();
    }
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 61);
    for (long i = 0; i < a.count; ++i) {
        const int k = r.range(0, 99);
        if (k < 40) operation(r); else if (k < 75) splitter(r); else if (k < 88) info(r); else rename(r);
    }
    return finish();
}
