// Binary clouds for the harnesses: JSON form, independent decoding, random layouts.
#pragma once
#include "vh.hpp"
#include <pcl/PCLPointCloud2.h>
#include <pcl/PCLPointField.h>
#include <memory>
using C2 = pcl::PCLPointCloud2;
using F2 = pcl::PCLPointField;
namespace c2 {
using namespace vh;
inline int size_of(int t) { static const int s[] = {0, 1, 1, 2, 2, 4, 4, 4, 8}; return t >= 1 && t <= 8 ? s[t] : 0; }
inline std::string hex(const std::uint8_t* p, std::size_t n) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < n; ++i) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    return r;
}
inline std::string field(const F2& f) {
    return "[" + str(f.name) + "," + std::to_string(f.offset) + "," + std::to_string(int(f.datatype)) + "," + std::to_string(f.count) + "]";
}
// points are cut by point_step from the data that is there
inline std::string json(const C2& c) {
    std::string r = "{\"f\":" + list(c.fields, field) + ",\"ps\":" + std::to_string(c.point_step) + ",\"rs\":" + std::to_string(c.row_step) +
        ",\"nd\":" + std::to_string(c.data.size()) + ",\"w\":" + std::to_string(c.width) + ",\"h\":" + std::to_string(c.height) +
        ",\"be\":" + (c.is_bigendian ? "true" : "false") + ",\"dn\":" + std::to_string(int(c.is_dense)) + ",\"stamp\":" + str(std::to_string(c.header.stamp)) +
        ",\"frame\":" + str(c.header.frame_id) + ",\"seq\":" + std::to_string(c.header.seq) + ",\"p\":[";
    if (c.point_step)
        for (std::size_t i = 0; i + c.point_step <= c.data.size(); i += c.point_step) { if (i) r += ","; r += "\"" + hex(&c.data[i], c.point_step) + "\""; }
    return r + "]}";
}
template<class T> std::string rd(const std::uint8_t* p) { T v; std::memcpy(&v, p, sizeof v); return num(static_cast<double>(v)); }
inline std::string value(const C2& c, const F2& f, std::size_t i) {
    const std::size_t o = i * c.point_step + f.offset;
    if (o + size_of(f.datatype) > c.data.size()) return "\"nan\"";
    const std::uint8_t* p = &c.data[o];
    switch (f.datatype) {
        case F2::INT8: return rd<std::int8_t>(p);
        case F2::UINT8: return rd<std::uint8_t>(p);
        case F2::INT16: return rd<std::int16_t>(p);
        case F2::UINT16: return rd<std::uint16_t>(p);
        case F2::INT32: return rd<std::int32_t>(p);
        case F2::UINT32: return rd<std::uint32_t>(p);
        case F2::FLOAT32: return rd<float>(p);
        case F2::FLOAT64: return rd<double>(p);
    }
    return "\"nan\"";
}
inline const F2* find(const C2& c, const std::string& n) { for (auto& f : c.fields) if (f.name == n) return &f; return nullptr; }
inline std::string values(const C2& c, const std::string& n) {
    const F2* f = find(c, n);
    std::string r = "[";
    if (f) for (std::size_t i = 0; i < std::size_t(c.width) * c.height; ++i) { if (i) r += ","; r += value(c, *f, i); }
    return r + "]";
}
template<class T> void wr(C2& c, std::size_t o, double v) { T t = static_cast<T>(v); std::memcpy(&c.data[o], &t, sizeof t); }
inline void put(C2& c, const F2& f, std::size_t i, double v) {
    const std::size_t o = i * c.point_step + f.offset;
    switch (f.datatype) {
        case F2::INT8: wr<std::int8_t>(c, o, v); break;
        case F2::UINT8: wr<std::uint8_t>(c, o, v); break;
        case F2::INT16: wr<std::int16_t>(c, o, v); break;
        case F2::UINT16: wr<std::uint16_t>(c, o, v); break;
        case F2::INT32: wr<std::int32_t>(c, o, v); break;
        case F2::UINT32: wr<std::uint32_t>(c, o, v); break;
        case F2::FLOAT32: wr<float>(c, o, v); break;
        case F2::FLOAT64: wr<double>(c, o, v); break;
    }
}
inline double lim_lo(int t) { switch (t) { case 1: return -128; case 3: return -32768; case 5: return -2147483648.0; case 7: case 8: return -1e6; default: return 0; } }
inline double lim_hi(int t) { switch (t) { case 1: return 127; case 2: return 255; case 3: return 32767; case 4: return 65535; case 5: return 2147483647.0; case 6: return 4294967295.0; default: return 1e6; } }
inline double rand_value(Rng& r, int t) {
    if (t >= 7) switch (r.range(0, 4)) { case 0: return r.range(-20, 20); case 1: return r.real(-1e-3, 1e-3); case 2: return r.real(-1e5, 1e5); default: return r.real(-50, 50); }
    const double lo = lim_lo(t), hi = lim_hi(t);
    switch (r.range(0, 5)) { case 0: return lo; case 1: return hi; case 2: return std::floor(r.real(lo, hi)); default: return std::floor(r.real(std::max(lo, -100.0), std::min(hi, 100.0))); }
}
struct Spec { std::string name; int type; int count; };
// fields in the given order, laid out with optional padding; list order may differ from offset order
inline C2 layout(Rng& r, std::vector<Spec> s, bool padding, bool shuffle) {
    C2 c;
    std::uint32_t off = 0;
    for (auto& x : s) {
        if (padding && r.chance(25)) off += r.range(1, 6);
        F2 f; f.name = x.name; f.offset = off; f.datatype = x.type; f.count = x.count;
        off += size_of(x.type) * x.count;
        c.fields.push_back(f);
    }
    if (padding && r.chance(40)) off += r.range(1, 20);
    if (shuffle) for (std::size_t i = c.fields.size(); i > 1; --i) std::swap(c.fields[i - 1], c.fields[r.range(0, int(i) - 1)]);
    c.point_step = off;
    return c;
}
inline void shape(Rng& r, C2& c, std::uint32_t w, std::uint32_t h) {
    c.width = w; c.height = h; c.row_step = c.point_step * w;
    c.data.resize(std::size_t(c.row_step) * h);
    for (auto& b : c.data) b = std::uint8_t(r.next());
    c.header.stamp = r.chance(20) ? 0 : std::uint64_t(r.range(1, 1700000000)) * 1000000ull + r.range(0, 999999);
    c.header.seq = r.range(0, 1000);
    c.header.frame_id = r.pick(std::vector<std::string>{"lidar", "", "os_sensor", "body"});
    c.is_dense = r.range(0, 1);
    c.is_bigendian = false;
    for (auto& f : c.fields)
        for (std::size_t i = 0; i < std::size_t(w) * h; ++i)
            for (std::uint32_t k = 0; k < f.count; ++k) { F2 e = f; e.offset += k * size_of(f.datatype); put(c, e, i, rand_value(r, f.datatype)); }
}
inline C2 random_cloud(Rng& r, int max_pts = 6, bool plain = false) {
    std::vector<Spec> s;
    if (r.chance(90)) { const int t = r.chance(85) ? 7 : 8; for (auto n : {"x", "y", "z"}) s.push_back({n, t, 1}); }
    for (auto n : {"intensity", "t", "ring", "range", "normal_x", "flag"}) if (r.chance(35)) s.push_back({n, r.range(1, 8), 1});
    if (r.chance(20)) s.push_back({"extra", r.range(1, 8), r.range(2, 4)});
    if (s.empty()) s.push_back({"t", 7, 1});
    if (r.chance(30)) for (std::size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[r.range(0, int(i) - 1)]);
    C2 c = layout(r, s, !plain && r.chance(60), !plain && r.chance(25));
    int h = r.chance(25) ? r.range(2, 3) : 1, w = r.chance(8) ? 0 : r.range(1, std::max(1, max_pts / h));
    shape(r, c, w, h);
    return c;
}
}
