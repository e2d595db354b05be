// Shared by all harnesses: deterministic random numbers, JSON event log (one event per line), fault capture.
#ifndef VH_HPP
#define VH_HPP
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

namespace vh {

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int range(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<std::uint64_t>(hi - lo + 1)); }
    bool chance(int percent) { return range(0, 99) < percent; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    template<class T>
    const T& pick(const std::vector<T>& v) { return v[range(0, static_cast<int>(v.size()) - 1)]; }
};

inline FILE*& out() { static FILE* f = stdout; return f; }
inline long& events() { static long n = 0; return n; }

inline std::string num(double x) {
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40];
    std::snprintf(b, sizeof b, "\"%.17g\"", x);
    return b;
}
inline std::string str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
template<class D>
std::string mat(const Eigen::MatrixBase<D>& m) {
    std::string r = "[";
    for (Eigen::Index i = 0; i < m.rows(); ++i) {
        r += i ? ",[" : "[";
        for (Eigen::Index j = 0; j < m.cols(); ++j) { if (j) r += ","; r += num(static_cast<double>(m(i, j))); }
        r += "]";
    }
    return r + "]";
}
template<class D>
std::string vec(const Eigen::MatrixBase<D>& m) {
    std::string r = "[";
    for (Eigen::Index i = 0; i < m.size(); ++i) { if (i) r += ","; r += num(static_cast<double>(m(i))); }
    return r + "]";
}
template<class T, class F>
std::string list(const T& c, F f) {
    std::string r = "[";
    bool first = true;
    for (const auto& e : c) { if (!first) r += ","; first = false; r += f(e); }
    return r + "]";
}
inline std::string ints(const std::vector<int>& v) { return list(v, [](int i) { return std::to_string(i); }); }
inline std::string nums(const std::vector<double>& v) { return list(v, [](double d) { return num(d); }); }

// One event.  Fields are added in call order; emit() writes and flushes the line.
class Ev {
public:
    explicit Ev(const std::string& op) { s = "{\"op\":" + str(op); }
    Ev& raw(const std::string& k, const std::string& json) { s += "," + str(k) + ":" + json; return *this; }
    Ev& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
    Ev& d(const std::string& k, double v) { return raw(k, num(v)); }
    Ev& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    Ev& t(const std::string& k, const std::string& v) { return raw(k, str(v)); }
    template<class D> Ev& m(const std::string& k, const Eigen::MatrixBase<D>& v) { return raw(k, mat(v)); }
    template<class D> Ev& v(const std::string& k, const Eigen::MatrixBase<D>& v) { return raw(k, vec(v)); }
    Ev& T(const std::string& k, const Eigen::Isometry3d& x) { return m(k, x.matrix().topRows<3>()); }
    void emit() {
        s += "}\n";
        std::fputs(s.c_str(), out());
        std::fflush(out());
        ++events();
    }
    std::string s;
};

// The last thing the harness was about to do: written before the call so that a crash or hang can be attributed.
inline std::string& note_path() { static std::string p; return p; }
inline void note(const std::string& what) {
    if (note_path().empty()) return;
    FILE* f = std::fopen(note_path().c_str(), "w");
    if (f) { std::fputs(what.c_str(), f); std::fclose(f); }
}

// Run f; true if it threw.
template<class F>
bool threw(F f) {
    try { f(); } catch (const std::exception&) { return true; } catch (...) { return true; }
    return false;
}

// Random inputs shared by the numeric harnesses
inline Eigen::Vector3d rand_vec(Rng& r, double scale) { return {r.real(-scale, scale), r.real(-scale, scale), r.real(-scale, scale)}; }
inline Eigen::Vector3d rand_dir(Rng& r) {
    for (;;) { Eigen::Vector3d v = rand_vec(r, 1.0); if (v.norm() > 0.1 && v.norm() <= 1.0) return v.normalized(); }
}
inline Eigen::Quaterniond rand_rot(Rng& r) {
    switch (r.range(0, 7)) {
        case 0: return Eigen::Quaterniond::Identity();
        case 1: return Eigen::Quaterniond(Eigen::AngleAxisd(r.range(-3, 3) * M_PI_2, Eigen::Vector3d::Unit(r.range(0, 2))));
        case 2: return Eigen::Quaterniond(Eigen::AngleAxisd(r.pick(std::vector<double>{1e-9, 1e-6, 1e-4, 1e-3, 1e-2}), rand_dir(r)));
        case 3: return Eigen::Quaterniond(Eigen::AngleAxisd(M_PI - r.pick(std::vector<double>{1e-3, 1e-2, 0.1}), rand_dir(r)));
        case 4: return Eigen::Quaterniond(Eigen::AngleAxisd(M_PI, rand_dir(r)));
        default: return Eigen::Quaterniond(Eigen::AngleAxisd(r.real(0.0, M_PI), rand_dir(r)));
    }
}
inline Eigen::Isometry3d rand_iso(Rng& r, double scale = 10.0) {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    T.linear() = rand_rot(r).toRotationMatrix();
    switch (r.range(0, 5)) {
        case 0: break;
        case 1: T.translation() = Eigen::Vector3d::Unit(r.range(0, 2)) * r.range(-5, 5); break;
        case 2: T.translation() = rand_vec(r, scale * 100.0); break;
        case 3: T.translation() = rand_vec(r, scale * 1e-3); break;
        default: T.translation() = rand_vec(r, scale);
    }
    return T;
}
template<int N>
Eigen::Matrix<double, N, N> rand_spd(Rng& r, double scale = 1.0) {
    Eigen::Matrix<double, N, N> A;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A(i, j) = r.real(-1, 1);
    Eigen::Matrix<double, N, N> S = scale * (A * A.transpose() + 0.1 * Eigen::Matrix<double, N, N>::Identity());
    return (S + S.transpose().eval()) * 0.5;
}

struct Args { std::string group; std::uint64_t seed; int count; int part; };
// argv: group seed count part out.ndjson
inline Args start(int argc, char** argv) {
    if (argc < 6) { std::fprintf(stderr, "usage: %s group seed count part out\n", argv[0]); std::exit(64); }
    Args a{argv[1], std::strtoull(argv[2], nullptr, 10), std::atoi(argv[3]), std::atoi(argv[4])};
    out() = std::fopen(argv[5], "w");
    if (!out()) { std::perror(argv[5]); std::exit(64); }
    note_path() = std::string(argv[5]) + ".note";
    return a;
}
inline int finish() {
    Ev("end").i("n", events()).emit();
    std::fclose(out());
    return 0;
}
}
#endif
