// ros::Time, ros::Duration, ros::WallTime with roscpp's arithmetic (32-bit sec/nsec, rounding and range checks).
#pragma once
#include <cmath>
#include <cstdint>
#include <iomanip>
#include <iostream>
#include <limits>
#include <stdexcept>
namespace shim { void on_sleep(); double& clock_now(); }
namespace ros {
inline void normalizeSecNSecSigned(int64_t& sec, int64_t& nsec) {
    int64_t n = nsec % 1000000000LL, s = sec + nsec / 1000000000LL;
    if (n < 0) { n += 1000000000LL; --s; }
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max()) throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = s; nsec = n;
}
template<class T> struct DurationBase {
    int32_t sec = 0, nsec = 0;
    DurationBase() {}
    DurationBase(int32_t s, int32_t n) { int64_t a = s, b = n; normalizeSecNSecSigned(a, b); sec = a; nsec = b; }
    explicit DurationBase(double t) { fromSec(t); }
    T& fromSec(double d) {
        int64_t s64 = static_cast<int64_t>(std::floor(d));
        if (!(d > -2147483649.0 && d < 2147483648.0)) throw std::runtime_error("Duration is out of dual 32-bit range");
        int64_t n = static_cast<int64_t>(std::round((d - s64) * 1e9));
        s64 += n / 1000000000LL; n %= 1000000000LL;
        sec = static_cast<int32_t>(s64); nsec = static_cast<int32_t>(n);
        return static_cast<T&>(*this);
    }
    T& fromNSec(int64_t t) { int64_t s = t / 1000000000LL, n = t % 1000000000LL; normalizeSecNSecSigned(s, n); sec = s; nsec = n; return static_cast<T&>(*this); }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
    T operator+(const T& r) const { T t; int64_t s = (int64_t)sec + r.sec, n = (int64_t)nsec + r.nsec; normalizeSecNSecSigned(s, n); t.sec = s; t.nsec = n; return t; }
    T operator-(const T& r) const { T t; int64_t s = (int64_t)sec - r.sec, n = (int64_t)nsec - r.nsec; normalizeSecNSecSigned(s, n); t.sec = s; t.nsec = n; return t; }
    T operator-() const { T t; int64_t s = -(int64_t)sec, n = -(int64_t)nsec; normalizeSecNSecSigned(s, n); t.sec = s; t.nsec = n; return t; }
    T operator*(double k) const { return T(toSec() * k); }
    T& operator+=(const T& r) { return static_cast<T&>(*this) = *this + r; }
    T& operator-=(const T& r) { return static_cast<T&>(*this) = *this - r; }
    bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const T& r) const { return !(*this == r); }
    bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
    bool operator>(const T& r) const { return sec > r.sec || (sec == r.sec && nsec > r.nsec); }
    bool operator<=(const T& r) const { return !(*this > r); }
    bool operator>=(const T& r) const { return !(*this < r); }
    bool isZero() const { return sec == 0 && nsec == 0; }
    bool sleep() const { shim::on_sleep(); return true; }
};
struct Duration : DurationBase<Duration> { using DurationBase<Duration>::DurationBase; Duration() {} };
struct WallDuration : DurationBase<WallDuration> { using DurationBase<WallDuration>::DurationBase; WallDuration() {} };
template<class T, class D> struct TimeBase {
    uint32_t sec = 0, nsec = 0;
    TimeBase() {}
    TimeBase(uint32_t s, uint32_t n) { uint64_t a = (uint64_t)s + n / 1000000000u; if (a > 0xffffffffull) throw std::runtime_error("Time is out of dual 32-bit range"); sec = a; nsec = n % 1000000000u; }
    explicit TimeBase(double t) { fromSec(t); }
    T& fromSec(double t) {
        const int64_t s64 = static_cast<int64_t>(std::floor(t));
        if (s64 < 0 || s64 > 0xffffffffLL || std::isnan(t)) throw std::runtime_error("Time is out of dual 32-bit range");
        sec = static_cast<uint32_t>(s64);
        nsec = static_cast<uint32_t>(std::round((t - sec) * 1e9));
        sec += nsec / 1000000000u; nsec %= 1000000000u;
        return static_cast<T&>(*this);
    }
    T& fromNSec(uint64_t t) { const uint64_t s = t / 1000000000ull; if (s > 0xffffffffull) throw std::runtime_error("Time is out of dual 32-bit range"); sec = s; nsec = t % 1000000000ull; return static_cast<T&>(*this); }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
    D operator-(const T& r) const { D d; int64_t s = (int64_t)sec - r.sec, n = (int64_t)nsec - r.nsec; normalizeSecNSecSigned(s, n); d.sec = s; d.nsec = n; return d; }
    T operator+(const D& r) const {
        int64_t s = (int64_t)sec + r.sec, n = (int64_t)nsec + r.nsec;
        s += n / 1000000000LL; n %= 1000000000LL;
        if (n < 0) { n += 1000000000LL; --s; }
        if (s < 0 || s > 0xffffffffLL) throw std::runtime_error("Time is out of dual 32-bit range");
        T t; t.sec = s; t.nsec = n; return t;
    }
    T operator-(const D& r) const { return *this + (-r); }
    T& operator+=(const D& r) { return static_cast<T&>(*this) = *this + r; }
    T& operator-=(const D& r) { return static_cast<T&>(*this) = *this + (-r); }
    bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const T& r) const { return !(*this == r); }
    bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
    bool operator>(const T& r) const { return sec > r.sec || (sec == r.sec && nsec > r.nsec); }
    bool operator<=(const T& r) const { return !(*this > r); }
    bool operator>=(const T& r) const { return !(*this < r); }
    bool isZero() const { return sec == 0 && nsec == 0; }
};
struct Time : TimeBase<Time, Duration> { using TimeBase<Time, Duration>::TimeBase; Time() {} static Time now() { return Time(shim::clock_now()); } };
struct WallTime : TimeBase<WallTime, WallDuration> { using TimeBase<WallTime, WallDuration>::TimeBase; WallTime() {} static WallTime now() { return WallTime(shim::clock_now()); } };
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.sec << "." << std::setw(9) << std::setfill('0') << t.nsec; }
inline std::ostream& operator<<(std::ostream& os, const Duration& d) { return os << d.toSec(); }
}
