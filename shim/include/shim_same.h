// Bitwise comparison of messages: a message that was published must not change afterwards, because subscribers in the same
// program share it.
#pragma once
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/array.hpp>
#include <ros/time.h>
namespace shim {
template<class T> std::enable_if_t<std::is_arithmetic<T>::value, bool> same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
inline bool same(const std::string& a, const std::string& b) { return a == b; }
inline bool same(const ros::Time& a, const ros::Time& b) { return a == b; }
inline bool same(const ros::Duration& a, const ros::Duration& b) { return a == b; }
template<class T> std::enable_if_t<std::is_class<T>::value, bool> same(const T& a, const T& b) { return shim_same(a, b); }
template<class T> bool same(const std::vector<T>& a, const std::vector<T>& b) {
    if (a.size() != b.size()) return false;
    if constexpr (std::is_arithmetic<T>::value) return a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0;
    else { for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
}
template<class T, std::size_t N> bool same(const boost::array<T, N>& a, const boost::array<T, N>& b) { for (std::size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false; return true; }
}
