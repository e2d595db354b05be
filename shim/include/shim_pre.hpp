// Force-included first.  /repo is written for PCL 1.10, whose pointers are boost's; those of the installed PCL 1.14 are std's.
// boost::make_shared<T> therefore makes a std::shared_ptr when T's own Ptr type is one (PCL types and what derives from them).
#pragma once
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <type_traits>
#include <vector>
#define make_shared shim_boost_make_shared
#include <boost/smart_ptr/make_shared.hpp>
#include <boost/smart_ptr/make_shared_object.hpp>
#include <boost/smart_ptr/make_shared_array.hpp>
#undef make_shared
#include <boost/smart_ptr/shared_ptr.hpp>
namespace shim {
template<class P> struct is_std_ptr : std::false_type {};
template<class T> struct is_std_ptr<std::shared_ptr<T>> : std::true_type {};
template<class T, class = void> struct wants_std : std::false_type {};
template<class T> struct wants_std<T, std::void_t<typename T::Ptr>> : is_std_ptr<typename T::Ptr> {};
template<class T, class A> struct wants_std<std::vector<T, A>, void> : std::true_type {};  // pcl::Correspondences, pcl::Indices
}
namespace boost {
template<class T, class... A>
std::enable_if_t<shim::wants_std<T>::value, std::shared_ptr<T>> make_shared(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
template<class T, class... A>
std::enable_if_t<!shim::wants_std<T>::value, boost::shared_ptr<T>> make_shared(A&&... a) { return boost::shim_boost_make_shared<T>(std::forward<A>(a)...); }
}
