// Exact-time synchroniser with roscpp's semantics (message_filters/sync_policies/exact_time.h): a tuple is emitted when every
// input has a message of the same stamp, older incomplete tuples are then dropped, callbacks run with the lock held.
#pragma once
#include <message_filters/subscriber.h>
#include <mutex>
namespace message_filters {
template<class M, class = void> struct Stamp { static ros::Time get(const M& m) { return m.header.stamp; } };
#ifdef SHIM_PCL
template<class P> struct Stamp<pcl::PointCloud<P>> { static ros::Time get(const pcl::PointCloud<P>& m) { ros::Time t; t.fromNSec(m.header.stamp * 1000ull); return t; } };
template<> struct Stamp<pcl::PCLPointCloud2> { static ros::Time get(const pcl::PCLPointCloud2& m) { ros::Time t; t.fromNSec(m.header.stamp * 1000ull); return t; } };
#endif
template<class... M> class TimeSynchronizer {
public:
    using Tuple = std::tuple<typename shim::Travel<M>::Ptr...>;
    TimeSynchronizer(Subscriber<M>&... s, uint32_t q) : limit(q) { connect(std::index_sequence_for<M...>{}, s...); }
    explicit TimeSynchronizer(uint32_t q) : limit(q) {}
    TimeSynchronizer(const TimeSynchronizer&) = delete;
    void connectInput(Subscriber<M>&... s) { connect(std::index_sequence_for<M...>{}, s...); }
    template<class F> void registerCallback(F f) { cb = [f](const typename shim::Travel<M>::Ptr&... p) mutable { f(p...); }; }
private:
    template<std::size_t... I> void connect(std::index_sequence<I...>, Subscriber<M>&... s) {
        (s.outs.push_back([this](const typename shim::Travel<M>::Ptr& p) { this->template add<I>(p, Stamp<M>::get(*p)); }), ...);
    }
    template<std::size_t I, class P> void add(const P& p, const ros::Time& t) {
        std::lock_guard<std::mutex> g(mutex);
        std::get<I>(tuples[t]) = p;
        Tuple tp = tuples[t];
        if (full(tp, std::index_sequence_for<M...>{})) {
            std::apply([&](const auto&... x) { if (cb) cb(x...); }, tp);
            tuples.erase(t);
            for (auto it = tuples.begin(); it != tuples.end() && it->first <= t;) it = tuples.erase(it);
        }
        if (limit) while (tuples.size() > limit) tuples.erase(tuples.begin());
    }
    template<std::size_t... I> static bool full(const Tuple& t, std::index_sequence<I...>) { return (static_cast<bool>(std::get<I>(t)) && ...); }
    uint32_t limit;
    std::mutex mutex;
    std::map<ros::Time, Tuple> tuples;
    std::function<void(const typename shim::Travel<M>::Ptr&...)> cb;
};
}
