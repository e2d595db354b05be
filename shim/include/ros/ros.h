// A stand-in for roscpp: parameters, topics and services of one process, and a cooperative scheduler for callbacks.
//
// Topics: publish() records the message (taps) and queues it for every subscription of the topic in this process.  As in
// roscpp, each subscription handles one message at a time, in order.
// Scheduling: a callback runs in a thread of its own, but only one runs at a time.  It gives way when it sleeps
// (ros::Duration::sleep), when it finds a mutex taken, and - if preemption is on - before it takes any mutex.
#pragma once
#include <any>
#include <boost/weak_ptr.hpp>
#include <boost/any.hpp>
#include <boost/array.hpp>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/optional.hpp>
#include <boost/shared_ptr.hpp>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <semaphore.h>
#include <ros/time.h>
#include <shim_same.h>
#ifdef SHIM_PCL
#include <pcl/PCLPointCloud2.h>
#include <pcl/point_cloud.h>
#include <pcl/conversions.h>
#include <sensor_msgs/PointCloud2.h>
#endif
using namespace boost::placeholders;

namespace XmlRpc {
struct XmlRpcException : std::runtime_error { using std::runtime_error::runtime_error; };
class XmlRpcValue {
public:
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    using ValueStruct = std::map<std::string, XmlRpcValue>;
    using iterator = ValueStruct::iterator;
    using const_iterator = ValueStruct::const_iterator;
    XmlRpcValue() {}
    XmlRpcValue(bool v) : t(TypeBoolean), b(v) {}
    XmlRpcValue(int v) : t(TypeInt), i(v) {}
    XmlRpcValue(double v) : t(TypeDouble), d(v) {}
    XmlRpcValue(const std::string& v) : t(TypeString), s(v) {}
    XmlRpcValue(const char* v) : t(TypeString), s(v) {}
    template<class T> XmlRpcValue(const std::vector<T>& v) : t(TypeArray) { for (const auto& x : v) a.emplace_back(x); }
    Type getType() const { return t; }
    bool valid() const { return t != TypeInvalid; }
    int size() const { if (t == TypeArray) return a.size(); if (t == TypeStruct) return m.size(); if (t == TypeString) return s.size(); throw XmlRpcException("type error"); }
    bool hasMember(const std::string& k) const { return t == TypeStruct && m.count(k); }
    operator const bool&() const { need(TypeBoolean); return b; }
    operator const int&() const { need(TypeInt); return i; }
    operator const double&() const { need(TypeDouble); return d; }
    operator const std::string&() const { need(TypeString); return s; }
    operator bool&() { need(TypeBoolean); return b; }
    operator int&() { need(TypeInt); return i; }
    operator double&() { need(TypeDouble); return d; }
    operator std::string&() { need(TypeString); return s; }
    const XmlRpcValue& operator[](int k) const { need(TypeArray); return a.at(k); }
    XmlRpcValue& operator[](int k) { if (t == TypeInvalid) t = TypeArray; need(TypeArray); if ((int)a.size() <= k) a.resize(k + 1); return a[k]; }
    const XmlRpcValue& operator[](const std::string& k) const { need(TypeStruct); auto it = m.find(k); if (it == m.end()) throw XmlRpcException("no member " + k); return it->second; }
    const XmlRpcValue& operator[](const char* k) const { return (*this)[std::string(k)]; }
    XmlRpcValue& operator[](const std::string& k) { if (t == TypeInvalid) t = TypeStruct; need(TypeStruct); return m[k]; }
    XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
    iterator begin() { return m.begin(); }
    iterator end() { return m.end(); }
    const_iterator begin() const { return m.begin(); }
    const_iterator end() const { return m.end(); }
    void make_struct() { if (t == TypeInvalid) t = TypeStruct; }
    void make_array() { if (t == TypeInvalid) t = TypeArray; }
    void need(Type x) const { if (t != x) throw XmlRpcException("type error"); }
private:
    Type t = TypeInvalid;
    bool b = false;
    int i = 0;
    double d = 0;
    std::string s;
    std::vector<XmlRpcValue> a;
    ValueStruct m;
};
}

namespace shim {
// ---- parameters (namespaces are dropped)
inline std::map<std::string, XmlRpc::XmlRpcValue>& params() { static std::map<std::string, XmlRpc::XmlRpcValue> p; return p; }
// "a/b/c": as stored, or member b/c of the tree stored under "a"
inline XmlRpc::XmlRpcValue* find_param(const std::string& k) {
    auto it = params().find(k);
    if (it != params().end()) return &it->second;
    std::size_t at = k.find('/');
    if (at == std::string::npos || !(params().count(k.substr(0, at)))) return nullptr;
    XmlRpc::XmlRpcValue* v = &params()[k.substr(0, at)];
    while (at != std::string::npos) {
        const std::size_t n = k.find('/', at + 1);
        const std::string m = k.substr(at + 1, n == std::string::npos ? n : n - at - 1);
        if (v->getType() != XmlRpc::XmlRpcValue::TypeStruct || !v->hasMember(m)) return nullptr;
        v = &(*v)[m];
        at = n;
    }
    return v;
}
template<class T> bool param_as(const XmlRpc::XmlRpcValue& v, T& out);
inline bool num_as(const XmlRpc::XmlRpcValue& v, double& d) {
    if (v.getType() == XmlRpc::XmlRpcValue::TypeDouble) { d = static_cast<const double&>(v); return true; }
    if (v.getType() == XmlRpc::XmlRpcValue::TypeInt) { d = static_cast<const int&>(v); return true; }
    return false;
}
template<> inline bool param_as(const XmlRpc::XmlRpcValue& v, double& o) { return num_as(v, o); }
template<> inline bool param_as(const XmlRpc::XmlRpcValue& v, float& o) { double d; if (!num_as(v, d)) return false; o = d; return true; }
template<> inline bool param_as(const XmlRpc::XmlRpcValue& v, int& o) { double d; if (!num_as(v, d)) return false; o = d; return true; }
template<> inline bool param_as(const XmlRpc::XmlRpcValue& v, bool& o) { if (v.getType() != XmlRpc::XmlRpcValue::TypeBoolean) return false; o = static_cast<const bool&>(v); return true; }
template<> inline bool param_as(const XmlRpc::XmlRpcValue& v, std::string& o) { if (v.getType() != XmlRpc::XmlRpcValue::TypeString) return false; o = static_cast<const std::string&>(v); return true; }
template<> inline bool param_as(const XmlRpc::XmlRpcValue& v, XmlRpc::XmlRpcValue& o) { o = v; return true; }
template<class T> bool param_as(const XmlRpc::XmlRpcValue& v, std::vector<T>& o) {
    if (v.getType() != XmlRpc::XmlRpcValue::TypeArray) return false;
    std::vector<T> r(v.size());
    for (int i = 0; i < v.size(); ++i) { T x; if (!param_as(v[i], x)) return false; r[i] = x; }
    o = r;
    return true;
}

// ---- message types as they travel: boost pointers for ROS messages, one binary cloud type for all clouds
template<class M, class = void> struct Travel {
    using Ptr = boost::shared_ptr<const M>;
    static std::any in(const M& m) { return std::any(Ptr(new M(m))); }
    static std::any in(const Ptr& p) { return std::any(p); }
    static Ptr out(const std::any& a) { return std::any_cast<Ptr>(a); }
};
template<class M> struct IsCloud : std::false_type {};
#ifdef SHIM_PCL
template<> struct IsCloud<pcl::PCLPointCloud2> : std::true_type {};
template<class P> struct IsCloud<pcl::PointCloud<P>> : std::true_type {};
template<> struct IsCloud<sensor_msgs::PointCloud2> : std::true_type {};
using CloudPtr = std::shared_ptr<const pcl::PCLPointCloud2>;
template<> struct Travel<pcl::PCLPointCloud2> {
    using Ptr = std::shared_ptr<const pcl::PCLPointCloud2>;
    static std::any in(const pcl::PCLPointCloud2& m) { return std::any(CloudPtr(new pcl::PCLPointCloud2(m))); }
    static std::any in(const Ptr& p) { return in(*p); }
    static Ptr out(const std::any& a) { return std::any_cast<CloudPtr>(a); }
};
template<class P> struct Travel<pcl::PointCloud<P>> {
    using Ptr = std::shared_ptr<const pcl::PointCloud<P>>;
    static std::any in(const pcl::PointCloud<P>& m) { auto c = std::make_shared<pcl::PCLPointCloud2>(); pcl::toPCLPointCloud2(m, *c); return std::any(CloudPtr(c)); }
    static std::any in(const Ptr& p) { return in(*p); }
    static Ptr out(const std::any& a) { auto c = std::make_shared<pcl::PointCloud<P>>(); pcl::fromPCLPointCloud2(*std::any_cast<CloudPtr>(a), *c); return c; }
};
template<> struct Travel<sensor_msgs::PointCloud2> {
    using Ptr = boost::shared_ptr<const sensor_msgs::PointCloud2>;
    static std::any in(const sensor_msgs::PointCloud2& m) {
        auto c = std::make_shared<pcl::PCLPointCloud2>();
        c->header.seq = m.header.seq; c->header.stamp = m.header.stamp.toNSec() / 1000ull; c->header.frame_id = m.header.frame_id;
        c->height = m.height; c->width = m.width; c->is_bigendian = m.is_bigendian; c->point_step = m.point_step; c->row_step = m.row_step;
        c->is_dense = m.is_dense; c->data = m.data;
        for (const auto& f : m.fields) { pcl::PCLPointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; c->fields.push_back(g); }
        return std::any(CloudPtr(c));
    }
    static std::any in(const Ptr& p) { return in(*p); }
    static Ptr out(const std::any& a) {
        const auto c = std::any_cast<CloudPtr>(a);
        boost::shared_ptr<sensor_msgs::PointCloud2> m(new sensor_msgs::PointCloud2);
        m->header.seq = c->header.seq; m->header.stamp.fromNSec(c->header.stamp * 1000ull); m->header.frame_id = c->header.frame_id;
        m->height = c->height; m->width = c->width; m->is_bigendian = c->is_bigendian; m->point_step = c->point_step; m->row_step = c->row_step;
        m->is_dense = c->is_dense; m->data = c->data;
        for (const auto& f : c->fields) { sensor_msgs::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; m->fields.push_back(g); }
        return m;
    }
};
#endif
// Has a published message kept its content?  (a is what was recorded when it was published)
template<class M> bool unchanged(const M& m, const std::any& a) {
#ifdef SHIM_PCL
    if (const CloudPtr* c = std::any_cast<CloudPtr>(&a)) {
        const CloudPtr d = std::any_cast<CloudPtr>(Travel<M>::in(m));
        const auto &x = **c, &y = *d;
        bool f = x.fields.size() == y.fields.size();
        for (std::size_t i = 0; f && i < x.fields.size(); ++i) f = x.fields[i].name == y.fields[i].name && x.fields[i].offset == y.fields[i].offset && x.fields[i].datatype == y.fields[i].datatype && x.fields[i].count == y.fields[i].count;
        return f && x.header.stamp == y.header.stamp && x.header.frame_id == y.header.frame_id && x.height == y.height && x.width == y.width && x.point_step == y.point_step && x.row_step == y.row_step && x.is_dense == y.is_dense && x.data == y.data;
    } else
#endif
    if constexpr (!IsCloud<M>::value) return same(m, *std::any_cast<boost::shared_ptr<const M>>(a));
    else return true;
}
template<class P> struct Pointee;
template<class T> struct Pointee<boost::shared_ptr<T>> { using type = std::remove_const_t<T>; };
template<class T> struct Pointee<std::shared_ptr<T>> { using type = std::remove_const_t<T>; };

// ---- scheduler
struct Task {
    enum State { READY, SLEEPING, BLOCKED, LOCKING, DONE };
    std::string name;
    std::function<void()> fn;
    State state = READY;
    void* wants = nullptr;              // the mutex it is about to take
    std::multiset<void*> held;          // mutexes it holds
    bool failed = false;
    std::string error;
    sem_t go, back;
    std::thread th;
    std::function<void()> on_done;
    int id = 0;
};
struct Sched {
    std::vector<std::unique_ptr<Task>> tasks;
    bool preempt = false;
    int next_id = 1;
    std::function<void(Task&)> on_finish;
    static Sched& get() { static Sched* s = new Sched; return *s; }
    static Task*& self() { static thread_local Task* t = nullptr; return t; }
    Task& spawn(const std::string& name, std::function<void()> fn, std::function<void()> on_done = {}) {
        auto t = std::make_unique<Task>();
        t->name = name; t->fn = std::move(fn); t->on_done = std::move(on_done); t->id = next_id++;
        sem_init(&t->go, 0, 0); sem_init(&t->back, 0, 0);
        Task* p = t.get();
        p->th = std::thread([p] {
            while (sem_wait(&p->go)) {}
            self() = p;
            try { p->fn(); } catch (const std::exception& e) { p->failed = true; p->error = e.what(); } catch (...) { p->failed = true; p->error = "unknown"; }
            self() = nullptr;
            p->state = Task::DONE;
            sem_post(&p->back);
        });
        tasks.push_back(std::move(t));
        return *p;
    }
    // run one task until it gives way; returns true if it finished
    bool step(Task& t) {
        t.state = Task::READY;
        sem_post(&t.go);
        while (sem_wait(&t.back)) {}
        if (t.state != Task::DONE) return false;
        t.th.join();
        if (t.on_done) t.on_done();
        if (on_finish) on_finish(t);
        for (auto it = tasks.begin(); it != tasks.end(); ++it) if (it->get() == &t) { finished_with_locks += !t.held.empty(); sem_destroy(&t.go); sem_destroy(&t.back); tasks.erase(it); break; }
        return true;
    }
    void give_way(Task::State s) {
        Task* t = self();
        if (!t) return;
        t->state = s;
        sem_post(&t->back);
        while (sem_wait(&t->go)) {}
    }
    int finished_with_locks = 0;
    int misused = 0;                    // mutexes given back by a task that did not hold them
};
inline double& clock_now() { static double t = 1000.0; t += 1e-6; return t; }
inline void on_sleep() { Sched::get().give_way(Task::SLEEPING); }
// what a program's main function asks for
inline std::function<void(const std::string&)>& init_hook() { static std::function<void(const std::string&)> f; return f; }
inline std::function<void(std::uint32_t)>& spin_hook() { static std::function<void(std::uint32_t)> f; return f; }
inline std::function<void()>& wait_hook() { static std::function<void()> f; return f; }
inline bool& ok_flag() { static bool ok = true; return ok; }

// ---- topics
struct Subscription {
    std::string topic;
    std::function<void(const std::any&)> call;
    std::deque<std::any> queue;
    bool busy = false, alive = true;
    std::size_t limit = 0;
    std::size_t dropped = 0;
};
struct Bus {
    std::vector<std::shared_ptr<Subscription>> subs;
    std::vector<std::function<void(const std::string&, const std::any&)>> taps;
    std::map<std::string, std::function<bool(void*, void*)>> services;
    std::map<std::string, std::pair<int, bool>> adverts;      // topic -> times advertised, latched
    std::map<std::string, std::any> latest;                   // what a program that waits for one message is given
    bool route = false;      // deliver published messages to the subscriptions of this process
    bool record = true;
    static Bus& get() { static Bus* b = new Bus; return *b; }
    void inject(const std::string& topic, const std::any& m) {
        for (auto& s : subs) if (s->alive && s->topic == topic) {
            s->queue.push_back(m);
            if (s->limit && s->queue.size() > s->limit) { s->queue.pop_front(); ++s->dropped; }
        }
    }
    void published(const std::string& topic, const std::any& m) {
        if (record) for (auto& t : taps) t(topic, m);
        if (route) inject(topic, m);
    }
    // Messages published through a pointer are shared with the subscribers of the same program: they must not change any more
    struct Shared { std::string topic; std::shared_ptr<const void> keep; std::function<int()> look; };      // look: 0 gone, 1 as it was, 2 changed
    std::vector<Shared> shared;
    std::vector<std::string> changed() {
        std::vector<std::string> r;
        std::vector<Shared> left;
        for (auto& h : shared) {
            const int n = h.look();
            if (n == 2) r.push_back(h.topic);
            h.keep.reset();
            if (n == 1) left.push_back(std::move(h));
        }
        shared.swap(left);
        return r;
    }
    template<class Q, class W> void handed(const std::string& topic, const Q& m, const W& weak, const std::any& a) {
        using M = std::remove_const_t<typename Q::element_type>;
        shared.push_back({topic, std::make_shared<Q>(m), [weak, a] { const auto p = weak.lock(); return !p ? 0 : unchanged<M>(*p, a) ? 1 : 2; }});
    }
    // can a queued message be handed to its callback?
    std::vector<std::shared_ptr<Subscription>> startable() const {
        std::vector<std::shared_ptr<Subscription>> r;
        for (const auto& s : subs) if (s->alive && !s->busy && !s->queue.empty()) r.push_back(s);
        return r;
    }
    Task& start(const std::shared_ptr<Subscription>& s) {
        const std::any m = s->queue.front();
        s->queue.pop_front();
        s->busy = true;
        return Sched::get().spawn(s->topic, [s, m] { s->call(m); }, [s] { s->busy = false; });
    }
    void reset() { for (auto& s : subs) s->alive = false; subs.clear(); taps.clear(); services.clear(); adverts.clear(); latest.clear(); shared.clear(); route = false; }
};
template<class M> void send(const std::string& topic, const M& m) { Bus::get().inject(topic, Travel<M>::in(m)); }
// reports messages that changed after they were published
inline std::function<void(const std::string&)>& changed_hook() { static std::function<void(const std::string&)> f; return f; }
inline void look() { for (const auto& t : Bus::get().changed()) if (changed_hook()) changed_hook()(t); }
inline void reset() { look(); Bus::get().reset(); params().clear(); ok_flag() = true; Sched::get().preempt = false; Sched::get().finished_with_locks = 0; Sched::get().on_finish = {}; }
}

namespace ros {
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } };
struct Publisher {
    std::string topic;
    template<class M> void publish(const boost::shared_ptr<M>& m) const { const auto a = shim::Travel<std::remove_const_t<M>>::in(*m); shim::Bus::get().handed(topic, m, boost::weak_ptr<M>(m), a); shim::Bus::get().published(topic, a); }
    template<class M> void publish(const std::shared_ptr<M>& m) const { const auto a = shim::Travel<std::remove_const_t<M>>::in(*m); shim::Bus::get().handed(topic, m, std::weak_ptr<M>(m), a); shim::Bus::get().published(topic, a); }
    template<class M> void publish(const M& m) const { shim::Bus::get().published(topic, shim::Travel<M>::in(m)); }
    std::string getTopic() const { return topic; }
    uint32_t getNumSubscribers() const { return 1; }
    void shutdown() {}
};
struct Subscriber {
    std::shared_ptr<shim::Subscription> s;
    std::string getTopic() const { return s ? s->topic : ""; }
    void shutdown() { if (s) { s->alive = false; s->queue.clear(); } }
};
struct ServiceServer { std::string name; };
class NodeHandle {
public:
    explicit NodeHandle(const std::string& n = "") : ns(n) {}
    template<class T> bool param(const std::string& k, T& out, const T& def) const { if (getParam(k, out)) return true; out = def; return false; }
    template<class T> T param(const std::string& k, const T& def) const { T v; return getParam(k, v) ? v : def; }
    template<class T> bool getParam(const std::string& k, T& out) const { auto* v = shim::find_param(k); return v && shim::param_as(*v, out); }
    bool hasParam(const std::string& k) const { return shim::find_param(k) != nullptr; }
    template<class M> Publisher advertise(const std::string& t, uint32_t, bool latch = false) { auto& a = shim::Bus::get().adverts[t]; ++a.first; a.second = latch; return Publisher{t}; }
    template<class M, class C, class A> Subscriber subscribe(const std::string& t, uint32_t q, void (C::*f)(A), C* o, const TransportHints& = TransportHints()) {
        using P = std::decay_t<A>;
        using T = typename shim::Pointee<P>::type;
        return add(t, q, [f, o](const std::any& m) { (o->*f)(shim::Travel<T>::out(m)); });
    }
    Subscriber add(const std::string& t, uint32_t q, std::function<void(const std::any&)> f) {
        auto s = std::make_shared<shim::Subscription>();
        s->topic = t; s->call = std::move(f); s->limit = q;
        shim::Bus::get().subs.push_back(s);
        return Subscriber{s};
    }
    template<class C, class Q, class R> ServiceServer advertiseService(const std::string& n, bool (C::*f)(Q&, R&), C* o) {
        shim::Bus::get().services[n] = [f, o](void* a, void* b) { return (o->*f)(*static_cast<Q*>(a), *static_cast<R*>(b)); };
        return ServiceServer{n};
    }
    std::string getNamespace() const { return ns; }
private:
    std::string ns;
};
struct AsyncSpinner { std::uint32_t n; explicit AsyncSpinner(std::uint32_t threads) : n(threads) {} void start() { if (shim::spin_hook()) shim::spin_hook()(n); } void stop() {} };
inline void init(int, char**, const std::string& name, uint32_t = 0) { if (shim::init_hook()) shim::init_hook()(name); }
inline bool ok() { return shim::ok_flag(); }
inline void shutdown() { shim::ok_flag() = false; }
inline void requestShutdown() { shim::ok_flag() = false; }
inline void spin() {}
inline void spinOnce() {}
inline void waitForShutdown() { if (shim::wait_hook()) shim::wait_hook()(); }
namespace topic {
template<class M> boost::shared_ptr<M const> waitForMessage(const std::string& t, NodeHandle&, Duration) {
    auto& l = shim::Bus::get().latest;
    auto it = l.find(t);
    if (it == l.end()) return {};
    return boost::shared_ptr<M const>(new M(*shim::Travel<M>::out(it->second)));
}
}
}
#define SHIM_LOG(x) do { if (false) { std::stringstream shim_ss; shim_ss << x; } } while (0)
#define SHIM_LOGF(...) do { if (false) std::printf(__VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM(x) SHIM_LOG(x)
#define ROS_INFO_STREAM(x) SHIM_LOG(x)
#define ROS_WARN_STREAM(x) SHIM_LOG(x)
#define ROS_ERROR_STREAM(x) SHIM_LOG(x)
#define ROS_FATAL_STREAM(x) SHIM_LOG(x)
#define ROS_WARN_STREAM_ONCE(x) SHIM_LOG(x)
#define ROS_INFO_STREAM_ONCE(x) SHIM_LOG(x)
#define ROS_DEBUG_STREAM_THROTTLE(r, x) SHIM_LOG(x)
#define ROS_INFO_STREAM_THROTTLE(r, x) SHIM_LOG(x)
#define ROS_WARN_STREAM_THROTTLE(r, x) SHIM_LOG(x)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) SHIM_LOG(x); } while (0)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) SHIM_LOG(x); } while (0)
#define ROS_DEBUG_STREAM_COND(c, x) do { if (c) SHIM_LOG(x); } while (0)
#define ROS_DEBUG(...) SHIM_LOGF(__VA_ARGS__)
#define ROS_INFO(...) SHIM_LOGF(__VA_ARGS__)
#define ROS_WARN(...) SHIM_LOGF(__VA_ARGS__)
#define ROS_ERROR(...) SHIM_LOGF(__VA_ARGS__)
#define ROS_FATAL(...) SHIM_LOGF(__VA_ARGS__)
#define ROS_WARN_ONCE(...) SHIM_LOGF(__VA_ARGS__)
#define ROS_INFO_ONCE(...) SHIM_LOGF(__VA_ARGS__)
#define ROS_WARN_COND(c, ...) do { if (c) SHIM_LOGF(__VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) SHIM_LOGF(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) SHIM_LOGF(__VA_ARGS__); } while (0)
