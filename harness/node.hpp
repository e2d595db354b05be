// Drives a node on the shim: messages are handed to callbacks and callbacks advanced in a random but repeatable order.
#pragma once
#include "vh.hpp"
#include <ros/ros.h>
#include "changed.hpp"
namespace vh {
struct Driver {
    Rng r;
    std::function<void(const std::string&, const std::any&, shim::Task&)> on_start;   // a message is handed to its callback
    std::function<void(shim::Task&)> on_finish;
    bool dies = false, dead = false;      // an exception in a callback ends the process
    int threads = 0;      // 0: as many callbacks at a time as there are subscriptions
    explicit Driver(std::uint64_t seed) : r(seed) {
        shim::Sched::get().on_finish = [this](shim::Task& t) { ++finished; if (!t.held.empty()) ++locked; if (dies && t.failed) dead = true; if (on_finish) on_finish(t); };
    }
    ~Driver() { shim::Sched::get().on_finish = {}; }
    long finished = 0;
    int locked = 0;
    bool step() {
        auto& s = shim::Sched::get();
        auto subs = shim::Bus::get().startable();
        if (threads && int(s.tasks.size()) >= threads) subs.clear();
        const int n = int(subs.size() + s.tasks.size());
        if (!n) return false;
        const int k = r.range(0, n - 1);
        if (k < int(subs.size())) begin(subs[k]);
        else s.step(*s.tasks[k - subs.size()]);
        return true;
    }
    void begin(const std::shared_ptr<shim::Subscription>& sub) {
        const std::any m = sub->queue.front();
        auto& t = shim::Bus::get().start(sub);
        if (on_start) on_start(sub->topic, m, t);
        shim::Sched::get().step(t);
    }
    void run(int n) { while (n-- > 0 && !dead && step()) {} shim::look(); }
    // until nothing moves any more: every callback that is left only waits
    void settle(int rounds = 12) {
        for (int quiet = 0; quiet < rounds && !dead; ++quiet) {
            const long f = finished;
            auto& s = shim::Sched::get();
            for (auto& sub : shim::Bus::get().startable()) { if (dead || (threads && int(s.tasks.size()) >= threads)) break; begin(sub); quiet = -1; }
            std::vector<int> ids; for (auto& t : s.tasks) ids.push_back(t->id);
            for (int id : ids) for (auto& t : s.tasks) if (t->id == id) { if (!dead) s.step(*t); break; }
            if (finished != f) quiet = -1;
        }
        shim::look();
    }
    // asks the process to stop and lets every callback run on; what is left does not return
    int stop(int rounds = 60) {
        shim::ok_flag() = false;
        auto& s = shim::Sched::get();
        const bool p = s.preempt; s.preempt = false;
        for (int n = 0; n < rounds && !s.tasks.empty(); ++n) {
            std::vector<int> ids; for (auto& t : s.tasks) ids.push_back(t->id);
            for (int id : ids) for (auto& t : s.tasks) if (t->id == id) { s.step(*t); break; }
        }
        s.preempt = p;
        const int left = int(s.tasks.size());
        for (auto& t : s.tasks) { t->th.detach(); t.release(); }
        s.tasks.clear();
        return left;
    }
};
struct Obj {
    std::string s = "{";
    Obj& r(const std::string& k, const std::string& v) { if (s.size() > 1) s += ","; s += str(k) + ":" + v; return *this; }
    Obj& d(const std::string& k, double v) { return r(k, num(v)); }
    Obj& i(const std::string& k, long v) { return r(k, std::to_string(v)); }
    Obj& b(const std::string& k, bool v) { return r(k, v ? "true" : "false"); }
    Obj& t(const std::string& k, const std::string& v) { return r(k, str(v)); }
    std::string end() const { return s + "}"; }
};
}
