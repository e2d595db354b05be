// Linked with -Wl,--wrap=pthread_mutex_lock,...: mutexes of the code under test as scheduling points of the shim's scheduler.
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <unistd.h>
#include <ros/ros.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    shim::Task* t = shim::Sched::self();
    if (!t) return __real_pthread_mutex_lock(m);
    auto& s = shim::Sched::get();
    t->wants = m;
    if (s.preempt) s.give_way(shim::Task::LOCKING);
    while (__real_pthread_mutex_trylock(m) != 0) s.give_way(shim::Task::BLOCKED);
    t->wants = nullptr;
    t->held.insert(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    const int r = __real_pthread_mutex_trylock(m);
    shim::Task* t = shim::Sched::self();
    if (t && r == 0) t->held.insert(m);
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    shim::Task* t = shim::Sched::self();
    if (t) { auto it = t->held.find(m); if (it != t->held.end()) t->held.erase(it); else ++shim::Sched::get().misused; }
    return __real_pthread_mutex_unlock(m);
}
// sleeping and timed waiting, however it is written
int __real_nanosleep(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* a, timespec* b) { if (!shim::Sched::self()) return __real_nanosleep(a, b); shim::on_sleep(); return 0; }
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (!shim::Sched::self()) return __real_clock_nanosleep(c, f, a, b); shim::on_sleep(); return 0; }
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t n) { if (!shim::Sched::self()) return __real_usleep(n); shim::on_sleep(); return 0; }
static int timed(pthread_mutex_t* m) { __wrap_pthread_mutex_unlock(m); shim::on_sleep(); __wrap_pthread_mutex_lock(m); return ETIMEDOUT; }
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return shim::Sched::self() ? timed(m) : __real_pthread_cond_timedwait(c, m, t); }
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return shim::Sched::self() ? timed(m) : __real_pthread_cond_clockwait(c, m, k, t); }
}
