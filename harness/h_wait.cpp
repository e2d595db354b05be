// P26: the waiting function itself, called by several callbacks at once.
#include "node.hpp"
#include "scen.hpp"
#include <serpent/utils/utilities.hpp>
using namespace vh;
static void play(const std::vector<scen::Op>& ops, Rng& r0) {
    shim::reset();
    Rng r(std::uint64_t(ops[0].i("s")) * 41 + r0.next() % 1000);
    auto& S = shim::Sched::get();
    S.preempt = r.chance(70); S.misused = 0;
    Driver d(r.next());
    std::mutex m;
    std::map<int, bool> wait;      // what each caller's condition says
    Ev("wait").emit();
    int id = 0;
    auto holds = [&] { return S.self()->held.count(m.native_handle()) > 0; };
    for (std::size_t j = 1; j < ops.size(); ++j) {
        const auto& o = ops[j]; const std::string op = o.str("op"); const int t = o.i("t");
        if (op == "call") {
            const int k = ++id; const bool al = o.b("al"), lv = o.b("lv");
            wait[k] = o.b("wait");
            const double period = r.pick(std::vector<double>{0.01, 0.001, 1.0});
            S.spawn("call" + std::to_string(k), [&, k, al, lv, period] {
                if (al) m.lock();
                Ev("call").i("id", k).b("al", al).b("lv", lv).emit();
                const bool go = serpent::protected_sleep(m, period, al, lv, [&, k] { const bool w = wait.at(k); Ev("look").i("id", k).b("wait", w).b("held", holds()).emit(); return w; });
                Ev("back").i("id", k).b("go", go).b("held", holds()).emit();
                if (holds()) m.unlock();
            });
        } else if (op == "flip") { std::vector<int> c; for (auto& w : wait) if (w.first % 4 == t % 4) c.push_back(w.first); if (c.empty()) continue; const int k = c.back(); wait[k] = !wait[k]; Ev("flip").i("id", k).b("wait", wait[k]).emit(); }
        else if (op == "run") d.run(o.i("n"));
        else if (op == "stop") { shim::ok_flag() = false; Ev("stop").emit(); }
    }
    const bool stopped = !shim::ok_flag();
    d.settle(20);
    Ev("rest").b("stopped", stopped).raw("left", list(S.tasks, [](const auto& t) { return std::to_string(std::atoi(t->name.c_str() + 4)); })).emit();
    if (!stopped) { shim::ok_flag() = false; Ev("stop").emit(); }
    const int left = d.stop();
    Ev("stopped").i("left", left).i("locked", d.locked).i("misused", S.misused).emit();
    const bool free = left || m.try_lock();
    Ev("lock").b("free", free).emit();
    if (!left && free) m.unlock();
    if (left) { vh::finish(); std::_Exit(0); }
    shim::reset();
}
int main(int argc, char** argv) {
    const Args a = start(argc, argv);
    if (argc <= 6) return 64;
    Rng r(a.seed * 1000003ull + a.part * 7919ull + 47);
    for (const auto& s : scen::load(argv[6])) if (!s.empty()) play(s, r);
    return finish();
}
