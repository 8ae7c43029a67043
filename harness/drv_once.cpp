// Concurrent first use of the market-data instance, one fresh process per case.
// case: nThreads calls allocSleepUs delay_1..delay_n ; then sequential life-cycle
#include "drv.h"
#include <atomic>
#include <mutex>
#include <thread>
#include "market_data/market_data.h"
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;

static thread_local int nap = 0;     // microseconds to sleep at every allocation made while getting the instance
void* operator new(std::size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (nap) { const int k = nap; nap = 0; usleep(k); nap = k; }
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

struct Ev { int thread; char kind; const void* who; double rate; double S; bool absent; };
static std::vector<Ev> log_;
static std::mutex mu;
static void note(const Ev& e) { std::lock_guard<std::mutex> l(mu); log_.push_back(e); }
static Ev look(int t, const std::shared_ptr<MarketData>& m) {
    Ev e{t, 'r', m.get(), m->getR(), 0, true};
    try { e.S = m->getStockData("ONE")->getPrice(); e.absent = false; } catch (const std::invalid_argument&) {}
    return e;
}
static std::string program(drv::In& in) {
    const int n = in.i(), calls = in.i(), sl = in.i(), keep = in.i();
    std::vector<int> delay(n);
    for (auto& d : delay) d = in.i();
    log_.reserve(4096);
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    std::vector<std::shared_ptr<MarketData>> held(n);
    for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
        while (!go.load(std::memory_order_acquire)) {}
        if (delay[t]) usleep(delay[t]);
        for (int k = 0; k < calls; ++k) {
            note({t + 1, 'c', nullptr, 0, 0, true});
            nap = sl;
            auto m = MarketData::getInstance();
            nap = 0;
            const Ev e = look(t + 1, m);
            note(e);
            if (keep) held[t] = m;
        }
    });
    go.store(true, std::memory_order_release);
    for (auto& t : ts) t.join();
    std::vector<const void*> ids;
    // later life: write, let go of everything, get it again
    {
        note({1, 'c', nullptr, 0, 0, true});
        auto m = MarketData::getInstance();
        note(look(1, m));
        m->setR(0.125); m->addStock("ONE", 2.5, 0.25);
        note({1, 'w', nullptr, 0.125, 2.5, false});
    }
    held.clear();
    for (int k = 0; k < 2; ++k) {
        note({1, 'c', nullptr, 0, 0, true});
        auto m = MarketData::getInstance();
        note(look(1, m));
    }
    std::vector<std::string> out;
    for (const auto& e : log_) {
        Obj o;
        if (e.kind == 'c') o.add("e", str("call")).add("t", std::to_string(e.thread));
        else if (e.kind == 'w') o.add("e", str("write")).add("rate", num(e.rate)).add("S", num(e.S));
        else {
            size_t i = 0; while (i < ids.size() && ids[i] != e.who) ++i;
            if (i == ids.size()) ids.push_back(e.who);
            o.add("e", str("ret")).add("t", std::to_string(e.thread)).add("i", std::to_string(i + 1)).add("rate", num(e.rate)).add("S", e.absent ? str("absent") : num(e.S));
        }
        out.push_back(o.done());
    }
    return Obj().add("st", str("ok")).add("ev", drv::list(out)).done();
}
int main(int argc, char** argv) {
    if (argc == 2) { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x == 1 ? 0 : 1; }   // self-test of the tool chain
    return drv::runIsolated(argc, argv, program);
}
