// Executes market-data programs (sequences of operations with observer reactions) on the real component.
#include "drv.h"
#include "market_data/market_data.h"
#include "option/base_factory_option.h"
#include "option/parameter_object.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include <cstring>
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;

static std::string decode(const std::string& w) {
    if (w == "~") return "";
    std::string r;
    for (size_t i = 0; i < w.size(); ++i) {
        if (w[i] == '%' && i + 2 < w.size()) { r += static_cast<char>(std::strtol(w.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
        else r += w[i];
    }
    return r;
}
struct Op { std::vector<std::string> w; };
static double D(const std::string& w) { if (w == "nan") return std::nan(""); return std::strtod(w.c_str(), nullptr); }
static std::optional<double> O(const std::string& w) { if (w == "none") return std::nullopt; return D(w); }

static std::vector<std::string> events, universe;
static std::map<std::pair<std::string, int>, std::vector<Op>> reactions;
static std::map<std::string, std::shared_ptr<MarketDataObserver>> owned;
static std::map<std::string, std::shared_ptr<const StockData>> handles;
static std::shared_ptr<MarketData> md;
static void exec(const Op&);

static std::string rec(const StockData& s) {
    const auto c = s.getCoupon();
    return Obj().add("S", num(s.getPrice())).add("sig", num(s.getSigma())).add("c", c ? num(*c) : str("none")).done();
}
static std::string look(const IMarketData& m, const std::string& t) {
    try { return rec(*m.getStockData(decode(t))); }
    catch (const std::invalid_argument&) { return "{\"S\":\"absent\",\"sig\":\"absent\",\"c\":\"absent\"}"; }
}
static std::string snap() {
    const auto fresh = MarketData::getInstance();
    Obj st, hd;
    for (const auto& t : universe) {
        const std::string a = look(*md, t), b = look(*fresh, t);
        st.add(t.c_str(), a == b ? a : std::string("{\"S\":\"split\",\"sig\":\"split\",\"c\":\"split\"}"));
    }
    for (const auto& [h, p] : handles) hd.add(h.c_str(), rec(*p));
    const double r1 = md->getR(), r2 = fresh->getR();
    return Obj().add("rate", r1 == r2 ? num(r1) : str("split")).add("stock", st.done()).add("hand", hd.done()).done();
}
static void told(const std::string& name, int& count) {
    events.push_back(Obj().add("e", str("deliver")).add("o", str(name)).add("snap", snap()).done());
    const auto it = reactions.find({name, ++count});
    if (it != reactions.end()) { const auto ops = it->second; for (const auto& o : ops) exec(o); }
}
class Rec final : public MarketDataObserver {
public:
    Rec(std::string n, const std::string& t) : MarketDataObserver(t), name(std::move(n)), alive(0x600df00d) {}
    ~Rec() override { alive = 0; }
    void update() override { if (alive != 0x600df00d) std::abort(); told(name, count); }
    std::string name; int count = 0; unsigned alive;
};
static std::string optName;
class ProbeOption final : public Option {
public:
    ProbeOption(const std::string& t, std::unique_ptr<Payoff> p, const double& T, std::shared_ptr<IMarketData> m)
        : Option(t, std::move(p), T, std::move(m)), name(optName) {}
    double calc_price() const override { return 0; }
    void update() override { told(name, count); }
    std::string name; int count = 0;
};
class ProbeFactory final : public OptionFactory<ProbeOption, PayoffSingleStrike> {
    std::unique_ptr<PayoffSingleStrike> createSpecificPayoff(const ParameterObject& p, const PayoffType& t) override {
        return std::make_unique<PayoffVanilla>(t, p.getParameter<double>("K"));
    }
    std::shared_ptr<ProbeOption> createSpecificOption(const ParameterObject& p, std::unique_ptr<PayoffSingleStrike> q,
                                                      const std::shared_ptr<IMarketData>& m) override {
        return std::make_shared<ProbeOption>(p.getParameter<std::string>("ticker"), std::move(q), p.getParameter<double>("T"), m);
    }
    std::string getType(const PayoffType&) const override { return "Probe"; }
};
// Concrete options do nothing when told: the update entry of a copy of such an object's function table is
// redirected to the recorder (the entry is found through the pointer to the virtual member itself).
struct Spy { std::string name; int count = 0; void (*orig)(MarketDataObserver*) = nullptr; std::vector<void*> table; };
static std::map<const void*, std::shared_ptr<Spy>> spies;
static void spyUpdate(MarketDataObserver* o) {
    const auto s = spies.at(o);
    told(s->name, s->count);
    s->orig(o);
}
__attribute__((no_sanitize("address", "undefined"))) static void spyOn(MarketDataObserver* o, const std::string& name) {
    void (MarketDataObserver::*m)() = &MarketDataObserver::update;
    std::ptrdiff_t off; std::memcpy(&off, &m, sizeof off);
    const size_t slot = static_cast<size_t>(off - 1) / sizeof(void*), n = 24;
    auto s = std::make_shared<Spy>();
    s->name = name; s->table.resize(n + 2);
    void** old = *reinterpret_cast<void***>(o);
    for (size_t i = 0; i < n + 2; ++i) { void* volatile* src = old - 2 + i; s->table[i] = *src; }
    std::memcpy(&s->orig, &s->table[slot + 2], sizeof(void*));
    void (*f)(MarketDataObserver*) = &spyUpdate;
    std::memcpy(&s->table[slot + 2], &f, sizeof(void*));
    *reinterpret_cast<void***>(o) = s->table.data() + 2;
    spies[o] = s;
}
template <class F> static std::shared_ptr<MarketDataObserver> viaFactory(const ParameterObject& p, bool call) {
    F f;
    if (call) return f.createCallOption(p);
    return f.createPutOption(p);
}
static std::shared_ptr<MarketDataObserver> concrete(const std::string& k, const ParameterObject& p, bool call) {
    if (k == "european") return viaFactory<EuropeanOptionFactory>(p, call);
    if (k == "digital") return viaFactory<DigitalOptionFactory>(p, call);
    if (k == "ddigital") return viaFactory<DoubleDigitalOptionFactory>(p, call);
    if (k == "american") return viaFactory<AmericanOptionFactory>(p, call);
    if (k == "arith") return viaFactory<ArithmeticAsianOptionFactory>(p, call);
    if (k == "geom") return viaFactory<GeometricAsianOptionFactory>(p, call);
    if (k == "knockin") return viaFactory<KnockInBarrierOptionFactory>(p, call);
    if (k == "knockout") return viaFactory<KnockOutBarrierOptionFactory>(p, call);
    if (k == "floatlb") return viaFactory<FloatingStrikeLookbackOptionFactory>(p, call);
    if (k == "fixedlb") return viaFactory<FixedStrikeLookbackOptionFactory>(p, call);
    throw std::string("driver: factory " + k);
}
static void change(const std::string& json, const std::function<void()>& f) {
    events.push_back(Obj().add("e", str("begin")).add("o", json).done());
    const std::string st = drv::attempt(f);
    events.push_back(Obj().add("e", str("end")).add("st", str(st)).add("snap", snap()).done());
}
static void exec(const Op& op) {
    const auto& w = op.w;
    const std::string& k = w[0];
    const auto js = [](const std::string& x) { return x == "none" ? str(x) : num(D(x)); };
    if (k == "add") {
        const std::string j = Obj().add("op", str(k)).add("tk", str(w[1])).add("S", js(w[2])).add("sig", js(w[3])).add("c", js(w[4])).done();
        change(j, [&] {
            if (w[4] == "none") md->addStock(decode(w[1]), D(w[2]), D(w[3]));
            else md->addStock(decode(w[1]), D(w[2]), D(w[3]), O(w[4]));
        });
    } else if (k == "price" || k == "sigma" || k == "yield") {
        const std::string j = Obj().add("op", str(k)).add("tk", str(w[1])).add("v", js(w[2])).done();
        change(j, [&] {
            if (k == "price") md->updateStockPrice(decode(w[1]), D(w[2]));
            else if (k == "sigma") md->updateStockSigma(decode(w[1]), D(w[2]));
            else md->updateStockCoupon(decode(w[1]), O(w[2]));
        });
    } else if (k == "rate") {
        change(Obj().add("op", str(k)).add("v", js(w[1])).done(), [&] { md->setR(D(w[1])); });
    } else if (k == "notify") {
        change(Obj().add("op", str(k)).add("tk", str(w[1])).done(), [&] {
            if (w[1] == "*") md->notifyObservers(); else md->notifyObserver(decode(w[1]));
        });
    } else if (k == "create") {
        events.push_back(Obj().add("e", str(k)).add("o", str(w[1])).add("t", str(w[2])).done());
        owned[w[1]] = std::make_shared<Rec>(w[1], decode(w[2]));
    } else if (k == "register") {
        if (!owned.count(w[1])) return;
        events.push_back(Obj().add("e", str(k)).add("o", str(w[1])).done());
        md->addObserver(owned[w[1]]);
    } else if (k == "drop") {
        if (!owned.count(w[1])) return;
        events.push_back(Obj().add("e", str(k)).add("o", str(w[1])).done());
        auto p = std::move(owned[w[1]]);
        owned.erase(w[1]);
        p.reset();
    } else if (k == "mkopt") {   // mkopt o T K mat cp factory
        ParameterObject p;
        p.setParameter("ticker", decode(w[2])); p.setParameter("K", D(w[3])); p.setParameter("T", D(w[4]));
        optName = w[1];
        p.setParameter("K1", D(w[3])); p.setParameter("K2", D(w[3])); p.setParameter("B", 100.0); p.setParameter("direction", w[5] == "c" ? BarrierDirection::Up : BarrierDirection::Down);
        std::shared_ptr<MarketDataObserver> o;
        ProbeFactory f;
        const std::string st = drv::attempt([&] {
            if (w[6] != "probe") o = concrete(w[6], p, w[5] == "c");
            else if (w[5] == "c") o = f.createCallOption(p);
            else o = f.createPutOption(p);
        });
        if (o && w[6] != "probe") spyOn(o.get(), w[1]);
        events.push_back(Obj().add("e", str(k)).add("o", str(w[1])).add("t", str(w[2])).add("k", num(D(w[3]))).add("m", num(D(w[4]))).add("st", str(st)).done());
        if (o) owned[w[1]] = o;
    } else if (k == "take") {
        const std::string st = drv::attempt([&] { handles[w[1]] = md->getStockData(decode(w[2])); });
        events.push_back(Obj().add("e", str(k)).add("h", str(w[1])).add("t", str(w[2])).add("st", str(st)).done());
    } else if (k == "clean") {
        md->removeObserver();
    } else if (k == "lose") {     // let go of the instance and fetch it again
        md.reset(); md = MarketData::getInstance();
    } else if (k == "snap") {
    } else throw std::string("driver: op " + k);
    if (k != "add" && k != "price" && k != "sigma" && k != "yield" && k != "rate" && k != "notify")
        events.push_back(Obj().add("e", str("snap")).add("snap", snap()).done());
}
static size_t arity(const std::string& k) {
    static const std::map<std::string, size_t> a{{"add", 5}, {"price", 3}, {"sigma", 3}, {"yield", 3}, {"rate", 2}, {"create", 3},
        {"register", 2}, {"drop", 2}, {"mkopt", 7}, {"notify", 2}, {"take", 3}, {"clean", 1}, {"lose", 1}, {"snap", 1}};
    return a.at(k);
}
static std::string program(drv::In& in) {
    md = MarketData::getInstance();
    std::vector<Op> main;
    const long n = in.i();
    for (long i = 0; i < n; ++i) { std::string t; in.is >> t; universe.push_back(t); }
    std::string w;
    std::vector<Op>* dst = &main;
    while (in.is >> w) {
        if (w == "R") { std::string o; int j; in.is >> o >> j; dst = &reactions[{o, j}]; in.is >> w; continue; }
        if (w == ")") { dst = &main; continue; }
        Op op; op.w.push_back(w);
        const size_t n2 = arity(w);
        for (size_t i = 1; i < n2; ++i) { in.is >> w; op.w.push_back(w); }
        dst->push_back(op);
    }
    events.push_back(Obj().add("e", str("snap")).add("snap", snap()).done());
    for (const auto& o : main) exec(o);
    return Obj().add("st", str("ok")).add("ev", drv::list(events)).done();
}
int main(int argc, char** argv) { return drv::runIsolated(argc, argv, program); }
