// Payoffs, option factories, equality and clones.
#include "drv.h"
#include "market_data/market_data.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;
static std::string I(long i) { return std::to_string(i); }
static std::vector<std::string> ev;
struct Live { std::shared_ptr<Option> o; std::vector<double> S; };
static std::map<long, Live> opts;
static std::map<long, std::unique_ptr<Payoff>> pool;
static std::map<long, std::unique_ptr<StockData>> recs;
static const char* cpName(PayoffType t) { return t == PayoffType::Call ? "call" : t == PayoffType::Put ? "put" : "both"; }

template <class F> static std::string evalOf(F f, Obj o) {
    double v = 0; const std::string st = drv::attempt([&] { v = f(); });
    o.add("st", str(st)); if (st == "ok") o.add("v", num(v));
    return o.done();
}
static std::string kindOf(const Option& o) {
    if (dynamic_cast<const EuropeanOption*>(&o)) return "european";
    if (dynamic_cast<const DigitalOption*>(&o)) return "digital";
    if (dynamic_cast<const DoubleDigitalOption*>(&o)) return "ddigital";
    if (dynamic_cast<const AmericanOption*>(&o)) return "american";
    if (dynamic_cast<const ArithmeticAsianOption*>(&o)) return "arith";
    if (dynamic_cast<const GeometricAsianOption*>(&o)) return "geom";
    if (dynamic_cast<const KnockInBarrierOption*>(&o)) return "knockin";
    if (dynamic_cast<const KnockOutBarrierOption*>(&o)) return "knockout";
    if (dynamic_cast<const FloatingStrikeLookbackOption*>(&o)) return "floatlb";
    if (dynamic_cast<const FixedStrikeLookbackOption*>(&o)) return "fixedlb";
    return "other";
}
static std::string describe(const Live& l) {
    const Option& o = *l.o;
    std::vector<std::string> e1, e2, act;
    for (size_t i = 0; i < l.S.size(); ++i) {
        const double S = l.S[i], m = l.S[(i + 1) % l.S.size()];
        e1.push_back(evalOf([&] { return o.payoff(S); }, Obj().add("S", num(S))));
        e1.push_back(evalOf([&] { return o.getPayoff()(S); }, Obj().add("S", num(S))));
        e2.push_back(evalOf([&] { return o.payoff(S, m); }, Obj().add("S", num(S)).add("m", num(m))));
        if (const auto* b = dynamic_cast<const BarrierOption*>(&o)) act.push_back(Obj().add("S", num(S)).add("b", drv::boolean(b->isActive(S))).done());
    }
    return Obj().add("f", str(kindOf(o))).add("ticker", str(o.getID())).add("T", num(o.getT())).add("cp", str(cpName(o.getPayoff().getPayoffType())))
        .add("ev", drv::list(e1)).add("ev2", drv::list(e2)).add("act", drv::list(act)).done();
}
template <class F> static std::shared_ptr<Option> mk(const ParameterObject& p, bool call) { F f; if (call) return f.createCallOption(p); return f.createPutOption(p); }
static std::shared_ptr<Option> build(const std::string& f, const ParameterObject& p, bool c) {
    if (f == "european") return mk<EuropeanOptionFactory>(p, c);
    if (f == "digital") return mk<DigitalOptionFactory>(p, c);
    if (f == "ddigital") return mk<DoubleDigitalOptionFactory>(p, c);
    if (f == "american") return mk<AmericanOptionFactory>(p, c);
    if (f == "arith") return mk<ArithmeticAsianOptionFactory>(p, c);
    if (f == "geom") return mk<GeometricAsianOptionFactory>(p, c);
    if (f == "knockin") return mk<KnockInBarrierOptionFactory>(p, c);
    if (f == "knockout") return mk<KnockOutBarrierOptionFactory>(p, c);
    if (f == "floatlb") return mk<FloatingStrikeLookbackOptionFactory>(p, c);
    if (f == "fixedlb") return mk<FixedStrikeLookbackOptionFactory>(p, c);
    throw std::string("driver: factory " + f);
}
static std::string program(drv::In& in) {
    const auto md = MarketData::getInstance();
    ParameterObject params;
    while (in.more()) {
        const std::string k = in.word();
        Obj o; o.add("e", str(k));
        if (k == "set") {
            const std::string n = in.word(), ty = in.word();
            o.add("n", str(n)).add("ty", str(ty));
            if (ty == "double") { const double v = in.d(); params.setParameter(n, v); o.add("v", num(v)); }
            else if (ty == "int") { const long v = in.i(); params.setParameter(n, static_cast<int>(v)); o.add("v", I(v)); }
            else if (ty == "string") { const std::string v = in.word(); params.setParameter(n, v); o.add("v", str(v)); }
            else { const std::string v = in.word(); params.setParameter(n, v == "up" ? BarrierDirection::Up : BarrierDirection::Down); o.add("v", str(v)); }
        } else if (k == "clear") params = ParameterObject();
        else if (k == "ticker") { const std::string t = in.word(); md->addStock(t, 100.0, 0.2); o.add("t", str(t)); }
        else if (k == "create") {
            const long i = in.i(); const std::string f = in.word(), cp = in.word();
            Live l; l.S = in.ds();
            const std::string st = drv::attempt([&] { l.o = build(f, params, cp == "call"); });
            o.add("i", I(i)).add("f", str(f)).add("cp", str(cp)).add("st", str(st));
            if (st == "ok") { o.add("d", describe(l)); opts[i] = l; }
        } else if (k == "recheck") { const long i = in.i(); if (!opts.count(i)) continue; o.add("i", I(i)).add("d", describe(opts[i])); }
        else if (k == "dropopt") {
            const long i = in.i(); if (!opts.count(i)) continue;
            std::weak_ptr<Option> w = opts[i].o; opts.erase(i);
            o.add("i", I(i)).add("gone", drv::boolean(w.expired()));
        } else if (k == "cloneof") {
            const long i = in.i(), j = in.i(); if (!opts.count(i)) continue;
            auto c = opts[i].o->getPayoff().clone(); pool[j] = std::move(c); o.add("i", I(i)).add("j", I(j));
        } else if (k == "make") {
            const long i = in.i(); const std::string kind = in.word(), cp = in.word(); const double k1 = in.d(), k2 = in.d();
            const PayoffType t = cp == "call" ? PayoffType::Call : PayoffType::Put;
            std::unique_ptr<Payoff> p;
            const std::string st = drv::attempt([&] {
                if (kind == "vanilla") p = std::make_unique<PayoffVanilla>(t, k1);
                else if (kind == "digital") p = std::make_unique<PayoffDigital>(t, k1);
                else if (kind == "ddigital") p = std::make_unique<PayoffDoubleDigital>(k1, k2);
                else p = std::make_unique<PayoffLookbackFloatingStrike>(t);
            });
            if (p) pool[i] = std::move(p);
            o.add("i", I(i)).add("p", Obj().add("kind", str(kind)).add("cp", str(cp)).add("k1", num(k1)).add("k2", num(k2)).done()).add("st", str(st));
        } else if (k == "clone") { const long i = in.i(), j = in.i(); if (!pool.count(i)) continue; auto c = pool[i]->clone(); pool[j] = std::move(c); o.add("i", I(i)).add("j", I(j)); }
        else if (k == "destroy") { const long i = in.i(); if (!pool.count(i)) continue; pool.erase(i); o.add("i", I(i)); }
        else if (k == "eval") { const long i = in.i(); const double S = in.d(); if (!pool.count(i)) continue; ev.push_back(evalOf([&] { return (*pool[i])(S); }, o.add("i", I(i)).add("S", num(S)))); continue; }
        else if (k == "eval2") { const long i = in.i(); const double S = in.d(), m = in.d(); if (!pool.count(i)) continue; ev.push_back(evalOf([&] { return (*pool[i])(S, m); }, o.add("i", I(i)).add("S", num(S)).add("m", num(m)))); continue; }
        else if (k == "cmp") { const long i = in.i(), j = in.i(); if (!pool.count(i) || !pool.count(j)) continue; o.add("i", I(i)).add("j", I(j)).add("eq", drv::boolean(*pool[i] == *pool[j])).add("ne", drv::boolean(*pool[i] != *pool[j])); }
        else if (k == "rec") {
            const long i = in.i(); const double S = in.d(), s = in.d(); const std::string c = in.word();
            if (c == "none") recs[i] = std::make_unique<StockData>(S, s); else recs[i] = std::make_unique<StockData>(S, s, std::strtod(c.c_str(), nullptr));
            o.add("i", I(i)).add("S", num(S)).add("sig", num(s)).add("c", c == "none" ? str(c) : num(std::strtod(c.c_str(), nullptr)));
        } else if (k == "cmprec") { const long i = in.i(), j = in.i(); if (!recs.count(i) || !recs.count(j)) continue; o.add("i", I(i)).add("j", I(j)).add("eq", drv::boolean(*recs[i] == *recs[j])).add("ne", drv::boolean(*recs[i] != *recs[j])); }
        else throw std::string("driver: op " + k);
        ev.push_back(o.done());
    }
    return Obj().add("st", str("ok")).add("ev", drv::list(ev)).done();
}
int main(int argc, char** argv) { return drv::runIsolated(argc, argv, program); }
