// Monte Carlo pricers, builders and solver, with stock models that produce scripted paths.
#include "drv.h"
#include <optional>
#include "market_data/market_data.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "solver/monte_carlo/mc_american.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;
static std::string I(long i) { return std::to_string(i); }

struct Mock final : IMarketData {
    double r = 0; std::shared_ptr<const StockData> s = std::make_shared<StockData>(100.0, 0.0);
    void addObserver(const std::shared_ptr<MarketDataObserver>&) override {}
    void removeObserver() override {}
    std::shared_ptr<const StockData> getStockData(const std::string&) const override { return s; }
    double getR() const override { return r; }
    void setR(const double& x) override { r = x; }
};
struct NoGenerator final : NumberGenerator {
    using NumberGenerator::NumberGenerator;
    double operator()(Distribution&) const override { return 0.0; }
};
struct Scripted final : StockModel {
    std::vector<std::vector<double>> tab;
    mutable size_t cur = 0; mutable long used = 0; mutable std::vector<double> mats; mutable double lastT = -1;
    bool bare; // on a pseudo-random generator, and with no way to simulate backwards
    Scripted(std::vector<std::vector<double>> t, const std::shared_ptr<IMarketData>& m, bool bare_ = false)
        : StockModel("SCRIPT", m, bare_ ? std::shared_ptr<NumberGenerator>(std::make_shared<PseudoRandomNumberGenerator>(static_cast<unsigned>(t[0].size()), 1u))
                                        : std::make_shared<NoGenerator>(static_cast<unsigned>(t[0].size()))), tab(std::move(t)), bare(bare_) {}
    const std::vector<double>& next(double T) const { mats.push_back(T); lastT = T; ++used; return tab[cur++ % tab.size()]; }
    double simulatePriceAtMaturity(const double& T) const override { return next(T).back(); }
    std::vector<double> simulatePrices(const double& T) const override { return next(T); }
    double simulatePriceBackward(const double& S, const double& tj, const double& tj1) const override {
        if (bare) return StockModel::simulatePriceBackward(S, tj, tj1);
        const double dt = lastT / static_cast<double>(tab[0].size());
        const double k = std::round(tj1 / dt);
        if (!(std::abs(tj1 - k * dt) < 1e-9 * lastT && std::abs(tj1 - tj - dt) < 1e-9 * lastT) || k < 2 || k > static_cast<double>(tab[0].size())) { mats.push_back(-tj1); return std::nan(""); }
        for (const auto& p : tab) if (p[static_cast<size_t>(k) - 1] == S) return p[static_cast<size_t>(k) - 2];
        mats.push_back(-S); return std::nan("");
    }
};
struct MeanReg final : Regression {
    Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override {
        Eigen::VectorXd c = Eigen::VectorXd::Zero(A.cols()); c(0) = y.mean(); return c;
    }
};
struct FixedReg final : Regression {
    std::vector<double> c;
    Eigen::VectorXd solve(const Eigen::MatrixXd&, const Eigen::VectorXd&) const override { return Eigen::Map<const Eigen::VectorXd>(c.data(), c.size()); }
};
struct Powers final : BasisFunction {
    using BasisFunction::BasisFunction;
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override {
        Eigen::MatrixXd m(x.size(), numberBasis_);
        for (long i = 0; i < x.size(); ++i) { double v = 1; for (unsigned k = 0; k < numberBasis_; ++k) { m(i, k) = v; v *= x(i); } }
        return m;
    }
};
static std::vector<std::string> ev;
static std::map<std::string, std::shared_ptr<Mock>> mocks;
static std::map<long, std::shared_ptr<Option>> opts;
static std::map<long, std::shared_ptr<Scripted>> models;
static std::map<long, std::unique_ptr<MCBuilder>> blds;
static std::map<long, std::unique_ptr<MCPricer>> prcs;
static std::map<long, std::unique_ptr<MCSolver>> slvs;

template <class F> static std::shared_ptr<Option> mk(const ParameterObject& p, bool call) { F f; if (call) return f.createCallOption(p); return f.createPutOption(p); }
static std::shared_ptr<Option> option(const std::string& f, const ParameterObject& p, bool c) {
    if (f == "european") return mk<EuropeanOptionFactory>(p, c);
    if (f == "digital") return mk<DigitalOptionFactory>(p, c);
    if (f == "ddigital") return mk<DoubleDigitalOptionFactory>(p, c);
    if (f == "american") return mk<AmericanOptionFactory>(p, c);
    if (f == "arith") return mk<ArithmeticAsianOptionFactory>(p, c);
    if (f == "geom") return mk<GeometricAsianOptionFactory>(p, c);
    if (f == "knockin") return mk<KnockInBarrierOptionFactory>(p, c);
    if (f == "knockout") return mk<KnockOutBarrierOptionFactory>(p, c);
    if (f == "floatlb") return mk<FloatingStrikeLookbackOptionFactory>(p, c);
    if (f == "fixedlb") return mk<FixedStrikeLookbackOptionFactory>(p, c);
    throw std::string("driver: factory " + f);
}
static std::unique_ptr<MCBuilder> builder(const std::string& k) {
    if (k == "single") return std::make_unique<MCSinglePathBuilder>();
    if (k == "american") return std::make_unique<AmericanMCBuilder>();
    if (k == "arith") return std::make_unique<ArithmeticAsianMCBuilder>();
    if (k == "geom") return std::make_unique<GeometricAsianMCBuilder>();
    if (k == "knockin") return std::make_unique<KnockInBarrierMCBuilder>();
    if (k == "knockout") return std::make_unique<KnockOutBarrierMCBuilder>();
    if (k == "floatlb") return std::make_unique<FloatingStrikeLookbackMCBuilder>();
    if (k == "fixedlb") return std::make_unique<FixedStrikeLookbackMCBuilder>();
    throw std::string("driver: builder " + k);
}
static std::shared_ptr<IMarketData> market(const std::string& n) {
    if (n == "sing") return MarketData::getInstance();
    auto& m = mocks[n]; if (!m) m = std::make_shared<Mock>(); return m;
}
template <class F> static void price(F f, Obj o) {
    for (auto& [i, m] : models) { m->used = 0; m->mats.clear(); }
    double v = 0; const std::string st = drv::attempt([&] { v = f(); });
    o.add("st", str(st));
    if (st == "ok") {
        o.add("v", num(v));
        std::vector<std::string> used; std::vector<double> mats;
        for (auto& [i, m] : models) {
            used.push_back(Obj().add("m", I(i)).add("n", I(m->used)).done());
            std::optional<double> last; // equal neighbours once
            for (double t : m->mats) if (!last || *last != t) { mats.push_back(t); last = t; if (mats.size() > 50) break; }
        }
        o.add("used", drv::list(used)).add("mats", drv::nums(mats));
    }
    ev.push_back(o.done());
}
static std::string program(drv::In& in) {
    const auto md = MarketData::getInstance();
    while (in.more()) {
        const std::string k = in.word();
        Obj o; o.add("e", str(k));
        if (k == "rate") { const std::string m = in.word(); const double r = in.d(); market(m)->setR(r); o.add("mk", str(m)).add("r", num(r)); }
        else if (k == "stock") {
            const std::string m = in.word(), t = in.word(); const double S = in.d(), s = in.d(); const std::string c = in.word();
            std::optional<double> cc; if (c != "none") cc = std::strtod(c.c_str(), nullptr);
            if (m == "sing") md->addStock(t, S, s, cc);
            else { market(m); mocks[m]->s = std::make_shared<StockData>(S, s, cc); }
            o.add("mk", str(m)).add("t", str(t)).add("S", num(S)).add("sig", num(s)).add("c", cc ? num(*cc) : str("none"));
        } else if (k == "opt") {
            const long i = in.i(); const std::string f = in.word(), cp = in.word(), t = in.word(); const double T = in.d(), k1 = in.d(), k2 = in.d(), B = in.d(); const std::string dir = in.word();
            ParameterObject p; p.setParameter("ticker", t); p.setParameter("T", T);
            if (f == "ddigital") { p.setParameter("K1", k1); p.setParameter("K2", k2); } else p.setParameter("K", k1);
            if (f == "knockin" || f == "knockout") { p.setParameter("B", B); p.setParameter("direction", dir == "up" ? BarrierDirection::Up : BarrierDirection::Down); }
            opts[i] = option(f, p, cp == "call");
            o.add("i", I(i)).add("o", Obj().add("f", str(f)).add("cp", str(cp)).add("ticker", str(t)).add("T", num(T)).add("k1", num(k1)).add("k2", num(k2)).add("B", num(B)).add("dir", str(dir)).done());
        } else if (k == "model" || k == "bare") {
            const long m = in.i(), steps = in.i(), n = in.i();
            std::vector<std::vector<double>> tab; std::vector<std::string> js;
            for (long i = 0; i < n; ++i) { std::vector<double> p(steps); for (auto& x : p) x = in.d(); tab.push_back(p); js.push_back(drv::nums(p)); }
            models[m] = std::make_shared<Scripted>(tab, std::make_shared<Mock>(), k == "bare");
            o.add("m", I(m)).add("tab", drv::list(js));
        } else if (k == "builder") { const long b = in.i(); const std::string kd = in.word(); blds[b] = builder(kd); o.add("b", I(b)).add("kind", str(kd)); }
        else if (k == "setopt") {
            const long b = in.i(), i = in.i();
            o.add("b", I(b)).add("i", I(i)).add("st", str(drv::attempt([&] { blds[b]->setOption(i ? opts.at(i) : nullptr); })));
        } else if (k == "setmodel") { const long b = in.i(), m = in.i(); blds[b]->setStockPriceModel(m ? models.at(m) : nullptr); o.add("b", I(b)).add("m", I(m)); }
        else if (k == "setmarket") { const long b = in.i(); const std::string m = in.word(); blds[b]->setMarketData(market(m)); o.add("b", I(b)).add("mk", str(m)); }
        else if (k == "setreg") {
            const long b = in.i(); const std::string kd = in.word();
            auto& a = dynamic_cast<AmericanMCBuilder&>(*blds[b]);
            Obj g; g.add("kind", str(kd));
            if (kd == "mean") { a.setRegressionStrategy(std::make_shared<MeanReg>()); a.setBasisFunctionStrategy(std::make_shared<Powers>(2)); }
            else if (kd == "fixed") { auto f = std::make_shared<FixedReg>(); f->c = in.ds(); a.setRegressionStrategy(f); a.setBasisFunctionStrategy(std::make_shared<Powers>(static_cast<unsigned>(f->c.size()))); g.add("c", drv::nums(f->c)); }
            else { const long n = in.i(); a.setRegressionStrategy(std::make_shared<LeastSquaresRegression>()); a.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(static_cast<unsigned>(n))); g.add("n", I(n)); }
            o.add("b", I(b)).add("reg", g.done());
        } else if (k == "build") {
            const long b = in.i(), p = in.i(); std::unique_ptr<MCPricer> q;
            o.add("b", I(b)).add("p", I(p)).add("st", str(drv::attempt([&] { q = blds[b]->build(); })));
            if (q) prcs[p] = std::move(q);
        } else if (k == "dropbuilder") { blds.erase(in.i()); continue; }
        else if (k == "solver") { const long s = in.i(), n = in.i(); slvs[s] = std::make_unique<MCSolver>(static_cast<unsigned long>(n)); o.add("s", I(s)).add("N", I(n)); }
        else if (k == "setn") { const long s = in.i(), n = in.i(); slvs[s]->setN(static_cast<unsigned long>(n)); o.add("s", I(s)).add("N", I(n)); }
        else if (k == "setpricer") {
            const long s = in.i(), p = in.i();
            if (p && !prcs.count(p)) continue;
            if (p) { slvs[s]->setPricer(std::move(prcs[p])); prcs.erase(p); } else slvs[s]->setPricer(nullptr);
            o.add("s", I(s)).add("p", I(p));
        } else if (k == "solve") { const long s = in.i(); price([&] { return slvs[s]->solve(); }, o.add("s", I(s))); continue; }
        else if (k == "price") {
            const long p = in.i(), n = in.i(); const std::string how = in.word();
            if (!prcs.count(p)) continue;
            const unsigned long N = static_cast<unsigned long>(n);
            o.add("p", I(p)).add("N", I(n));
            const auto* a = dynamic_cast<const AmericanMCPricer*>(prcs[p].get());
            if (a && how == "bridge") price([&] { return a->brownianBridgePrice(N); }, o);
            else if (a && how == "std") price([&] { return a->standardPrice(N); }, o);
            else price([&] { return prcs[p]->calculatePrice(N); }, o);
            continue;
        } else throw std::string("driver: op " + k);
        ev.push_back(o.done());
    }
    return Obj().add("st", str("ok")).add("ev", drv::list(ev)).done();
}
int main(int argc, char** argv) { return drv::runIsolated(argc, argv, program); }
