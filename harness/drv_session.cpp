// Whole-library sessions: parameter objects, market changes, contracts, and every question that can be asked about them.
#include "drv.h"
#include <iomanip>
#include <optional>
#include <thread>
#include <atomic>
#include <malloc.h>
#include "market_data/market_data.h"
#include "model/gbm_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/heston_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/monte_carlo/mc_american.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
using namespace OptionPricer;
namespace P1 = OptionPricer::PDE::OneFactor;
namespace F1 = OptionPricer::FDM::OneFactor;
using drv::Obj; using drv::num; using drv::str;
static std::string I(long i) { return std::to_string(i); }

static std::shared_ptr<MarketData> md;
static std::vector<std::string> ev, universe;
static std::map<long, ParameterObject> bags;
static std::map<long, std::shared_ptr<Option>> opts;
static std::map<std::string, int> told;
class Rec final : public MarketDataObserver {
public:
    Rec(std::string n, const std::string& t) : MarketDataObserver(t), name(std::move(n)) {}
    void update() override { ++told[name]; }
    std::string name;
};
static std::map<std::string, std::shared_ptr<Rec>> watchers;

template <class F> static std::shared_ptr<Option> mk(const ParameterObject& p, bool call) { F f; if (call) return f.createCallOption(p); return f.createPutOption(p); }
static std::shared_ptr<Option> build(const std::string& f, const ParameterObject& p, bool c) {
    if (f == "european") return mk<EuropeanOptionFactory>(p, c);
    if (f == "digital") return mk<DigitalOptionFactory>(p, c);
    if (f == "ddigital") return mk<DoubleDigitalOptionFactory>(p, c);
    if (f == "american") return mk<AmericanOptionFactory>(p, c);
    if (f == "arith") return mk<ArithmeticAsianOptionFactory>(p, c);
    if (f == "geom") return mk<GeometricAsianOptionFactory>(p, c);
    if (f == "knockin") return mk<KnockInBarrierOptionFactory>(p, c);
    if (f == "knockout") return mk<KnockOutBarrierOptionFactory>(p, c);
    if (f == "floatlb") return mk<FloatingStrikeLookbackOptionFactory>(p, c);
    if (f == "fixedlb") return mk<FixedStrikeLookbackOptionFactory>(p, c);
    throw std::string("driver: factory " + f);
}
static std::string kindOf(const Option& o) {
    if (dynamic_cast<const EuropeanOption*>(&o)) return "european";
    if (dynamic_cast<const DigitalOption*>(&o)) return "digital";
    if (dynamic_cast<const DoubleDigitalOption*>(&o)) return "ddigital";
    if (dynamic_cast<const AmericanOption*>(&o)) return "american";
    if (dynamic_cast<const ArithmeticAsianOption*>(&o)) return "arith";
    if (dynamic_cast<const GeometricAsianOption*>(&o)) return "geom";
    if (dynamic_cast<const KnockInBarrierOption*>(&o)) return "knockin";
    if (dynamic_cast<const KnockOutBarrierOption*>(&o)) return "knockout";
    if (dynamic_cast<const FloatingStrikeLookbackOption*>(&o)) return "floatlb";
    if (dynamic_cast<const FixedStrikeLookbackOption*>(&o)) return "fixedlb";
    return "other";
}
static std::unique_ptr<MCBuilder> builder(const std::string& k) {
    if (k == "european" || k == "digital" || k == "ddigital") return std::make_unique<MCSinglePathBuilder>();
    if (k == "american") return std::make_unique<AmericanMCBuilder>();
    if (k == "arith") return std::make_unique<ArithmeticAsianMCBuilder>();
    if (k == "geom") return std::make_unique<GeometricAsianMCBuilder>();
    if (k == "knockin") return std::make_unique<KnockInBarrierMCBuilder>();
    if (k == "knockout") return std::make_unique<KnockOutBarrierMCBuilder>();
    if (k == "floatlb") return std::make_unique<FloatingStrikeLookbackMCBuilder>();
    if (k == "fixedlb") return std::make_unique<FixedStrikeLookbackMCBuilder>();
    throw std::string("driver: builder " + k);
}
static std::shared_ptr<NumberGenerator> generator(const std::string& g, unsigned seed, unsigned steps) {
    if (g == "pseudo") return std::make_shared<PseudoRandomNumberGenerator>(steps, seed);
    if (g == "sobol") return std::make_shared<SobolGenerator>(steps, seed);
    if (g == "faure") return std::make_shared<FaureGenerator>(steps, seed);
    throw std::string("driver: generator " + g);
}
// "merton" or "merton/2": the kind, and which of several parameter sets
static std::shared_ptr<StockModel> model(const std::string& name, const std::string& t, const std::shared_ptr<NumberGenerator>& g) {
    const auto cut = name.find('/'); const std::string k = name.substr(0, cut); const int w = cut == std::string::npos ? 0 : std::stoi(name.substr(cut + 1)) - 1;
    const auto p = [w](double a, double b, double c) { return w == 0 ? a : w == 1 ? b : c; };
    std::shared_ptr<CIRDiscretization> mil = std::make_shared<CIRMilsteinDiscretization>(), eul = std::make_shared<CIRExplicitEulerDiscretization>();
    if (k == "gbm") return std::make_shared<GeometricBrownianMotionModel>(t, md, g);
    if (k == "merton") return std::make_shared<MertonJumpDiffusionModel>(t, md, g, p(1.5, 1.5, 0.4), p(-0.1, 0.15, -0.1), p(0.2, 0.2, 0.05));
    if (k == "kou") return std::make_shared<KouModel>(t, md, g, p(1.5, 1.5, 3.0), p(0.4, 0.7, 0.4), p(10.0, 10.0, 4.0), p(5.0, 8.0, 5.0));
    if (k == "vg") return std::make_shared<VarianceGammaModel>(t, md, g, p(0.2, 0.2, 0.5), p(-0.1, 0.05, -0.1));
    const double ka = p(1.2, 3.0, 1.2), th = p(0.05, 0.05, 0.09), sv = p(0.4, 0.4, 0.7), rh = p(-0.6, 0.3, -0.6), v0 = p(0.04, 0.04, 0.1);
    if (k == "heston") return std::make_shared<HestonModel>(t, md, g, ka, th, sv, rh, v0, w ? eul : nullptr);
    if (k == "hestonm") return std::make_shared<HestonModel>(t, md, g, ka, th, sv, rh, v0, mil);
    if (k == "bates") return std::make_shared<BatesModel>(t, md, g, ka, th, sv, rh, v0, p(1.0, 1.0, 2.0), p(-0.05, 0.1, -0.05), p(0.15, 0.15, 0.3), w == 2 ? mil : nullptr);
    throw std::string("driver: model " + k);
}
// Components that can be made afresh for every question or kept and used again.
template <class T, class F> static std::shared_ptr<T> part(bool keep, const std::string& name, F make) {
    static std::map<std::string, std::shared_ptr<T>> kept;
    if (!keep) return make();
    auto& x = kept[name]; if (!x) x = make();
    return x;
}
static std::shared_ptr<MatrixSolver> matrix(bool keep, const std::string& k) {
    return part<MatrixSolver>(keep, k, [&]() -> std::shared_ptr<MatrixSolver> {
        if (k == "thomas") return std::make_shared<ThomasAlgorithm>();
        if (k == "lu") return std::make_shared<LUDecompositionSolver>();
        if (k == "pplu") return std::make_shared<PartialPivotingLUSolver>();
        return nullptr; });
}
static std::shared_ptr<BasisFunction> basis(bool keep, const std::string& k) {      // "monomial2" ...
    return part<BasisFunction>(keep, k, [&]() -> std::shared_ptr<BasisFunction> {
        const unsigned n = static_cast<unsigned>(k.back() - '0'); const std::string f = k.substr(0, k.size() - 1);
        if (f == "legendre") return std::make_shared<LegendreBasisFunction>(n);
        if (f == "chebyshev") return std::make_shared<ChebyshevBasisFunction>(n);
        if (f == "laguerre") return std::make_shared<LaguerreBasisFunction>(n);
        return std::make_shared<MonomialBasisFunction>(n); });
}
static std::shared_ptr<Regression> regression(bool keep, const std::string& k) {
    return part<Regression>(keep, k, [&]() -> std::shared_ptr<Regression> {
        if (k == "ridge") return std::make_shared<RidgeRegression>(0.1);
        if (k == "ridge2") return std::make_shared<RidgeRegression>(3.0);
        if (k == "lasso") return std::make_shared<LassoRegression>(0.1);
        if (k == "lasso2") return std::make_shared<LassoRegression>(0.02);
        return std::make_shared<LeastSquaresRegression>(); });
}
// The answer to one request: "mc model gen seed steps N how regression basis", "fdm scheme interp J N solver", "calc",
// "path model gen seed steps n" (on the contract's underlying), "text".  A final "keep" uses kept components.
struct Ans { std::string st, v; bool skip = false; };
static Ans answer(const std::shared_ptr<Option>& o, const std::string& req) {
    drv::In q(req); const bool keep = req.size() > 5 && req.compare(req.size() - 5, 5, " keep") == 0;
    const std::string how = q.word(); Ans a; double v = 0; const std::string kd = kindOf(*o);
    if (how == "calc") a.st = drv::attempt([&] { v = o->calc_price(); });
    else if (how == "mc") {
        const std::string m = q.word(), g = q.word(); const unsigned seed = static_cast<unsigned>(q.u()), steps = static_cast<unsigned>(q.u()); const unsigned long N = q.u(); const std::string var = q.word(), reg = q.word(), bas = q.word();
        a.st = drv::attempt([&] {
            auto b = part<MCBuilder>(keep, kd, [&] { return std::shared_ptr<MCBuilder>(builder(kd)); }); b->setOption(o);
            b->setStockPriceModel(m == "default" ? nullptr : model(m, o->getID(), generator(g, seed, steps)));
            if (auto* am = dynamic_cast<AmericanMCBuilder*>(b.get()); am && (reg != "def" || keep)) {
                am->setRegressionStrategy(regression(keep, reg)); am->setBasisFunctionStrategy(basis(keep, bas));
            }
            auto p = b->build();
            if (const auto* ap = dynamic_cast<const AmericanMCPricer*>(p.get()); ap && var == "bridge") v = ap->brownianBridgePrice(N);
            else { auto s = part<MCSolver>(keep, "solver", [] { return std::make_shared<MCSolver>(); }); s->setN(N); s->setPricer(std::move(p)); v = s->solve(); }
        });
        if (m == "default") v = 0;      // freshly seeded each time
    } else if (how == "fdm") {
        const std::string scheme = q.word(), in = q.word(); const unsigned long J = q.u(), N = q.u(); const std::string ms = q.word();
        const auto e = std::dynamic_pointer_cast<EuropeanOption>(o);
        if (!e) { a.skip = true; return a; }
        const auto ip = part<Interpolation>(keep, in, [&]() -> std::shared_ptr<Interpolation> { if (in == "linear") return std::make_shared<LinearInterpolation>(); if (in == "quadratic") return std::make_shared<QuadraticInterpolation>(); return nullptr; });
        a.st = drv::attempt([&] {
            const double X = 4 * md->getStockData(o->getID())->getPrice(), T = o->getT();
            std::unique_ptr<F1::FDMSolver> s; auto pde = std::make_unique<P1::BlackScholesPDE>(e, md);
            if (scheme == "explicit") s = std::make_unique<F1::EulerExplicitFDM>(X, J, T, N, std::move(pde), e, md, ip);
            else if (scheme == "implicit") s = std::make_unique<F1::EulerImplicitFDM>(X, J, T, N, std::move(pde), e, md, ip, matrix(keep, ms));
            else s = std::make_unique<F1::CrankNicolsonFDMSolver>(X, J, T, N, std::move(pde), e, md, ip, matrix(keep, ms));
            v = s->calculatePrice();
        });
    } else if (how == "path") {
        const std::string m = q.word(), g = q.word(); const unsigned seed = static_cast<unsigned>(q.u()), steps = static_cast<unsigned>(q.u()); const long n = q.i(); std::vector<double> out;
        a.st = drv::attempt([&] { const auto x = model(m, o->getID(), generator(g, seed, steps)); for (long c = 0; c < n; ++c) { if (c % 2) out.push_back(x->simulatePriceAtMaturity(o->getT())); else for (double y : x->simulatePrices(o->getT())) out.push_back(y); } });
        a.v = drv::nums(out); return a;
    } else if (how == "text") {
        std::ostringstream os; os << std::setprecision(17);
        a.st = drv::attempt([&] { os << *o; }); std::string t = os.str(); const auto at = t.find("Ticker: "); if (at != std::string::npos) t.erase(at, t.find('\n', at) - at);
        a.v = str(t); return a;
    } else throw std::string("driver: request " + req);
    a.v = num(v);
    return a;
}
// "keep" is a matter of how the question is put, not part of the question
static std::string asked(const std::string& r) { return r.size() > 5 && r.compare(r.size() - 5, 5, " keep") == 0 ? r.substr(0, r.size() - 5) : r; }
static std::string request(drv::In& in) { const long n = in.i(); std::string r; for (long i = 0; i < n; ++i) { if (i) r += " "; std::string w; in.is >> w; r += w; } return r; }

static std::string rec(const StockData& s) {
    const auto c = s.getCoupon();
    return Obj().add("S", num(s.getPrice())).add("sig", num(s.getSigma())).add("c", c ? num(*c) : str("none")).done();
}
static std::string snap() {
    Obj st;
    for (const auto& t : universe) {
        std::string r;
        try { r = rec(*md->getStockData(t)); } catch (const std::invalid_argument&) { r = "{\"S\":\"absent\",\"sig\":\"absent\",\"c\":\"absent\"}"; }
        st.add(t.c_str(), r);
    }
    return Obj().add("rate", num(md->getR())).add("stock", st.done()).done();
}
static std::string describe(const Option& o) {
    static const std::vector<double> at{0.0, 0.75, 1.5, 90.0, 110.0, 1e6};
    std::vector<std::string> e1, act;
    const bool two = dynamic_cast<const FloatingStrikeLookbackOption*>(&o);
    for (const double S : at) {
        double v = 0; const std::string st = drv::attempt([&] { v = two ? o.payoff(S, 100.0) : o.payoff(S); });
        e1.push_back(Obj().add("S", num(S)).add("st", str(st)).add("v", num(v)).done());
        if (const auto* b = dynamic_cast<const BarrierOption*>(&o)) act.push_back(Obj().add("S", num(S)).add("b", drv::boolean(b->isActive(S))).done());
    }
    return Obj().add("f", str(kindOf(o))).add("ticker", str(o.getID())).add("T", num(o.getT())).add("ev", drv::list(e1)).add("act", drv::list(act)).done();
}
static std::string toldJson() { Obj t; for (const auto& [o, n] : told) if (n) t.add(o.c_str(), I(n)); told.clear(); return t.done(); }
static std::string alive() { std::vector<std::string> r; for (const auto& [i, o] : opts) r.push_back(Obj().add("i", I(i)).add("d", describe(*o)).done()); return drv::list(r); }

template <class F> static void printTo(Obj& o, const std::string& fmt, int prec, F f) {
    std::ostringstream os; os << std::setprecision(prec); if (fmt == "sci") os << std::scientific; os.fill('*');
    const auto fl = os.flags(); const auto pr = os.precision(); const char fi = os.fill();
    const std::string st = drv::attempt([&] { f(os); });
    o.add("st", str(st)).add("text", str(os.str())).add("digits", I(fmt == "sci" ? prec + 1 : prec)).add("kept", drv::boolean(os.flags() == fl && os.precision() == pr && os.fill() == fi && os.good()));
}
// A name as the library sees it: "%0" stands for a zero byte
static std::string raw(std::string n) { for (size_t i; (i = n.find("%0")) != std::string::npos;) n.replace(i, 2, 1, '\0'); return n; }
static bool silent = false;
static void play(drv::In& in) {
    while (in.more()) {
        const std::string k = in.word();
        Obj o; o.add("e", str(k)); bool still = false;
        if (k == "set") {
            const long b = in.i(); const std::string nm = in.word(), ty = in.word();
            o.add("b", I(b)).add("n", str(raw(nm))).add("ty", str(ty));
            if (ty == "double") { const double v = in.d(); bags[b].setParameter(raw(nm), v); o.add("v", num(v)); }
            else if (ty == "int") { const long v = in.i(); bags[b].setParameter(raw(nm), static_cast<int>(v)); o.add("v", str(I(v))); }
            else if (ty == "string") { const std::string v = in.word(); bags[b].setParameter(raw(nm), v); o.add("v", str(v)); }
            else { const std::string v = in.word(); bags[b].setParameter(raw(nm), v == "up" ? BarrierDirection::Up : BarrierDirection::Down); o.add("v", str(v)); }
        } else if (k == "copy") { const long a = in.i(), b = in.i(); const ParameterObject c(bags[a]); bags[b] = c; o.add("a", I(a)).add("b", I(b)); }
        else if (k == "new") { const long b = in.i(); bags[b] = ParameterObject(); o.add("b", I(b)); }
        else if (k == "get") {
            const long b = in.i(); const std::string nm = in.word(), ty = in.word(); const ParameterObject& p = bags[b]; std::string v = str("");
            const std::string st = drv::attempt([&] {
                if (ty == "double") v = num(p.getParameter<double>(raw(nm))); else if (ty == "int") v = str(I(p.getParameter<int>(raw(nm))));
                else if (ty == "string") v = str(p.getParameter<std::string>(raw(nm))); else v = str(p.getParameter<BarrierDirection>(raw(nm)) == BarrierDirection::Up ? "up" : "down"); });
            o.add("b", I(b)).add("n", str(raw(nm))).add("ty", str(ty)).add("st", str(st)).add("v", v).add("has", drv::boolean(p.hasParameter(raw(nm))));
        } else if (k == "change") {
            const std::string op = in.word(); Obj c; c.add("op", str(op)); std::string st;
            const auto val = [&](const std::string& w) { return w == "none" ? str(w) : num(std::strtod(w.c_str(), nullptr)); };
            const auto cpn = [&](const std::string& w) { return w == "none" ? std::optional<double>() : std::optional<double>(std::strtod(w.c_str(), nullptr)); };
            if (op == "add") { const std::string t = in.word(); const double S = in.d(), s = in.d(); const std::string w = in.word(); c.add("tk", str(t)).add("S", num(S)).add("sig", num(s)).add("c", val(w)); st = drv::attempt([&] { md->addStock(t, S, s, cpn(w)); }); }
            else if (op == "rate") { const double v = in.d(); c.add("v", num(v)); st = drv::attempt([&] { md->setR(v); }); }
            else {
                const std::string t = in.word(), w = in.word(); c.add("tk", str(t)).add("v", val(w));
                st = drv::attempt([&] { if (op == "price") md->updateStockPrice(t, *cpn(w)); else if (op == "sigma") md->updateStockSigma(t, *cpn(w)); else md->updateStockCoupon(t, cpn(w)); });
            }
            o.add("o", c.done()).add("st", str(st));
        } else if (k == "observe") { const std::string w = in.word(), t = in.word(); watchers[w] = std::make_shared<Rec>(w, t); md->addObserver(watchers[w]); o.add("o", str(w)).add("t", str(t)); }
        else if (k == "unobserve") { const std::string w = in.word(); if (!watchers.count(w)) continue; watchers.erase(w); o.add("o", str(w)); }
        else if (k == "create") {
            const long i = in.i(); const std::string f = in.word(), cp = in.word(); const long b = in.i(); std::shared_ptr<Option> p;
            const std::string st = drv::attempt([&] { p = build(f, bags[b], cp == "call"); });
            if (p) opts[i] = p;
            o.add("i", I(i)).add("f", str(f)).add("cp", str(cp)).add("b", I(b)).add("st", str(st));
        } else if (k == "settle") { const long i = in.i(); if (!opts.count(i)) continue; opts.erase(i); o.add("i", I(i)); }
        else if (k == "cmp") {
            const long i = in.i(), j = in.i(); if (!opts.count(i) || !opts.count(j)) continue; still = true;
            const Option &a = *opts[i], &b = *opts[j];
            o.add("i", I(i)).add("j", I(j)).add("eq", drv::boolean(a == b)).add("qe", drv::boolean(b == a)).add("ne", drv::boolean(a != b)).add("en", drv::boolean(b != a));
        } else if (k == "print") {
            const long i = in.i(); const std::string what = in.word(), fmt = in.word(); const int prec = static_cast<int>(in.i()); const std::string t = in.word(); still = true;
            if (what != "stock" && !opts.count(i)) continue;
            o.add("i", I(i)).add("what", str(what)).add("t", str(t));
            if (what == "option") printTo(o, fmt, prec, [&](std::ostream& os) { os << *opts[i]; });
            else if (what == "payoff") printTo(o, fmt, prec, [&](std::ostream& os) { os << opts[i]->getPayoff(); });
            else printTo(o, fmt, prec, [&](std::ostream& os) { os << *md->getStockData(t); });
        } else if (k == "price") {
            const long i = in.i(); const std::string r = request(in); if (!opts.count(i)) continue; still = true;
            const Ans a = answer(opts[i], r); if (a.skip) continue;
            o.add("i", I(i)).add("req", str(asked(r))).add("st", str(a.st)).add("v", a.v);
        } else if (k == "sim") {
            const std::string t = in.word(), m = in.word(), g = in.word(); const unsigned seed = static_cast<unsigned>(in.u()), steps = static_cast<unsigned>(in.u()); const double T = in.d(); const long cnt = in.i(); still = true;
            std::vector<double> out; std::string req = m + " " + g + " " + I(seed) + " " + I(steps) + " " + num(T) + " " + I(cnt); for (auto& ch : req) if (ch == '"') ch = '\'';
            const std::string st = drv::attempt([&] { const auto x = model(m, t, generator(g, seed, steps)); for (long c = 0; c < cnt; ++c) { if (c % 2) out.push_back(x->simulatePriceAtMaturity(T)); else for (double v : x->simulatePrices(T)) out.push_back(v); } });
            o.add("t", str(t)).add("req", str(req)).add("st", str(st)).add("out", drv::nums(out));
        } else if (k == "par") {            // par k (i n req...)*: all at once, one thread each
            const long cnt = in.i(); still = true; struct Job { long i; std::string r; std::shared_ptr<Option> o; Ans a; }; std::vector<Job> jobs;
            for (long c = 0; c < cnt; ++c) { const long i = in.i(); const std::string r = request(in); if (opts.count(i)) jobs.push_back({i, r, opts[i], {}}); }
            std::atomic<int> ready{0}; std::vector<std::thread> ts;
            for (auto& j : jobs) ts.emplace_back([&jobs, &j, &ready] { ++ready; while (ready.load() < static_cast<int>(jobs.size())) {} j.a = answer(j.o, j.r); });
            for (auto& t : ts) t.join();
            std::vector<std::string> js; for (auto& j : jobs) if (!j.a.skip) js.push_back(Obj().add("i", I(j.i)).add("req", str(j.r)).add("st", str(j.a.st)).add("v", j.a.v).done());
            o.add("jobs", drv::list(js));
        } else if (k == "toil") {           // toil i k req: the question put to a pricer, solver or model that is set up once and asked ever again
            const long i = in.i(); const std::string r = request(in); if (!opts.count(i)) continue; still = true;
            struct Held { std::unique_ptr<MCPricer> p; std::unique_ptr<F1::FDMSolver> s; std::shared_ptr<StockModel> x; };
            static std::map<std::string, Held> held; Held& h = held[I(i) + " " + r]; const auto& op = opts[i];
            drv::In q(r); const std::string how = q.word();
            const std::string st = drv::attempt([&] {
                if (how == "mc" || how == "path") {
                    const std::string m = q.word(), g = q.word(); const unsigned seed = static_cast<unsigned>(q.u()), steps = static_cast<unsigned>(q.u()); const unsigned long N = q.u();
                    if (!h.x) h.x = model(m, op->getID(), generator(g, seed, steps));
                    if (how == "path") { h.x->simulatePrices(op->getT()); h.x->simulatePriceAtMaturity(op->getT()); if (m == "gbm") h.x->simulatePriceBackward(100.0, 0.5, 1.0); return; }
                    if (!h.p) { auto b = builder(kindOf(*op)); b->setOption(op); b->setStockPriceModel(h.x); h.p = b->build(); }
                    h.p->calculatePrice(N);
                } else if (how == "fdm") {
                    if (!h.s) { const auto e = std::dynamic_pointer_cast<EuropeanOption>(op); if (!e) return;
                        h.s = std::make_unique<F1::CrankNicolsonFDMSolver>(400.0, 8, op->getT(), 4, std::make_unique<P1::BlackScholesPDE>(e, md), e, md); }
                    h.s->calculatePrice(); h.s->solve();
                } else throw std::string("driver: toil " + how);
            });
            o.add("i", I(i)).add("st", str(st));
        } else if (k == "mark") { }
        else if (k == "soak") {           // soak n k tokens: the same thing n times over, memory in use after a third and at the end
            const long n = in.i(); const std::string r = request(in); size_t from = 0, to = 0;
            const bool was = silent; silent = true;
            for (long c = 0; c < n; ++c) { { drv::In q(r); play(q); } if (c == n / 3) from = mallinfo2().uordblks; }
            to = mallinfo2().uordblks; silent = was;
            o.add("n", I(n)).add("times", I(n - n / 3 - 1)).add("from", I(static_cast<long>(from))).add("to", I(static_cast<long>(to)));
        } else throw std::string("driver: op " + k);
        o.add("told", toldJson()).add("snap", snap()).add("still", drv::boolean(still)).add("alive", still || k == "change" ? alive() : std::string("[]"));
        if (!silent) ev.push_back(o.done());
    }
}
static std::string program(drv::In& in) {
    std::cerr.setstate(std::ios::failbit);
    md = MarketData::getInstance();
    const long n = in.i(); for (long i = 0; i < n; ++i) universe.push_back(in.word());
    play(in);
    return Obj().add("st", str("ok")).add("ev", drv::list(ev)).done();
}
int main(int argc, char** argv) { return drv::runIsolated(argc, argv, program); }
