// Finite differences: user-defined and Black-Scholes problems, live markets, repeated queries.
#include "drv.h"
#include "own.h"
#include <optional>
#include "market_data/market_data.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
using namespace OptionPricer;
namespace P1 = OptionPricer::PDE::OneFactor;
namespace F1 = OptionPricer::FDM::OneFactor;
using drv::Obj; using drv::num; using drv::str;
using V = std::vector<double>;
struct UserPDE final : P1::ConvectionDiffusionPDE {
    V D, C, R, f, bl, br, ic;
    static double aff(const V& a, double t, double x) { return a[0] + a[1] * t + x * (a[2] + a[3] * t); }
    static double bnd(const V& a, double t, double x) { return a[0] + t * (a[1] + a[2] * t) + a[3] * x; }
    double diffusion(const double& t, const double& x) const override { return aff(D, t, x); }
    double convection(const double& t, const double& x) const override { return aff(C, t, x); }
    double reaction(const double& t, const double& x) const override { return aff(R, t, x); }
    double rightHandSide(const double& t, const double& x) const override { return aff(f, t, x) + (f.size() > 4 ? f[4] * t * t : 0.0); }
    double boundaryLeft(const double& t, const double& x) const override { return bnd(bl, t, x); }
    double boundaryRight(const double& t, const double& x) const override { return bnd(br, t, x); }
    double initialCondition(const double& x) const override { return ic[0] + x * (ic[1] + ic[2] * x) + ic[3] * std::max(0.0, x - ic[4]); }
};
struct UserInterp final : Interpolation {
    double interpolate(const V&, const V& y, const double& x) const override { return 2 * y.front() + 3 * y.back() + x; }
};
struct UserSolver final : MatrixSolver {     // Gaussian elimination with column pivoting
    Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override {
        Eigen::MatrixXd M(A); Eigen::VectorXd x = b; const int n = M.rows();
        for (int k = 0; k < n; ++k) {
            int p = k; for (int i = k + 1; i < n; ++i) if (std::abs(M(i, k)) > std::abs(M(p, k))) p = i;
            if (p != k) { M.row(p).swap(M.row(k)); std::swap(x[p], x[k]); }
            for (int i = k + 1; i < n; ++i) { const double m = M(i, k) / M(k, k); for (int j = k; j < n; ++j) M(i, j) -= m * M(k, j); x[i] -= m * x[k]; }
        }
        for (int k = n - 1; k >= 0; --k) { for (int j = k + 1; j < n; ++j) x[k] -= M(k, j) * x[j]; x[k] /= M(k, k); }
        return x;
    }
};
static std::shared_ptr<Interpolation> interp(const std::string& w) {
    if (w == "none") return nullptr; if (w == "linear") return std::make_shared<LinearInterpolation>();
    if (w == "quadratic") return std::make_shared<QuadraticInterpolation>(); if (w == "custom") return std::make_shared<UserInterp>();
    throw std::string("driver: interpolation " + w);
}
static std::shared_ptr<MatrixSolver> msolver(const std::string& w) {
    if (w == "none") return nullptr; if (w == "lu") return std::make_shared<LUDecompositionSolver>();
    if (w == "plu") return std::make_shared<PartialPivotingLUSolver>(); if (w == "thomas") return std::make_shared<ThomasAlgorithm>();
    if (w == "user") return std::make_shared<UserSolver>();
    throw std::string("driver: solver " + w);
}
static std::shared_ptr<EuropeanOption> option(bool call, double K, double T, const std::string& tk = "A") {
    ParameterObject po; po.setParameter("ticker", tk); po.setParameter("T", T); po.setParameter("K", K);
    EuropeanOptionFactory f; std::shared_ptr<Option> o; if (call) o = f.createCallOption(po); else o = f.createPutOption(po);
    return std::dynamic_pointer_cast<EuropeanOption>(o);
}
static std::shared_ptr<IMarketData> md;                                    // where the solvers and problems read the market: the shared instance or a source of the user's own
static std::shared_ptr<Own> own;
template <class F> static void on(F f) { if (own) f(*own); else f(*MarketData::getInstance()); }
static std::unique_ptr<F1::FDMSolver> make(const std::string& scheme, double xDom, unsigned long J, double tDom, unsigned long N, std::unique_ptr<P1::ConvectionDiffusionPDE> pde,
                                          std::shared_ptr<EuropeanOption> o, const std::string& how, const std::string& ms) {
    if (scheme == "explicit") return std::make_unique<F1::EulerExplicitFDM>(xDom, J, tDom, N, std::move(pde), o, md, interp(how));
    if (scheme == "implicit") return std::make_unique<F1::EulerImplicitFDM>(xDom, J, tDom, N, std::move(pde), o, md, interp(how), msolver(ms));
    if (scheme == "cn") return std::make_unique<F1::CrankNicolsonFDMSolver>(xDom, J, tDom, N, std::move(pde), o, md, interp(how), msolver(ms));
    throw std::string("driver: scheme " + scheme);
}
struct Prob { std::string scheme, ms; double xDom, tDom; unsigned long J, N; std::unique_ptr<UserPDE> pde; };
static Prob prob(drv::In& in) {
    Prob p; p.scheme = in.word(); p.ms = in.word(); p.xDom = in.d(); p.J = in.u(); p.tDom = in.d(); p.N = in.u();
    p.pde = std::make_unique<UserPDE>();
    for (V* v : {&p.pde->D, &p.pde->C, &p.pde->R, &p.pde->f, &p.pde->bl, &p.pde->br, &p.pde->ic}) *v = in.ds();
    return p;
}
static std::string probJson(const Prob& p) {
    return Obj().add("scheme", str(p.scheme)).add("xDom", num(p.xDom)).add("J", std::to_string(p.J)).add("tDom", num(p.tDom)).add("N", std::to_string(p.N)).add("D", drv::nums(p.pde->D)).add("C", drv::nums(p.pde->C))
        .add("R", drv::nums(p.pde->R)).add("f", drv::nums(p.pde->f)).add("bl", drv::nums(p.pde->bl)).add("br", drv::nums(p.pde->br)).add("ic", drv::nums(p.pde->ic)).done();
}
static std::optional<double> cpn(const std::string& w) { if (w == "none") return std::nullopt; return std::strtod(w.c_str(), nullptr); }
static std::string program(drv::In& in) {
    std::cerr.setstate(std::ios::failbit);
    std::string k = in.word(); own = nullptr; const auto sing = MarketData::getInstance(); md = sing;
    if (k == "own") { own = std::make_shared<Own>(); md = own; sing->addStock("A", in.d(), in.d(), 0.07); sing->setR(in.d()); k = in.word(); }     // (what the shared instance says then is beside the point)
    if (k == "grid") {
        on([&](auto& w) { w.addStock("A", 1.0, 0.2, std::nullopt); });
        Prob p = prob(in); const std::string pj = probJson(p); V g;
        const std::string st = drv::attempt([&] { auto s = make(p.scheme, p.xDom, p.J, p.tDom, p.N, std::move(p.pde), option(true, 1.0, p.tDom), "none", p.ms);
            g = s->solve(); });
        return Obj().add("st", str("ok")).add("p", pj).add("o", Obj().add("st", str(st)).add("grid", drv::nums(g)).done()).done();
    }
    if (k == "use") {
        struct L { std::unique_ptr<F1::FDMSolver> s; size_t at; std::string head; };
        std::map<std::string, L> sol; std::vector<std::string> ev;
        const auto mine = std::make_shared<Own>(); mine->setR(0.02);
        // a place: "s" the shared market, "o" the user's own, and the stock there
        const auto in_ = [&](const std::string& at) { return at[0] == 's' ? std::shared_ptr<IMarketData>(sing) : std::shared_ptr<IMarketData>(mine); };
        const auto on = [&](const std::string& at, auto f) { if (at[0] == 's') f(*sing, at.substr(1)); else f(*mine, at.substr(1)); };
        for (const char* at : {"sA", "sB", "oA", "oB"}) on(at, [&](auto& w, const std::string& tk) { w.addStock(tk, 1.0, 0.2, std::nullopt); });
        while (in.more()) {
            const std::string op = in.word();
            if (op == "new") {
                const std::string id = in.word(), how = in.word(), at = in.word(), kind = in.word(), tk = at.substr(1); md = in_(at); L l; std::string st; Obj o; o.add("e", str("new")).add("s", str(id)).add("at", str(at)).add("how", str(how));
                if (kind == "user") {
                    Prob p = prob(in); o.add("xDom", num(p.xDom)).add("J", std::to_string(p.J));
                    st = drv::attempt([&] { l.s = make(p.scheme, p.xDom, p.J, p.tDom, p.N, std::move(p.pde), option(true, 1.0, p.tDom, tk), how, p.ms); });
                } else {
                    const std::string scheme = in.word(), ms = in.word(); const double xDom = in.d(); const unsigned long J = in.u(); const double T = in.d(); const unsigned long N = in.u(); const bool call = in.word() == "call"; const double K = in.d();
                    o.add("xDom", num(xDom)).add("J", std::to_string(J));
                    st = drv::attempt([&] { auto op = option(call, K, T, tk); l.s = make(scheme, xDom, J, T, N, std::make_unique<P1::BlackScholesPDE>(op, md), op, how, ms); });
                }
                o.add("st", str(st)); l.at = ev.size(); l.head = o.s; ev.push_back("");
                sol.emplace(id, std::move(l));
            } else if (op == "solve") {
                const std::string id = in.word(); V g; const std::string st = drv::attempt([&] { g = sol.at(id).s->solve(); });
                ev.push_back(Obj().add("e", str("solve")).add("s", str(id)).add("st", str(st)).add("grid", drv::nums(g)).done());
            } else if (op == "price") {
                const std::string id = in.word(); double v = 0; const std::string st = drv::attempt([&] { v = sol.at(id).s->calculatePrice(); });
                ev.push_back(Obj().add("e", str("price")).add("s", str(id)).add("st", str(st)).add("v", num(v)).done());
            } else if (op == "spot") {
                const std::string at = in.word(); const double v = in.d(); const std::string how = in.word();
                drv::attempt([&] { on(at, [&](auto& w, const std::string& tk) { if (how == "set") w.updateStockPrice(tk, v); else w.addStock(tk, v, 0.25, 0.02); }); });
                ev.push_back(Obj().add("e", str("spot")).add("at", str(at)).add("v", num(v)).done());
            } else if (op == "other") {
                const std::string at = in.word(), w = in.word(); const double v = in.d();
                drv::attempt([&] { on(at, [&](auto& m, const std::string& tk) { if (w == "sig") m.updateStockSigma(tk, v); else if (w == "c") m.updateStockCoupon(tk, v); else if (w == "r") m.setR(v); else if (w == "bad") m.updateStockSigma(tk, -1.0); else m.addStock("C", v, v, v); }); });
                ev.push_back(Obj().add("e", str("other")).done());
            } else throw std::string("driver: op " + op);
        }
        for (auto& [id, l] : sol) {
            V g; drv::attempt([&] { g = l.s->solve(); });
            Obj o; o.s = l.head; o.add("grid", drv::nums(g)); ev[l.at] = o.done();
        }
        return Obj().add("st", str("ok")).add("ev", drv::list(ev)).done();
    }
    if (k == "coef") {      // problems of several options side by side
        const double S0 = in.d(), s0 = in.d(); const std::string c0 = in.word(); on([&](auto& w) { w.addStock("A", S0, s0, cpn(c0)); w.addStock("B", 7.0, 0.9, 0.5); }); md->setR(in.d()); if (own) sing->addStock("B", 8.0, 0.7, 0.4);
        struct Q { bool call; double K, T; std::string tk; std::shared_ptr<P1::BlackScholesPDE> pde; };
        std::vector<Q> qs; std::vector<std::string> pts; std::string st = "ok";
        st = drv::attempt([&] {
            while (in.more()) {
                const std::string op = in.word();
                if (op == "pde") { Q q; q.call = in.word() == "call"; q.K = in.d(); q.T = in.d(); q.tk = in.word(); q.pde = std::make_shared<P1::BlackScholesPDE>(option(q.call, q.K, q.T, q.tk), md); qs.push_back(q); }
                else if (op == "sig") { const double v = in.d(); on([&](auto& w) { w.updateStockSigma("A", v); }); }
                else if (op == "c") { const double v = in.d(); on([&](auto& w) { w.updateStockCoupon("A", v); }); }
                else if (op == "r") md->setR(in.d());
                else if (op == "reg") { const double S = in.d(), s = in.d(); const auto c = cpn(in.word()); on([&](auto& w) { w.addStock("A", S, s, c); }); }
                else if (op == "B") { const double v = in.d(); on([&](auto& w) { w.updateStockSigma("B", v); }); }
                else if (op == "else") { const double v = in.d(); if (own) { sing->addStock("A", 3 * v + 1, v, v / 2); sing->setR(v - 0.01); } }
                else if (op == "at") {
                    const Q& q = qs.at(in.u()); const double t = in.d(), x = in.d(); const auto sd = md->getStockData(q.tk); const auto c = sd->getCoupon(); const auto& pde = *q.pde;
                    pts.push_back(Obj().add("call", drv::boolean(q.call)).add("K", num(q.K)).add("T", num(q.T)).add("t", num(t)).add("x", num(x)).add("sig", num(sd->getSigma())).add("c", c ? num(*c) : str("none")).add("r", num(md->getR())).add("diff", num(pde.diffusion(t, x))).add("conv", num(pde.convection(t, x)))
                        .add("reac", num(pde.reaction(t, x))).add("rhs", num(pde.rightHandSide(t, x))).add("bl", num(pde.boundaryLeft(t, x))).add("br", num(pde.boundaryRight(t, x))).add("ic", num(pde.initialCondition(x))).done());
                } else throw std::string("driver: op " + op);
            }
        });
        return Obj().add("st", str("ok")).add("c", Obj().add("k", str(k)).add("st", str(st)).add("pts", drv::list(pts)).done()).done();
    }
    if (k == "price") {
        const std::string scheme = in.word(), ms = in.word(), how = in.word(); const bool call = in.word() == "call"; const double K = in.d(), T = in.d(), S = in.d(), sig = in.d(); const std::string c = in.word(); const double r = in.d(), xDom = in.d();
        const unsigned long J = in.u(), N = in.u(); const std::string kx = in.word(), kt = in.word(); double v = 0;
        on([&](auto& w) { w.addStock("A", S, sig, cpn(c)); }); md->setR(r);
        const std::string st = drv::attempt([&] { auto o = option(call, K, T); v = make(scheme, xDom, J, T, N, std::make_unique<P1::BlackScholesPDE>(o, md), o, how, ms)->calculatePrice(); });
        return Obj().add("st", str("ok")).add("c", Obj().add("k", str(k)).add("st", str(st)).add("call", drv::boolean(call)).add("K", num(K)).add("T", num(T)).add("S", num(S)).add("sig", num(sig)).add("c", c == "none" ? str(c) : num(*cpn(c))).add("r", num(r))
            .add("xDom", num(xDom)).add("J", std::to_string(J)).add("N", std::to_string(N)).add("kx", str(kx)).add("kt", str(kt)).add("v", num(v)).done()).done();
    }
    throw std::string("driver: kind " + k);
}
int main(int argc, char** argv) { return drv::runIsolated(argc, argv, program); }
