// Stock models in a live market, driven by a generator that delivers scripted draws and identifies the laws asked for.
#include "drv.h"
#include "own.h"
#include <optional>
#include <random>
#include "market_data/market_data.h"
#include "model/gbm_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/heston_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/continuous_uniform_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/gamma_distrib.h"
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;
static std::string I(long i) { return std::to_string(i); }

struct LawD { std::string ty; double a, b; std::vector<double> vals; size_t next = 0; std::vector<double> got; };

// Only copies of the distribution object asked for are ever sampled, so the probe leaves no trace in it.
template <class D> static bool sameSample(const D& d, const D& twin, int n) {
    D x(d), y(twin);
    std::mt19937 g1(20240607u), g2(20240607u);
    for (int i = 0; i < n; ++i) { const double u = x(g1), v = y(g2); if (!(std::abs(u - v) <= 1e-9 * std::max(1e-3, std::abs(v)))) return false; }
    return true;
}
template <class D> static bool sameMoments(const D& d, double m, double var, double mu4) {
    D x(d); std::mt19937 g(12345u); const int n = 40000;
    double s = 0, q = 0;
    for (int i = 0; i < n; ++i) { const double u = x(g) - m; s += u; q += u * u; }
    s /= n; q /= n;
    return std::abs(s) <= 6 * std::sqrt(var / n) && std::abs(q - var) <= 6 * std::sqrt((mu4 - var * var) / n);
}
// byMoments = false: the same variates as the standard library's law; true: the same first moments
static bool isLaw(Distribution& d, const LawD& l, bool byMoments) {
    const double a = l.a, b = l.b;
    if (l.ty == "normal") { const auto* x = dynamic_cast<NormalDistribution*>(&d); return x && (byMoments ? sameMoments(*x, a, b * b, 3 * b * b * b * b) : sameSample(*x, NormalDistribution(a, b), 4)); }
    if (l.ty == "poisson") { const auto* x = dynamic_cast<PoissonDistribution*>(&d); return x && (byMoments ? sameMoments(*x, a, a, a + 3 * a * a) : sameSample(*x, PoissonDistribution(a), 200)); }
    if (l.ty == "uniform") { const auto* x = dynamic_cast<ContinuousUniformDistribution*>(&d); const double w = b - a; return x && (byMoments ? sameMoments(*x, (a + b) / 2, w * w / 12, w * w * w * w / 80) : sameSample(*x, ContinuousUniformDistribution(a, b), 4)); }
    if (l.ty == "exp") { const auto* x = dynamic_cast<ExponentialDistribution*>(&d); return x && (byMoments ? sameMoments(*x, 1 / a, 1 / (a * a), 9 / (a * a * a * a)) : sameSample(*x, ExponentialDistribution(a), 4)); }
    if (l.ty == "gamma") { const auto* x = dynamic_cast<GammaDistribution*>(&d); const double v = a / (b * b); return x && (byMoments ? sameMoments(*x, a / b, v, 3 * v * v * (1 + 2 / a)) : sameSample(*x, GammaDistribution(a, b), 4)); }
    return false;
}
struct Script final : NumberGenerator {
    mutable std::vector<LawD> laws; mutable long odd = 0;
    using NumberGenerator::NumberGenerator;
    double operator()(Distribution& d) const override {
        for (const bool m : {false, true}) for (auto& l : laws) if (isLaw(d, l, m)) {
            const double v = l.vals.empty() ? 0.0 : l.vals[l.next++ % l.vals.size()];
            l.got.push_back(v); return v;
        }
        ++odd; return 0.5;
    }
};
struct Custom final : CIRDiscretization {
    double a, b, c, d, e;
    void update(double& V, const double& dt, const double& kappa, const double& theta, const double& sv, const double& z) const override { V = a * V + b * kappa * dt + c * theta + d * sv + e * z; }
};
struct M { std::shared_ptr<StockModel> m; std::shared_ptr<Script> g; };
static std::map<long, M> models;
static std::vector<std::string> ev;
static void setLaws(drv::In& in, Script& g) {
    g.laws.clear(); g.odd = 0;
    const long n = in.i();
    for (long i = 0; i < n; ++i) { LawD l; l.ty = in.word(); l.a = in.d(); l.b = in.d(); l.vals = in.ds(); g.laws.push_back(l); }
}
static void addDraws(Obj& o, const Script& g) {
    std::vector<std::string> ls, ds;
    for (const auto& l : g.laws) { ls.push_back(Obj().add("ty", str(l.ty)).add("a", num(l.a)).add("b", num(l.b)).done()); ds.push_back(drv::nums(l.got)); }
    o.add("laws", drv::list(ls)).add("ds", drv::list(ds)).add("odd", I(g.odd));
}
static std::string readScheme(drv::In& in, std::shared_ptr<CIRDiscretization>& d) {
    const std::string s = in.word();
    Obj o; o.add("s", str(s == "none" ? "euler" : s));
    if (s == "euler") d = std::make_shared<CIRExplicitEulerDiscretization>();
    else if (s == "milstein") d = std::make_shared<CIRMilsteinDiscretization>();
    else if (s == "custom") {
        auto c = std::make_shared<Custom>(); c->a = in.d(); c->b = in.d(); c->c = in.d(); c->d = in.d(); c->e = in.d();
        o.add("a", num(c->a)).add("b", num(c->b)).add("c", num(c->c)).add("d", num(c->d)).add("e", num(c->e)); d = c;
    }
    return o.done();
}
static std::string program(drv::In& in) {
    const auto sing = MarketData::getInstance(); const auto own = std::make_shared<Own>();
    std::string mk = "sing"; std::shared_ptr<IMarketData> md = sing;
    const auto on = [&](auto f) { if (mk == "own") f(own); else f(sing); };
    while (in.more()) {
        const std::string k = in.word();
        if (k == "use") { mk = in.word(); if (mk == "own") md = own; else md = sing; continue; }     // the source the following lines speak of
        Obj o; o.add("e", str(k)).add("mk", str(mk));
        if (k == "rate") { const double r = in.d(); md->setR(r); o.add("r", num(r)); }
        else if (k == "reg") {
            const std::string t = in.word(); const double S = in.d(), s = in.d(); const std::string c = in.word();
            std::optional<double> cc; if (c != "none") cc = std::strtod(c.c_str(), nullptr);
            o.add("t", str(t)).add("S", num(S)).add("sig", num(s)).add("c", cc ? num(*cc) : str("none")).add("st", str(drv::attempt([&] { on([&](auto& w) { w->addStock(t, S, s, cc); }); })));
        } else if (k == "upd") {
            const std::string t = in.word(), f = in.word(); const double v = in.d();
            o.add("t", str(t)).add("f", str(f)).add("v", num(v)).add("st", str(drv::attempt([&] {
                on([&](auto& w) { if (f == "S") w->updateStockPrice(t, v); else if (f == "sig") w->updateStockSigma(t, v); else w->updateStockCoupon(t, v); }); })));
        } else if (k == "read") {
            const std::string t = in.word(); const auto s = md->getStockData(t);
            o.add("t", str(t)).add("S", num(s->getPrice())).add("sig", num(s->getSigma())).add("c", s->getCoupon() ? num(*s->getCoupon()) : str("none")).add("r", num(md->getR()));
        } else if (k == "model") {
            const long m = in.i(); const std::string kind = in.word(), t = in.word(); const long steps = in.i();
            const auto g = std::make_shared<Script>(static_cast<unsigned>(steps)); std::shared_ptr<StockModel> x; Obj par; std::string scheme = "{\"s\":\"-\"}";
            auto p = [&](const char* n) { const double v = in.d(); par.add(n, num(v)); return v; };
            std::string st;
            if (kind == "gbm") { par.add("x", "0"); st = drv::attempt([&] { x = std::make_shared<GeometricBrownianMotionModel>(t, md, g); }); }
            else if (kind == "merton") { const double a = p("lam"), b = p("muJ"), c = p("sJ"); st = drv::attempt([&] { x = std::make_shared<MertonJumpDiffusionModel>(t, md, g, a, b, c); }); }
            else if (kind == "kou") { const double a = p("lam"), b = p("p"), c = p("e1"), d = p("e2"); st = drv::attempt([&] { x = std::make_shared<KouModel>(t, md, g, a, b, c, d); }); }
            else if (kind == "vg") { const double a = p("nu"), b = p("th"); st = drv::attempt([&] { x = std::make_shared<VarianceGammaModel>(t, md, g, a, b); }); }
            else {
                const double a = p("kap"), b = p("th"), c = p("sv"), d = p("rho"), e = p("v0"); double f = 0, h = 0, j = 0;
                if (kind == "bates") { f = p("lam"); h = p("muJ"); j = p("sJ"); }
                std::shared_ptr<CIRDiscretization> z; scheme = readScheme(in, z);
                st = drv::attempt([&] { if (kind == "heston") x = std::make_shared<HestonModel>(t, md, g, a, b, c, d, e, z); else x = std::make_shared<BatesModel>(t, md, g, a, b, c, d, e, f, h, j, z); });
            }
            if (x) models[m] = {x, g};
            o.add("m", I(m)).add("kind", str(kind)).add("t", str(t)).add("steps", I(steps)).add("par", par.done()).add("scheme", scheme).add("st", str(st));
        } else if (k == "sim") {
            const long m = in.i(); const double T = in.d(); const std::string how = in.word();
            Script tmp(1u); Script& g = models.count(m) ? *models[m].g : tmp;
            setLaws(in, g);
            if (!models.count(m)) continue;
            std::vector<double> out;
            const std::string st = drv::attempt([&] { if (how == "mat") out = {models[m].m->simulatePriceAtMaturity(T)}; else out = models[m].m->simulatePrices(T); });
            o.add("m", I(m)).add("T", num(T)).add("how", str(how)).add("st", str(st)).add("out", drv::nums(out)); addDraws(o, g);
        } else if (k == "back") {
            const long m = in.i(); const double S = in.d(), tj = in.d(), tn = in.d();
            Script tmp(1u); Script& g = models.count(m) ? *models[m].g : tmp;
            setLaws(in, g);
            if (!models.count(m)) continue;
            double v = 0; const std::string st = drv::attempt([&] { v = models[m].m->simulatePriceBackward(S, tj, tn); });
            o.add("m", I(m)).add("S", num(S)).add("tj", num(tj)).add("tn", num(tn)).add("st", str(st)).add("out", num(v)); addDraws(o, g);
        } else if (k == "cir") {
            std::shared_ptr<CIRDiscretization> z; const std::string sc = readScheme(in, z);
            const double V = in.d(), dt = in.d(), kap = in.d(), th = in.d(), sv = in.d(), zz = in.d(); double W = V;
            z->update(W, dt, kap, th, sv, zz);
            o.add("scheme", sc).add("V", num(V)).add("dt", num(dt)).add("z", num(zz)).add("par", Obj().add("kap", num(kap)).add("th", num(th)).add("sv", num(sv)).done()).add("out", num(W));
        } else throw std::string("driver: op " + k);
        ev.push_back(o.done());
    }
    return Obj().add("st", str("ok")).add("ev", drv::list(ev)).done();
}
int main(int argc, char** argv) { return drv::runIsolated(argc, argv, program); }
