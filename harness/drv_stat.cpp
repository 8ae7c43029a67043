// Sample statistics of the stock models on the library's own pseudo-random generator.
#include "drv.h"
#include <optional>
#include "market_data/market_data.h"
#include "model/gbm_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/heston_model.h"
#include "model/bates_model.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;
static std::shared_ptr<StockModel> make(const std::string& kind, const std::vector<double>& p, unsigned steps, unsigned seed) {
    const auto md = MarketData::getInstance();
    const auto g = std::make_shared<PseudoRandomNumberGenerator>(steps, seed);
    if (kind == "gbm") return std::make_shared<GeometricBrownianMotionModel>("A", md, g);
    if (kind == "merton") return std::make_shared<MertonJumpDiffusionModel>("A", md, g, p[0], p[1], p[2]);
    if (kind == "kou") return std::make_shared<KouModel>("A", md, g, p[0], p[1], p[2], p[3]);
    if (kind == "vg") return std::make_shared<VarianceGammaModel>("A", md, g, p[0], p[1]);
    if (kind == "heston") return std::make_shared<HestonModel>("A", md, g, p[0], p[1], p[2], p[3], p[4], seed % 2 ? std::make_shared<CIRMilsteinDiscretization>() : nullptr);
    if (kind == "bates") return std::make_shared<BatesModel>("A", md, g, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
    throw std::string("driver: model " + kind);
}
static std::string program(drv::In& in) {
    const auto md = MarketData::getInstance();
    const std::string kind = in.word(); const double S = in.d(), sig = in.d(); const std::string c = in.word();
    const double r = in.d(), T = in.d(), K = in.d(); const long steps = in.i(), n = in.i(); const unsigned seed = static_cast<unsigned>(in.u());
    const std::vector<double> p = in.ds();
    std::optional<double> cc; if (c != "none") cc = std::strtod(c.c_str(), nullptr);
    {   // another simulation before, by a model of the same kind
        const double sig0 = in.d(); const std::string c0 = in.word(); const double r0 = in.d(), T0 = in.d(); const std::vector<double> p0 = in.ds();
        std::optional<double> cc0; if (c0 != "none") cc0 = std::strtod(c0.c_str(), nullptr);
        md->addStock("A", S, sig0, cc0); md->setR(r0);
        drv::attempt([&] { const auto m0 = make(kind, p0, steps, seed + 7); m0->simulatePriceAtMaturity(T0); m0->simulatePrices(T0); });
    }
    md->addStock("A", S, sig, cc); md->setR(r);
    double mean = 0, sd = 0, meanp = 0, call = 0, put = 0;
    const std::string st = drv::attempt([&] {
        const auto m = make(kind, p, steps, seed);
        double s = 0, q = 0;
        for (long i = 0; i < n; ++i) { const double x = m->simulatePriceAtMaturity(T) - S; s += x; q += x * x; }
        mean = S + s / n; sd = std::sqrt(std::max(0.0, q / n - (s / n) * (s / n)));
        const auto m2 = make(kind, p, steps, seed + 1);
        s = 0; for (long i = 0; i < n; ++i) s += m2->simulatePrices(T).back() - S;
        meanp = S + s / n;
        ParameterObject po; po.setParameter("ticker", std::string("A")); po.setParameter("T", T); po.setParameter("K", K);
        EuropeanOptionFactory f; MCSolver solver(n); MCSinglePathBuilder b;
        std::shared_ptr<Option> oc = f.createCallOption(po), op = f.createPutOption(po);
        b.setOption(oc); b.setStockPriceModel(make(kind, p, steps, seed + 2)); solver.setPricer(b.build()); call = solver.solve();      // (an even distance apart: the same scheme for the variance, so the same law)
        b.setOption(op); b.setStockPriceModel(make(kind, p, steps, seed + 4)); solver.setPricer(b.build()); put = solver.solve();
    });
    return Obj().add("st", str("ok")).add("c", Obj().add("st", str(st)).add("S", num(S)).add("r", num(r)).add("c", cc ? num(*cc) : str("none")).add("T", num(T)).add("K", num(K))
        .add("n", std::to_string(n)).add("mean", num(mean)).add("sd", num(sd)).add("meanp", num(meanp)).add("call", num(call)).add("put", num(put)).done()).done();
}
int main(int argc, char** argv) { return drv::runIsolated(argc, argv, program); }
