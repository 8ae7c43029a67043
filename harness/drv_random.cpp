// Generators and distributions of the library.
#include "drv.h"
#include <algorithm>
#include <boost/random/faure.hpp>
#include <boost/random/sobol.hpp>
#include "random/distribution/continuous_uniform_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;
struct Rec final : Distribution {          // a user-defined law
    double inv_cdf(const double& p) const override { return 2 * p + 1; }
    double operator()(std::mt19937& g) const override { return static_cast<double>(g()); }
};
struct Laws {                              // one set of distribution objects per generator (they may keep state)
    Rec rec; StandardNormalDistribution snd; NormalDistribution normal{1.5, 2.0}; ContinuousUniformDistribution unif; ExponentialDistribution exp{2.0}; GammaDistribution gamma{1.5, 2.0}; PoissonDistribution poisson{3.0};
    Distribution& get(const std::string& l) {
        if (l == "rec") return rec; if (l == "snd") return snd; if (l == "normal") return normal; if (l == "unif") return unif;
        if (l == "exp") return exp; if (l == "gamma") return gamma; if (l == "poisson") return poisson;
        throw std::string("driver: law " + l);
    }
};
struct Ref {                               // the reference engines, by absolute position
    std::string kind; unsigned dim = 0; unsigned long seed = 0; unsigned long k = 0;
    double next() {
        const unsigned long n = seed + k / dim; const unsigned c = k % dim; ++k;
        if (kind == "sobol") { boost::random::sobol e(dim); e.seed(n); e.discard(c); return static_cast<double>(e()) / 18446744073709551616.0; }
        boost::random::faure e(dim); e.seed(n); e.discard(c); return e();
    }
};
struct Gen { std::shared_ptr<NumberGenerator> g; Laws laws; Ref ref; std::string kind; };
static std::string history(drv::In& in) {
    std::map<std::string, Gen> gens; std::vector<std::string> ev;
    while (in.more()) {
        const std::string op = in.word();
        if (op == "new") {
            const std::string id = in.word(), kind = in.word(); const unsigned dim = in.u(); const unsigned long seed = in.u();
            Gen x; x.kind = kind; x.ref.kind = kind; x.ref.dim = dim; x.ref.seed = seed;
            const unsigned s = static_cast<unsigned>(seed);
            const std::string st = drv::attempt([&] {
                if (kind == "sobol") x.g = std::make_shared<SobolGenerator>(dim, s);
                else if (kind == "faure") x.g = std::make_shared<FaureGenerator>(dim, s);
                else if (kind == "free") { x.kind = "pseudo"; x.g = std::make_shared<PseudoRandomNumberGenerator>(dim); }     // seeds itself
                else x.g = std::make_shared<PseudoRandomNumberGenerator>(dim, s);
            });
            const bool small = seed < 500000000UL; static int fresh = 0;
            ev.push_back(Obj().add("e", str("new")).add("g", str(id)).add("kind", str(x.kind)).add("dim", std::to_string(dim)).add("seed", kind == "free" ? std::to_string(-++fresh) : small ? std::to_string(seed) : std::to_string(500000000UL + (seed * 2654435761UL) % 1500000000UL))
                .add("small", drv::boolean(small)).add("st", str(st)).add("getdim", x.g ? std::to_string(x.g->getDim()) : "-1").done());
            if (!x.g) break;
            gens.erase(id); gens.emplace(id, std::move(x));
        } else if (op == "copy") {
            const std::string id = in.word(), to = in.word();
            const Gen& s = gens.at(id); Gen x{nullptr, s.laws, s.ref, s.kind};
            if (s.kind == "sobol") x.g = std::make_shared<SobolGenerator>(static_cast<const SobolGenerator&>(*s.g));
            else if (s.kind == "faure") x.g = std::make_shared<FaureGenerator>(static_cast<const FaureGenerator&>(*s.g));
            else x.g = std::make_shared<PseudoRandomNumberGenerator>(static_cast<const PseudoRandomNumberGenerator&>(*s.g));
            ev.push_back(Obj().add("e", str("copy")).add("g", str(id)).add("to", str(to)).done());
            gens.erase(to); gens.emplace(to, std::move(x));
        } else if (op == "draw") {
            const std::string id = in.word(), law = in.word(); long n = in.i();
            for (; n > 0; --n) {
                Gen& g = gens.at(id); double v = 0; bool ok = drv::attempt([&] { v = (*g.g)(g.laws.get(law)); }) == "ok";
                Obj o; o.add("e", str("draw")).add("g", str(id)).add("law", str(law)).add("v", ok ? num(v) : str("none"));
                if (g.kind != "pseudo") o.add("ref", num(g.ref.next()));
                ev.push_back(o.done());
            }
        } else if (op == "skip") {             // many draws, none of them recorded
            const std::string id = in.word(); const unsigned long n = in.u(); Gen& g = gens.at(id);
            const std::string st = drv::attempt([&] { for (unsigned long k = 0; k < n; ++k) (*g.g)(g.laws.get("rec")); });
            g.ref.k += n;
            ev.push_back(Obj().add("e", str("skip")).add("g", str(id)).add("n", std::to_string(n)).add("st", str(st)).done());
        } else throw std::string("driver: op " + op);
    }
    return Obj().add("st", str("ok")).add("ev", drv::list(ev)).done();
}
static std::unique_ptr<Distribution> make(const std::string& ty, double a, double b) {
    if (ty == "normal") return std::make_unique<NormalDistribution>(a, b);
    if (ty == "uniform") return std::make_unique<ContinuousUniformDistribution>(a, b);
    if (ty == "exp") return std::make_unique<ExponentialDistribution>(a);
    if (ty == "gamma") return std::make_unique<GammaDistribution>(a, b);
    if (ty == "poisson") return std::make_unique<PoissonDistribution>(a);
    if (ty == "snd") return std::make_unique<StandardNormalDistribution>();
    throw std::string("driver: type " + ty);
}
static std::string program(drv::In& in) {
    const std::string k = in.word();
    if (k == "hist") return history(in);
    Obj c; c.add("k", str(k));
    if (k == "q") {
        const double p = in.d(); const bool sym = p > 0 && p < 1 && 1.0 - (1.0 - p) == p;
        double x = 0, q = 0; StandardNormalDistribution d;
        const std::string st = drv::attempt([&] { x = d.inv_cdf(p); if (sym) q = d.inv_cdf(1.0 - p); });
        c.add("p", num(p)).add("st", str(st)).add("x", num(x)).add("q", num(q)).add("sym", drv::boolean(sym));
    } else if (k == "m") {
        const std::vector<double> ps = in.ds(); std::vector<double> xs; StandardNormalDistribution d;
        for (double p : ps) xs.push_back(d.inv_cdf(p));
        c.add("ps", drv::nums(ps)).add("xs", drv::nums(xs));
    } else if (k == "p") {
        const std::string ty = in.word(); const double a = in.d(), b = in.d();
        std::unique_ptr<Distribution> d; std::string inv = "none";
        const std::string st = drv::attempt([&] { d = make(ty, a, b); });
        if (d && ty != "snd") inv = drv::attempt([&] { (void)d->inv_cdf(0.3); });
        c.add("ty", str(ty)).add("a", num(a)).add("b", num(b)).add("st", str(st)).add("inv", str(inv));
    } else if (k == "s") {
        const std::string ty = in.word(); const double a = in.d(), b = in.d(), m = in.d(); const long n = in.i(); const unsigned seed = in.u();
        const std::vector<double> xs = in.ds(); std::vector<long> cnt(xs.size()); std::vector<std::string> cs, ks;
        double mn = HUGE_VAL, mx = -HUGE_VAL; long double s = 0, q = 0; bool whole = true, fin = true;
        const std::string st = drv::attempt([&] {
            const auto d = make(ty, a, b); PseudoRandomNumberGenerator g(1, seed); std::mt19937 g2(seed + 1);
            for (long i = 0; i < n; ++i) {
                const double x = i % 2 ? g(*d) : (*d)(g2);
                if (!std::isfinite(x)) fin = false;
                mn = std::min(mn, x); mx = std::max(mx, x); s += x - m; q += (x - m) * (x - m); whole = whole && x == std::floor(x);
                for (size_t j = 0; j < xs.size(); ++j) cnt[j] += x <= xs[j];
            }
        });
        for (size_t j = 0; j < xs.size(); ++j) { cs.push_back(std::to_string(cnt[j])); ks.push_back(std::to_string(ty == "poisson" ? static_cast<long>(std::floor(xs[j])) : 0)); }
        c.add("ty", str(ty)).add("a", num(a)).add("b", num(b)).add("st", str(st)).add("n", std::to_string(n)).add("min", fin ? num(mn) : str("nan")).add("max", num(mx)).add("mean", num(m + static_cast<double>(s / n)))
         .add("var", num(static_cast<double>(q / n))).add("whole", drv::boolean(whole)).add("xs", drv::nums(xs)).add("ks", drv::list(ks)).add("cnt", drv::list(cs));
    } else throw std::string("driver: kind " + k);
    return Obj().add("st", str("ok")).add("c", c.done()).done();
}
int main(int argc, char** argv) { return drv::run(argc, argv, program); }
