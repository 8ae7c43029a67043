// Linear solvers, interpolation, regression, basis functions.
#include "drv.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
using namespace OptionPricer;
using drv::Obj; using drv::num; using drv::str;
using V = std::vector<double>;
static std::string vec(const Eigen::VectorXd& v) { return drv::nums(V(v.data(), v.data() + v.size())); }
static std::string mat(const Eigen::MatrixXd& m) {
    std::vector<std::string> r; for (int i = 0; i < m.rows(); ++i) { V row; for (int j = 0; j < m.cols(); ++j) row.push_back(m(i, j)); r.push_back(drv::nums(row)); }
    return drv::list(r);
}
static Eigen::VectorXd readVec(drv::In& in) { const V v = in.ds(); Eigen::VectorXd r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
static Eigen::MatrixXd readMat(drv::In& in) { const long n = in.i(), m = in.i(); Eigen::MatrixXd A(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) A(i, j) = in.d(); return A; }
// An object of each kind is kept and used again for every case; it must answer as a new one does.
template <class T, class F> static T& kept(const std::string& name, F make) { static std::map<std::string, std::unique_ptr<T>> m; auto& p = m[name]; if (!p) p = make(); return *p; }
template <class V> static bool apart(const V& a, const V& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return true;
    if (a.size() == 0 || !a.allFinite() || !b.allFinite()) return false;
    const double m = std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff());
    return (a - b).cwiseAbs().maxCoeff() > 1e-10 * m;
}
static std::string program(drv::In& in) {
    const std::string k = in.word(); Obj c; c.add("k", str(k));
    if (k == "solve") {
        // which solver, how the matrix is stored (compressed or not, with explicit zeros or not), what is expected, A, b, exact x
        const std::string which = in.word(), store = in.word(), expect = in.word(); const Eigen::MatrixXd M = readMat(in); const Eigen::VectorXd b0 = readVec(in), x0 = readVec(in);
        Eigen::SparseMatrix<double> A(M.rows(), M.cols());
        if (store == "insert") { A.reserve(Eigen::VectorXi::Constant(M.cols(), static_cast<int>(M.rows()))); for (int j = 0; j < M.cols(); ++j) for (int i = static_cast<int>(M.rows()) - 1; i >= 0; --i) if (M(i, j) != 0) A.insert(i, j) = M(i, j); }
        else { std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < M.rows(); ++i) for (int j = 0; j < M.cols(); ++j) if (M(i, j) != 0 || store == "zeros") t.emplace_back(i, j, M(i, j)); A.setFromTriplets(t.begin(), t.end()); }
        Eigen::VectorXd b = b0, x(0);
        const auto make = [&]() -> std::unique_ptr<MatrixSolver> { if (which == "lu") return std::make_unique<LUDecompositionSolver>(); if (which == "plu") return std::make_unique<PartialPivotingLUSolver>(); return std::make_unique<ThomasAlgorithm>(); };
        const auto s = make();
        std::string st = drv::attempt([&] { x = s->solve(A, b); });
        if (st == "ok") { Eigen::VectorXd y; st = drv::attempt([&] { y = s->solve(A, b); }); if (st == "ok" && y != x && !(x.array() != x.array()).any()) x[0] = std::nan(""); }   // and again
        Eigen::VectorXd w(0); const std::string st2 = drv::attempt([&] { w = kept<MatrixSolver>(which, make).solve(A, b); });
        if (st2 != st) st = st2; else if (st == "ok" && x.size() && apart(x, w)) x = w;
        c.add("st", str(st)).add("expect", str(expect)).add("A", mat(M)).add("b", vec(b0)).add("x", vec(x)).add("x0", vec(x0)).add("same", drv::boolean(Eigen::MatrixXd(A) == M && b == b0));
    } else if (k == "interp") {
        const std::string how = in.word(); const V xs = in.ds(), ys = in.ds(), x = in.ds(); V v;
        const std::string st = drv::attempt([&] {
            const auto make = [&]() -> std::unique_ptr<Interpolation> { if (how == "linear") return std::make_unique<LinearInterpolation>(); return std::make_unique<QuadraticInterpolation>(); };
            const auto p = make();
            for (double t : x) { v.push_back(p->interpolate(xs, ys, t)); if (kept<Interpolation>(how, make).interpolate(xs, ys, t) != v.back()) v.back() = std::nan(""); }
        });
        c.add("how", str(how)).add("xs", drv::nums(xs)).add("ys", drv::nums(ys)).add("x", drv::nums(x)).add("v", drv::nums(v)).add("st", str(st));
    } else if (k == "reg") {
        const Eigen::MatrixXd A = readMat(in); const Eigen::VectorXd y = readVec(in); const double lam = in.d(); const bool full = in.word() == "full"; const std::string tol = in.word();
        Eigen::VectorXd ls(0), ri(0), la(0);
        const std::string st = drv::attempt([&] { LeastSquaresRegression r; ls = r.solve(A, y); const Eigen::VectorXd w = kept<Regression>("ls", [] { return std::make_unique<LeastSquaresRegression>(); }).solve(A, y); if (apart(ls, w)) ls = w; });
        const std::string rs = drv::attempt([&] { RidgeRegression r(lam); ri = r.solve(A, y); const Eigen::VectorXd w = kept<Regression>("r" + num(lam), [&] { return std::make_unique<RidgeRegression>(lam); }).solve(A, y); if (apart(ri, w)) ri = w; });
        const std::string lst = drv::attempt([&] { LassoRegression r(lam); la = r.solve(A, y); const Eigen::VectorXd w = kept<Regression>("l" + num(lam), [&] { return std::make_unique<LassoRegression>(lam); }).solve(A, y); if (apart(la, w)) la = w; });
        c.add("st", str(st)).add("ridgest", str(rs)).add("lassost", str(lst)).add("A", mat(A)).add("y", vec(y)).add("lam", num(lam)).add("full", drv::boolean(full)).add("tol", str(tol)).add("ls", vec(ls)).add("ridge", vec(ri)).add("lasso", vec(la));
    } else if (k == "basis") {
        const std::string fam = in.word(); const unsigned n = in.u(); const Eigen::VectorXd x = readVec(in); Eigen::MatrixXd m(0, 0);
        const std::string st = drv::attempt([&] {
            const auto make = [&]() -> std::unique_ptr<BasisFunction> {
                if (fam == "monomial") return std::make_unique<MonomialBasisFunction>(n); if (fam == "chebyshev") return std::make_unique<ChebyshevBasisFunction>(n);
                if (fam == "legendre") return std::make_unique<LegendreBasisFunction>(n); return std::make_unique<LaguerreBasisFunction>(n); };
            m = make()->generate(x);
            const Eigen::MatrixXd w = kept<BasisFunction>(fam + std::to_string(n), make).generate(x); if (apart(m, w)) m = w;
        });
        c.add("st", str(st)).add("fam", str(fam)).add("n", std::to_string(n)).add("x", vec(x)).add("rows", mat(m));
    } else throw std::string("driver: kind " + k);
    return Obj().add("st", str("ok")).add("c", c.done()).done();
}
int main(int argc, char** argv) { return drv::run(argc, argv, program); }
