// Dual variables of a solved run certify its optimality: they lie in their
// cones, balance the cost, and their inner products with the slacks vanish.
#include "harness/capi.h"

using namespace capi;

namespace {

// Cones whose dual variables the library keeps in full; of the hypercomplex
// matrix cones the real part.
bool Full(const Cone& x) {
  if (x.kind & (zoo::kLinear | zoo::kDense | zoo::kReal)) return true;
  if (!(x.kind & zoo::kHermitian)) return false;
  for (size_t k = 1; k < x.c.size(); k++) {
    if (!x.c[k].isZero()) return false;
    for (auto& a : x.A)
      if (!a[k].isZero()) return false;
  }
  return true;
}

// The least eigenvalue (entry) of a dual variable.
double Least(const Cone& x, const MatrixXd& X) { return x.matrix() ? Eigen::SelfAdjointEigenSolver<MatrixXd>(.5 * (X + X.transpose())).eigenvalues().minCoeff() : X.minCoeff(); }

void Judge(Ctx& c, const Problem& p, const VectorXd& cost, const VectorXd& y, const vector<MatrixXd>& X, const std::string& tale, double mu) {
  const double size = 1 + cost.cwiseAbs().maxCoeff();
  VectorXd balance = cost;
  if (p.Q.size()) balance += p.Q * y;
  bool full = true;
  double gap = 0;
  int rank = 0;
  for (size_t k = 0; k < p.parts.size(); k++) {
    const Cone& x = p.parts[k].cone;
    std::ostringstream o;
    o.precision(9);
    o << tale << ": dual variable " << k << " of " << x.str() << " is " << Str(X[k]);
    c.check(X[k].allFinite(), "finite", o.str());
    c.check(!x.matrix() || (X[k] - X[k].transpose()).cwiseAbs().maxCoeff() < 1e-6 * (size + X[k].cwiseAbs().maxCoeff()), "symmetric", o.str());
    c.check(Least(x, X[k]) > -1e-6 * (size + X[k].cwiseAbs().maxCoeff()), "cone", o.str());
    if (!Full(x)) {
      full = false;
      continue;
    }
    VectorXd z(p.parts[k].vars.size());
    for (size_t i = 0; i < p.parts[k].vars.size(); i++) {
      z(i) = y(p.parts[k].vars[i]);
      balance(p.parts[k].vars[i]) += X[k].cwiseProduct(x.A[i][0]).sum();
    }
    const double g = X[k].cwiseProduct(x.At(z, 1)[0]).sum();
    gap += std::fabs(g);
    rank += x.Rank();
    o << " with inner product " << g << " with the slack";
    c.check(std::fabs(g) < 20 * mu * x.Rank() + 2e-5 * size * size, "complementarity", o.str());
  }
  if (full) {
    // The multipliers of equalities are free.
    if (p.E.rows()) {
      MatrixXd kernel = Eigen::FullPivLU<MatrixXd>(p.E).kernel();
      balance = kernel.transpose() * balance;
    }
    std::ostringstream o;
    o.precision(9);
    o << tale << ": the dual variables leave " << Str(balance.transpose()) << " of the cost, y=" << Str(y.transpose());
    for (auto& x : X) o << " " << Str(x);
    c.check(balance.cwiseAbs().maxCoeff() < 2e-4 * size, "stationarity", o.str());
    c.count("stationarity");
  }
  c.judged();
}

conex::SolverConfiguration Mode(Ctx& c, const Problem& p) {
  auto k = Base(p);
  k.prepare_dual_variables = 1;
  k.max_iterations = 100;
  switch (c.choose(p.Q.size() ? 3 : c.thorough ? 8 : 6)) {
    case 0: break;
    case 1: k.inv_sqrt_mu_max = 100; break;
    case 2: k.kkt_solver = 2; break;
    case 3: k.enable_rescaling = 0; break;
    case 4: k.final_centering_steps = 1; break;
    case 5: k.enable_line_search = 1, k.kkt_solver = 1; break;
    case 6: k.initial_centering_steps_coldstart = 3, k.final_centering_steps = 0; break;
    default: k.iterative_refinement_iterations = 1; break;
  }
  return k;
}

// Solves with the native or the C interface (which knows dual variables of
// constraints on all variables in order) and reads all dual variables.
void Run(Ctx& c, const Problem& p, const VectorXd& cost, const std::string& name, bool warm) {
  const auto k = Mode(c, p);
  std::ostringstream o;
  o << name << " cost " << Str(cost.transpose()) << " mu " << 1 / (k.inv_sqrt_mu_max * k.inv_sqrt_mu_max) << (k.enable_rescaling ? "" : " unscaled") << (k.enable_line_search ? " line search" : "") << " solver " << k.kkt_solver << (warm ? " warm" : "");
  const std::string tale = o.str();
  c.describe(tale);
  conex::Program program(p.m);
  // The cone of the caller's memory is irrelevant; use it every other time.
  p.Build(&program);
  program.AddLinearCost(cost);
  VectorXd y(p.m);
  srand(1);
  if (warm) {
    auto first = k;
    first.inv_sqrt_mu_max = 10;
    conex::Solve(program, first, y.data());
  }
  auto second = k;
  second.initialization_mode = warm;
  bool solved = conex::Solve(program, second, y.data());
  c.count(solved ? "solved" : "not_solved");
  c.state(mc::Hash().add(tale).add(solved).real(y(0), 1e-5));
  if (!solved) {
    c.judged();
    return;
  }
  vector<MatrixXd> X;
  for (size_t i = 0; i < p.parts.size(); i++) {
    const Cone& x = p.parts[i].cone;
    const int size = x.matrix() ? x.rows() * x.rows() : x.rows(), got = program.GetDualVariableSize(i);
    c.check(got == size, "size", tale + ": dual variable " + std::to_string(i) + " has size " + std::to_string(got));
    MatrixXd v = MatrixXd::Constant(x.rows(), size / x.rows(), -77);
    program.GetDualVariable(i, &v);
    MatrixXd w = MatrixXd::Constant(x.rows(), size / x.rows(), 33);
    CONEX_GetDualVariable(&program, i, w.data(), w.rows(), w.cols());
    c.check(CONEX_GetDualVariableSize(&program, i) == size, "size", tale + ": the C interface has size " + std::to_string(got) + " for dual variable " + std::to_string(i));
    for (int j = 0; j < size; j++) c.check(SameBits(v.data()[j], w.data()[j]), "interfaces", tale + ": dual variable " + std::to_string(i) + " is " + Str(v) + " and through the C interface " + Str(w));
    X.push_back(v);
  }
  Judge(c, p, cost, y, X, tale, 1 / (k.inv_sqrt_mu_max * k.inv_sqrt_mu_max));
  c.nontrivial();
}

void Named(Ctx& c, const Problem& p) {
  const VectorXd cost = p.costs[c.choose(p.costs.size())] * c.among(vector<double>{1, .01, 20});
  Run(c, p, cost, p.name, c.flip());
}

// Boxes with one or two further constraints, in every order.
void Mix(Ctx& c, int most) {
  Problem p;
  p.name = "mix";
  const int kinds[] = {zoo::kLinear, zoo::kDense, zoo::kReal, zoo::kComplex, zoo::kQuaternion, zoo::kOctonion};
  const int n = c.range(1, most);
  for (int i = 0; i < n; i++) {
    Part x;
    x.cone.kind = c.among(vector<int>(kinds, kinds + (c.thorough || n == 1 ? 6 : 4)));
    int d = zoo::Dim(x.cone.kind);
    const int shape = c.choose(x.cone.kind == zoo::kLinear ? 3 : 4);
    if (x.cone.kind == zoo::kLinear) {
      switch (shape) {
        case 0: x.cone.A = {Vec({1, -1}), Vec({2, .5})}, x.cone.c = Vec({1, .5}); break;
        case 1: x.cone.A = {Vec({1, 0, -1}), Vec({1, 3, 0})}, x.cone.c = Vec({.25, 1, .75}); break;
        default: x.cone.A = {Vec({-3}), Vec({1})}, x.cone.c = Vec({2}); break;
      }
    } else {
      switch (shape) {
        case 0: x.cone.A = {Mat(d, 1, -1), Mat(d, 0, 0, 0, 1)}, x.cone.c = Mat(d, .75, .75); break;
        case 1: x.cone.A = {Mat(d, 1, 2, 0, 1), Mat(d, -1, 1, 0, .5)}, x.cone.c = Mat(d, 2, 1, 0, .5); break;
        case 2: x.cone.A = {Mat(d, 2, 0), Mat(d, 0, -1, 0, 1)}, x.cone.c = Mat(d, 1, .5); break;
        default: x.cone.A = {Mat(d, 1, -1), Mat(d, 0, 0, d - 1, 1)}, x.cone.c = Mat(d, .8, .8); break;
      }
    }
    x.vars = c.flip() ? vector<int>{1, 0} : vector<int>{0, 1};
    p.parts.push_back(x);
  }
  p.parts.insert(p.parts.begin() + c.range(0, n), Box(2, 1.25));
  p.m = 2;
  VectorXd cost = c.among(vector<VectorXd>{V2(1, 0), V2(-1, 2), V2(1, 1), V2(0, -3)});
  std::string name;
  for (auto& x : p.parts) {
    name += x.cone.str();
    for (int v : x.vars) name += char('0' + v);
    name += " ";
  }
  Run(c, p, cost, name, false);
}

// Dual variables of second-order cones balance the cost together with those
// of a box (a known finding: the library returns uninitialised memory).
void SecondOrder(Ctx& c) {
  Problem p;
  p.m = 2;
  Part x;
  x.cone.kind = c.flip() ? zoo::kSOC : zoo::kQuad;
  x.cone.A = {Vec({0, -1, 0}), Vec({0, 0, -1})};
  x.cone.c = Vec({1, 0, 0});
  x.vars = {0, 1};
  p.parts = {Box(2, 5), x};
  const VectorXd cost = c.among(vector<VectorXd>{V2(1, 0), V2(-1, 2), V2(0, -3)});
  conex::Program program(2);
  p.Build(&program);
  program.AddLinearCost(cost);
  auto k = Base(p);
  k.prepare_dual_variables = 1;
  VectorXd y(2);
  srand(1);
  c.describe(x.cone.str() + " cost " + Str(cost.transpose()));
  const bool solved = conex::Solve(program, k, y.data());
  c.judged();
  c.nontrivial();
  if (!solved) return;
  MatrixXd X = MatrixXd::Constant(3, 1, -77), Z = MatrixXd::Constant(4, 1, -77);
  program.GetDualVariable(0, &Z);
  program.GetDualVariable(1, &X);
  VectorXd balance = cost;
  for (int i = 0; i < 2; i++) balance(i) += Z.cwiseProduct(p.parts[0].cone.A[i][0]).sum() + X.cwiseProduct(x.cone.A[i][0]).sum();
  const bool in = X.allFinite() && X(0) - X.bottomRows(2).norm() > -1e-4;
  c.check(in && balance.cwiseAbs().maxCoeff() < 2e-3, "second-order-duals", x.cone.str() + " within a box: cost " + Str(cost.transpose()) + ", the dual variables " + Str(Z.transpose()) + " and " + Str(X.transpose()) + " leave " + Str(balance.transpose()));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (auto& p : Problems())
    if (!p.has(zoo::kSOC | zoo::kQuad)) v.push_back({p.name, [&p](Ctx& c) { Named(c, p); }, 2, false, "every cost, scale, start and solver mode"});
  v.push_back({"second-order", SecondOrder, 1, false, "a second-order and a quadratic cone within a box, every cost"});
  v.push_back({"mix", [](Ctx& c) { Mix(c, 2); }, 5, false, "a box and every list of one or two linear or matrix constraints of an alphabet with either variable order, at every position, every cost and solver mode"});
  return mc::Main(argc, argv, v);
}
