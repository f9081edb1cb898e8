// Quadratic costs: a run reported solved is the minimiser of the total cost.
#include "harness/lp_common.h"

using namespace sc;

namespace {

struct Cost {
  MatrixXd Q;
  vector<int> vars;
};

MatrixXd Sym(std::initializer_list<double> v) {
  int n = std::sqrt((double)v.size());
  MatrixXd m(n, n);
  int i = 0;
  for (double x : v) m(i / n, i % n) = x, i++;
  return m;
}

vector<Cost> Costs(int m, bool deep) {
  vector<Cost> r;
  if (m == 1) {
    r = {{Sym({1}), {0}}, {Sym({3}), {0}}, {Sym({.25}), {0}}, {Sym({0}), {0}}, {Sym({50}), {0}}};
  } else if (m == 2) {
    r = {{Sym({1, 0, 0, 1}), {0, 1}}, {Sym({2, 1, 1, 3}), {0, 1}}, {Sym({2, 1, 1, 3}), {1, 0}}, {Sym({1, -1, -1, 1}), {0, 1}}, {Sym({2}), {1}}, {Sym({.5}), {0}}};
    if (deep) r.push_back({Sym({4, 2, 2, 1}), {1, 0}}), r.push_back({Sym({0, 0, 0, 0}), {0, 1}}), r.push_back({Sym({20, 3, 3, 1}), {1, 0}});
  } else {
    r = {{Sym({2, 1, 0, 1, 3, -1, 0, -1, 2}), {0, 1, 2}}, {Sym({2, 1, 0, 1, 3, -1, 0, -1, 1}), {2, 0, 1}}, {Sym({1, 1, 1, 2}), {2, 0}}, {Sym({1}), {1}}, {Sym({1, -1, -1, 1}), {0, 2}}};
    if (deep) r.push_back({Sym({1, 1, 1, 1}), {1, 2}}), r.push_back({Sym({5, 1, 1, 1, 1, 0, 1, 0, 1}), {0, 1, 2}});
  }
  return r;
}

vector<Mode> QPModes() {
  vector<Mode> v;
  conex::SolverConfiguration d;
  d.enable_line_search = 1;
  d.enable_rescaling = 0;
  d.max_iterations = 100;
  v.push_back({"default", d});
  auto e = d;
  e.inv_sqrt_mu_max = 1e5;
  e.final_centering_tolerance = 1.05;
  v.push_back({"tight", e});
  e = d;
  e.kkt_solver = 2;
  v.push_back({"qr", e});
  e = d;
  e.iterative_refinement_iterations = 2;
  e.dinf_upper_bound = .7;
  e.initial_centering_steps_coldstart = 1;
  v.push_back({"refined-centered-short-steps", e});
  e = d;
  e.kkt_solver = 1;
  e.inv_sqrt_mu_max = 300;
  e.prepare_dual_variables = 1;
  v.push_back({"ldlt-coarse-duals", e});
  return v;
}

void Case(Ctx& c, int m, int max_costs, vector<double> lin, bool deep) {
  auto al = Costs(m, deep);
  VectorXd ones = VectorXd::Ones(m);
  vector<Row> rows;
  int shape = c.choose(5);  // box / slanted half space / simplex / nothing / box and a cut / 
  for (int i = 0; i < m; i++) {
    VectorXd e = VectorXd::Unit(m, i);
    if (shape == 0 || shape == 4) rows.push_back({e, 1}), rows.push_back({-e, i == 0 ? 1. : .5});
    if (shape == 2) rows.push_back({-e, -.25});
  }
  if (shape == 1) rows.push_back({ones, -.5});
  if (shape == 2) rows.push_back({ones, 3});
  if (shape == 4) rows.push_back({ones - 2 * VectorXd::Unit(m, 0), -.25}), rows.push_back({3 * ones, 1});
  LP p;
  p.A.resize(rows.size(), m);
  p.b.resize(rows.size());
  for (size_t i = 0; i < rows.size(); i++) p.A.row(i) = rows[i].a.transpose(), p.b(i) = rows[i].b;
  int neq = m > 1 ? c.choose(3) : 0;
  p.E.resize(neq ? 1 : 0, m);
  p.d.resize(neq ? 1 : 0);
  if (neq == 1) p.E.row(0) = ones.transpose() - 3 * VectorXd::Unit(m, 0).transpose(), p.d(0) = .25;
  if (neq == 2) p.E.row(0) = 2 * VectorXd::Unit(m, m - 1).transpose(), p.d(0) = .75;
  int k = c.range(1, max_costs);
  vector<int> used;
  MatrixXd Q = MatrixXd::Zero(m, m);
  for (int i = 0; i < k; i++) {
    int j = c.choose((int)al.size());
    if (i) c.require(j >= used.back());
    used.push_back(j);
    for (size_t a = 0; a < al[j].vars.size(); a++)
      for (size_t b = 0; b < al[j].vars.size(); b++) Q(al[j].vars[a], al[j].vars[b]) += al[j].Q(a, b);
  }
  p.c.resize(m);
  for (int i = 0; i < m; i++) p.c(i) = c.among(lin);
  bool definite = Eigen::SelfAdjointEigenSolver<MatrixXd>(Q).eigenvalues().minCoeff() > .05;
  Facts f = Analyse(p);
  if (f.feasible) {
    c.require(f.interior);
    if (shape == 1 || shape == 3) c.require(definite);
  } else {
    c.require(f.margin > 1e-2);
  }
  static const vector<Mode> modes = QPModes();
  const Mode& mode = c.among(modes);
  int order = c.choose(3);
  // A variable no constraint mentions has no place in the system.
  if (shape == 3) c.require(definite);

  conex::Program prog(m);
  auto cost = [&](int i) {
    const Cost& q = al[used[i]];
    if ((int)q.vars.size() == m && std::is_sorted(q.vars.begin(), q.vars.end())) prog.AddQuadraticCost(q.Q);
    else prog.AddQuadraticCost(q.Q, q.vars);
  };
  auto eq = [&] {
    if (!neq) return;
    vector<int> v;
    for (int j = m - 1; j >= 0; j--)
      if (p.E(0, j) != 0) v.push_back(j);
    MatrixXd M(1, v.size());
    for (size_t j = 0; j < v.size(); j++) M(0, j) = p.E(0, v[j]);
    prog.AddConstraint(conex::EqualityConstraints(M, MatrixXd(p.d)), v);
  };
  auto ineq = [&] {
    if (!p.A.rows()) return;
    if (order == 1) {
      LPCase l;
      l.lp = p;
      AddRows(&prog, l);
    } else
      prog.AddConstraint(conex::LinearConstraint(p.A, MatrixXd(p.b)));
  };
  if (order == 0) ineq();
  cost(0);
  if (order == 1) eq();
  if (order == 1) ineq();
  for (int i = 1; i < k; i++) cost(i);
  if (order == 2) ineq();
  if (order != 1) eq();
  prog.AddLinearCost(p.c);
  std::string s = "Q=" + Str(Q) + " from " + std::to_string(k) + " costs, " + p.str() + " mode " + mode.name + " order " + std::to_string(order) + " ";
  c.describe(s);
  Outcome o = Run(&prog, mode.config);
  c.state(HashOf(o));
  c.judged();
  if (!f.feasible) {
    c.count("infeasible");
    c.check(!o.solved, "infeasible-solved", Str(o) + s);
    return;
  }
  c.nontrivial();
  Opt best = SolveQP(Q, p);
  c.require(best.feasible);
  s = Str(o) + " optimum " + std::to_string(best.value) + " at " + Str(best.x.transpose()) + " " + s;
  // At the tight accuracy a factorization may honestly fail.
  if (mode.config.inv_sqrt_mu_max < 1e4) c.check(o.solved, "not-solved", s);
  if (!o.solved) return;
  c.count("solved");
  c.check(o.y.allFinite(), "finite", s);
  const double tol = mode.config.inv_sqrt_mu_max < 500 ? 1e-4 : 1e-5;
  c.check(!p.A.rows() || (p.A * o.y - p.b).maxCoeff() < 1e-5, "infeasible-point", s);
  c.check(!neq || (p.E * o.y - p.d).cwiseAbs().maxCoeff() < 1e-4, "equality-violated", s);
  double v = .5 * o.y.dot(Q * o.y) + p.c.dot(o.y);
  c.check(v < best.value + tol * (p.A.rows() + 1) && v > best.value - 1e-5, "suboptimal", s + "value " + std::to_string(v));
}

// A quadratic cost without line search, or with rescaling, is refused.
void Refused(Ctx& c) {
  conex::SolverConfiguration d;
  d.enable_line_search = c.flip();
  d.enable_rescaling = c.flip();
  int m = c.range(1, 3);
  bool all = c.flip();
  conex::Program p(m);
  vector<int> vars;
  for (int i = 0; i < m; i++) vars.push_back(i);
  if (all) p.AddQuadraticCost(MatrixXd::Identity(m, m));
  else p.AddQuadraticCost(MatrixXd::Identity(m, m), vars);
  p.AddConstraint(conex::LinearConstraint(MatrixXd::Identity(m, m), MatrixXd::Ones(m, 1)));
  p.AddLinearCost(VectorXd::Constant(m, -.5));
  Outcome o = Run(&p, d);
  c.describe("line search " + std::to_string(d.enable_line_search) + " rescaling " + std::to_string(d.enable_rescaling));
  c.judged();
  c.state(HashOf(o));
  c.nontrivial();
  bool valid = d.enable_line_search && !d.enable_rescaling;
  c.check(!o.solved || (o.y - VectorXd::Constant(m, .5)).norm() < 1e-3, "refused-but-solved", Str(o));
  c.check(o.solved || !valid, "valid-not-solved", Str(o));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"qp-1", [](Ctx& c) { Case(c, 1, 3, {1, -1, 0, 20}, true); }, 3, false, "1..3 quadratic costs of 5 in one variable, 5 feasible sets"});
  v.push_back({"qp-2", [](Ctx& c) { Case(c, 2, c.pick(2, 3), {1, -1, 0}, c.thorough); }, 4, false, "1..2 (thorough 3) quadratic costs of 6 (thorough 9) in two variables, 5 feasible sets, 2 equalities"});
  v.push_back({"qp-3", [](Ctx& c) { Case(c, 3, c.pick(2, 3), c.thorough ? vector<double>{1, -1, 0} : vector<double>{1, -2}, c.thorough); }, 4, false, "1..2 (thorough 3) quadratic costs of 5 (thorough 7) in three variables, 5 feasible sets, 2 equalities"});
  v.push_back({"qp-refused", [](Ctx& c) { Refused(c); }, 0, false, "all settings of line search and rescaling"});
  return mc::Main(argc, argv, v);
}
