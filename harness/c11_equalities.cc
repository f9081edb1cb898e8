// Equality constraints: they hold at the solution, the optimum is that of the
// problem with them substituted out, and contradictory ones are not "solved".
#include "harness/lp_common.h"

using namespace sc;

namespace {

vector<Row> Equalities(int m, bool deep) {
  vector<Row> r;
  auto add = [&](std::initializer_list<double> a, double b) {
    VectorXd v(m);
    int i = 0;
    for (double x : a) v(i++) = x;
    r.push_back({v, b});
  };
  if (m == 1) {
    add({1}, .5), add({-2}, 1), add({1}, 0), add({1}, 4);
  } else if (m == 2) {
    add({1, 0}, .5), add({0, 1}, -.25), add({1, 1}, .5), add({2, 2}, 1), add({-1, 1}, 0), add({1, 3}, 1), add({1, 1}, -.5), add({0, -2}, .5);
  } else if (m == 3) {
    add({1, 0, 0}, .5), add({0, 0, 1}, -.25), add({1, 1, 0}, .5), add({0, 1, -1}, 0), add({1, 1, 1}, 1), add({-2, -2, 0}, -1);
    if (deep) add({0, 1, 0}, .125), add({1, -1, 2}, 0);
  } else {
    add({1, 0, 0, 0}, .5), add({0, 1, -1, 0}, 0), add({0, 0, 1, 1}, .5), add({1, 1, 1, 1}, 1), add({0, 0, 0, 3}, 1);
    if (deep) add({1, 0, 0, -1}, .25);
  }
  return r;
}

struct Eq {
  VectorXd a;
  double b;
  vector<int> vars;
};

// Boxes around the origin, one slanted row, and a choice of equalities.
void Case(Ctx& c, int m, int max_eq, vector<double> costs, bool deep) {
  auto al = Equalities(m, deep);
  LP p;
  int shape = c.choose(4);  // box / half the box and a slanted row / simplex / nothing
  vector<Row> rows;
  auto add = [&](VectorXd a, double b) { rows.push_back({a, b}); };
  VectorXd ones = VectorXd::Ones(m);
  for (int i = 0; i < m; i++) {
    VectorXd e = VectorXd::Unit(m, i);
    if (shape == 3) continue;
    if (shape != 1) add(-e, shape == 2 ? .5 : 1);
    if (shape == 0 || (shape == 1 && i != 0)) add(e, 1);
    if (shape == 1 && i == 0) add(-e, 2), add(e - .5 * ones, 1);
    if (shape == 1 && i == 1) add(-e, 1);
  }
  if (shape == 2) add(ones, 2);
  if (shape == 1) add(-ones, 3);
  p.A.resize(rows.size(), m);
  p.b.resize(rows.size());
  for (size_t i = 0; i < rows.size(); i++) p.A.row(i) = rows[i].a.transpose(), p.b(i) = rows[i].b;
  int k = c.range(1, max_eq);
  p.E.resize(k, m);
  p.d.resize(k);
  vector<int> used;
  for (int i = 0; i < k; i++) {
    int j = c.choose((int)al.size());
    // Sequences with repetition; in quick each multiset in two orders.
    if (!c.thorough && i >= 2) c.require(j > used.back());
    used.push_back(j);
    p.E.row(i) = al[j].a.transpose();
    p.d(i) = al[j].b;
  }
  p.c.resize(m);
  for (int i = 0; i < m; i++) p.c(i) = c.among(costs);

  int grouping = c.choose(k > 1 ? 3 : 2);  // one per row and sparse / first in its own block / all in one block
  int order = c.choose(3);                 // equalities first / last / around
  static const vector<Mode> modes = Modes();
  const Mode& mode = c.among(modes);

  Facts f = Analyse(p);
  Eigen::FullPivLU<MatrixXd> lu(p.E);
  bool independent = lu.rank() == k;
  if (f.feasible) c.require(f.interior && f.bounded && f.compact);
  else c.require(f.margin > 1e-2);

  conex::Program prog(m);
  auto sparse = [&](const VectorXd& a) {
    vector<int> v;
    for (int j = m - 1; j >= 0; j--)
      if (a(j) != 0) v.push_back(j);
    return v;
  };
  auto eq = [&](int from, int n, bool dense) {
    vector<int> v;
    if (dense)
      for (int j = 0; j < m; j++) v.push_back(j);
    else v = sparse(p.E.row(from).transpose());
    MatrixXd M(n, v.size());
    for (int i = 0; i < n; i++)
      for (size_t j = 0; j < v.size(); j++) M(i, j) = p.E(from + i, v[j]);
    prog.AddConstraint(conex::EqualityConstraints(M, MatrixXd(p.d.segment(from, n))), v);
  };
  vector<std::function<void()>> todo;
  if (grouping == 0)
    for (int i = 0; i < k; i++) todo.push_back([&, i] { eq(i, 1, false); });
  else if (grouping == 1 && k > 1) {
    todo.push_back([&] { eq(0, 1, false); });
    todo.push_back([&] { eq(1, k - 1, true); });
  } else
    todo.push_back([&] { eq(0, k, true); });
  auto ineq = [&] {
    if (shape == 3) return;
    if (shape == 0 && order != 1)  // one constraint per row, sparse
      for (int i = 0; i < p.A.rows(); i++) {
        auto v = sparse(p.A.row(i).transpose());
        MatrixXd r(1, v.size());
        for (size_t j = 0; j < v.size(); j++) r(0, j) = p.A(i, v[j]);
        prog.AddConstraint(conex::LinearConstraint(r, MatrixXd(p.b.segment(i, 1))), v);
      }
    else prog.AddConstraint(conex::LinearConstraint(p.A, MatrixXd(p.b)));
  };
  if (order == 0) {
    for (auto& t : todo) t();
    ineq();
  } else if (order == 1) {
    ineq();
    for (auto& t : todo) t();
  } else {
    todo[0]();
    ineq();
    for (size_t i = 1; i < todo.size(); i++) todo[i]();
  }
  prog.AddLinearCost(p.c);
  std::string s = p.str() + " mode " + mode.name + " grouping " + std::to_string(grouping) + " order " + std::to_string(order) + " ";
  c.describe(s);
  Outcome o = Run(&prog, mode.config);
  c.state(HashOf(o));
  c.judged();
  s = Str(o) + " optimum " + std::to_string(f.value) + " at [" + (f.feasible ? Str(f.x.transpose()) : "") + "] " + s;
  if (k > 1 || p.c.norm() > 0) c.nontrivial();
  if (!f.feasible) {
    c.count("infeasible");
    c.check(!o.solved, "infeasible-solved", s);
    return;
  }
  c.count(independent ? "independent" : "dependent");
  // Without a cone the system has no positive definite part; giving up is fine.
  if (shape == 3) {
    c.count("no-cone");
  } else if (independent) {
    c.check(o.solved, "not-solved", s);
  } else if (mode.config.kkt_solver == 2) {
    c.check(o.solved, "dependent-not-solved", s);
  }
  if (!o.solved) return;
  c.count("solved");
  c.check(o.y.allFinite(), "finite", s);
  double r = (p.E * o.y - p.d).cwiseAbs().maxCoeff();
  c.check(r < 2e-3, "equality-violated", s + "residual " + std::to_string(r));
  c.check(!p.A.rows() || (p.A * o.y - p.b).maxCoeff() < 1e-5, "infeasible-point", s);
  double v = p.c.dot(o.y);
  c.check(v < f.value + 2e-3 * (1 + std::fabs(f.value)) && v > f.value - 1e-4, "suboptimal", s + "value " + std::to_string(v));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"eq-1", [](Ctx& c) { Case(c, 1, 2, {1, -1, 0}, true); }, 3, false, "1..2 equalities of 4 in one variable"});
  v.push_back({"eq-2", [](Ctx& c) { Case(c, 2, c.pick(2, 3), {1, -1, 0}, true); }, 4, false, "1..2 (thorough 3) equalities of 8 in two variables"});
  v.push_back({"eq-3", [](Ctx& c) { Case(c, 3, c.pick(2, 3), {1, -1}, c.thorough); }, 4, false, "1..2 (thorough 3) equalities of 6 (thorough 8) in three variables"});
  v.push_back({"eq-4", [](Ctx& c) { Case(c, 4, c.pick(2, 3), c.thorough ? vector<double>{1, -1} : vector<double>{1}, c.thorough); }, 4, false, "1..2 (thorough 3) equalities of 5 (thorough 6) in four variables"});
  return mc::Main(argc, argv, v);
}
