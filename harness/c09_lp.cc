// Linear programs with interior and bounded minimisers: solved, feasible and
// optimal.
#include "harness/lp_common.h"

using namespace sc;

namespace {

void Case(Ctx& c, int m, int lo, int hi, vector<double> costs, bool deep) {
  LPCase k = ReadLP(c, m, lo, hi, costs, deep, true);
  Facts f = Analyse(k.lp);
  c.require(f.feasible && f.interior && f.bounded && f.compact);
  static const vector<Mode> modes = Modes();
  const Mode& mode = c.among(modes);
  conex::Program p(m);
  AddRows(&p, k);
  p.AddLinearCost(k.lp.c);
  Outcome o = Run(&p, mode.config);
  c.describe(k.lp.str() + " mode " + mode.name + (k.split.empty() ? " sparse" : k.split.size() > 1 ? " split" : ""));
  std::string s = Str(o) + " optimum " + std::to_string(f.value) + " at [" + Str(f.x.transpose()) + "] ";
  c.state(HashOf(o));
  c.judged();
  if (k.lp.c.norm() > 0) c.nontrivial();
  c.check(o.solved, "not-solved", s);
  c.check(!o.status.primal_infeasible && !o.status.dual_infeasible, "flag", s);
  c.check(o.y.allFinite(), "finite", s);
  double viol = (k.lp.A * o.y - k.lp.b).maxCoeff();
  c.check(viol < 1e-6, "infeasible-point", s + "violation " + std::to_string(viol));
  double v = k.lp.c.dot(o.y);
  c.check(v < f.value + 2e-3 * (1 + std::fabs(f.value)) && v > f.value - 1e-5, "suboptimal", s + "value " + std::to_string(v));
}

// Beyond the accuracy double precision supports, an honest failure is fine but
// "solved" with an infeasible point is not.
void Breakdown(Ctx& c) {
  conex::SolverConfiguration d;
  d.inv_sqrt_mu_max = 1e4;
  d.initial_centering_steps_coldstart = 2;
  d.prepare_dual_variables = 1;
  d.max_iterations = 100;
  MatrixXd A(3, 2);
  VectorXd b(3), cost(2);
  A << 1, 0, -1, 0, -1, -1;
  b << 1, 1, -3;
  cost << 1, 1;
  conex::Program p(2);
  p.AddConstraint(conex::LinearConstraint(A, MatrixXd(b)));
  p.AddLinearCost(cost);
  Outcome o = Run(&p, d);
  c.describe("min [1 1]x, [1 0; -1 0; -1 -1]x<=[1 1 -3], inv_sqrt_mu_max 1e4, 2 initial centering steps");
  c.judged();
  c.state(HashOf(o));
  c.check(!o.solved || (A * o.y - b).maxCoeff() < 1e-3, "breakdown-reported-solved", Str(o));
}

// min c'y subject to the rows of A y <= b (groups of rows and the variables
// they mention), whose exact optimum is known from a combinatorial algorithm.
struct Sparse {
  struct Group {
    MatrixXd A;
    VectorXd b;
    vector<int> vars;
  };
  int m = 0;
  VectorXd c;
  vector<Group> groups;
  double value = 0;
};

void JudgeSparse(Ctx& c, const Sparse& k, const Mode& mode, const std::string& what) {
  conex::Program p(k.m);
  for (auto& g : k.groups) {
    if ((int)g.vars.size() == k.m && std::is_sorted(g.vars.begin(), g.vars.end()))
      p.AddConstraint(conex::LinearConstraint(g.A, MatrixXd(g.b)));
    else
      p.AddConstraint(conex::LinearConstraint(g.A, MatrixXd(g.b)), g.vars);
  }
  p.AddLinearCost(k.c);
  Outcome o = Run(&p, mode.config);
  c.describe(what + " mode " + mode.name);
  c.state(HashOf(o));
  c.judged();
  c.nontrivial();
  auto s = [&] { return Str(o) + " optimum " + std::to_string(k.value) + " "; };
  c.check(o.solved, "not-solved", s);
  c.check(!o.status.primal_infeasible && !o.status.dual_infeasible, "flag", s);
  c.check(o.y.allFinite(), "finite", s);
  double viol = 0;
  for (auto& g : k.groups) {
    VectorXd z(g.vars.size());
    for (size_t i = 0; i < g.vars.size(); i++) z(i) = o.y(g.vars[i]);
    viol = std::max(viol, (g.A * z - g.b).maxCoeff());
  }
  c.check(viol < 1e-6, "infeasible-point", [&] { return s() + "violation " + std::to_string(viol); });
  double v = k.c.dot(o.y);
  c.check(v < k.value + 2e-3 * (1 + std::fabs(k.value)) && v > k.value - 1e-5 * (1 + std::fabs(k.value)), "suboptimal", [&] { return s() + "value " + std::to_string(v); });
}

// max p'y, 0 <= y <= u, a'y <= b: solved by taking the variables in the order
// of p/a.
void Knapsack(Ctx& c) {
  static const vector<int> sizes_q{4, 5, 8, 9, 13, 20}, sizes_d{4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40};
  int n = c.among(c.thorough ? sizes_d : sizes_q);
  int profit = c.choose(4), weight = c.choose(3), grouping = c.choose(5);
  static const vector<double> fractions{.1, .5, .85};
  double fraction = c.among(fractions);
  static const vector<Mode> modes = Modes();
  const Mode& mode = c.among(modes);
  VectorXd p(n), a(n), u(n);
  for (int i = 0; i < n; i++) {
    p(i) = profit == 0 ? 1 + i : profit == 1 ? 1 + (i * 7) % 5 : profit == 2 ? (i % 3) - 1. : 1 + .25 * ((i * i) % 7);
    a(i) = weight == 0 ? 1 : weight == 1 ? 1 + (i * 3) % 4 : .5 + (i % 2) * 2;
    u(i) = 1 + .5 * (i % 3);
  }
  double b = fraction * a.dot(u);
  Sparse k;
  k.m = n;
  k.c = -p;
  vector<int> order(n), all(n);
  for (int i = 0; i < n; i++) order[i] = all[i] = i;
  std::stable_sort(order.begin(), order.end(), [&](int x, int y) { return p(x) / a(x) > p(y) / a(y); });
  double left = b;
  for (int i : order) {
    if (p(i) <= 0) break;
    double t = std::min(u(i), left / a(i));
    left -= t * a(i);
    k.value -= p(i) * t;
  }
  MatrixXd I = MatrixXd::Identity(n, n);
  auto box = [&](int at, int s) {
    Sparse::Group g;
    g.A.resize(2 * s, s);
    g.A << MatrixXd::Identity(s, s), -MatrixXd::Identity(s, s);
    g.b.resize(2 * s);
    g.b << u.segment(at, s), VectorXd::Zero(s);
    for (int i = 0; i < s; i++) g.vars.push_back(at + i);
    k.groups.push_back(g);
  };
  Sparse::Group row{MatrixXd(a.transpose()), VectorXd::Constant(1, b), all};
  switch (grouping) {
    case 0: {  // everything in one object
      Sparse::Group g{MatrixXd(2 * n + 1, n), VectorXd(2 * n + 1), all};
      g.A << I, a.transpose(), -I;
      g.b << u, b, VectorXd::Zero(n);
      k.groups.push_back(g);
      break;
    }
    case 1:  // the coupling row first
      k.groups.push_back(row);
      for (int i = 0; i < n; i++) box(i, 1);
      break;
    case 2:
      for (int i = n - 1; i >= 0; i--) box(i, 1);
      k.groups.push_back(row);
      break;
    case 3: {  // blocks of three, coupling row over the reversed variables
      for (int i = 0; i < n; i += 3) box(i, std::min(3, n - i));
      Sparse::Group r = row;
      r.A = row.A.rowwise().reverse().eval();
      std::reverse(r.vars.begin(), r.vars.end());
      k.groups.push_back(r);
      break;
    }
    default: {  // the coupling row together with the upper bounds
      Sparse::Group g{MatrixXd(n + 1, n), VectorXd(n + 1), all};
      g.A << a.transpose(), I;
      g.b << b, u;
      k.groups.push_back(g);
      k.groups.push_back({-I, VectorXd::Zero(n), all});
      break;
    }
  }
  JudgeSparse(c, k, mode, "knapsack n " + std::to_string(n) + " profit " + std::to_string(profit) + " weight " + std::to_string(weight) + " grouping " + std::to_string(grouping) + " fraction " + std::to_string(fraction));
}

// max sum y subject to y_0 <= 0, y_j - y_i <= w_ij on the arcs of a graph and
// y >= -1 : the distances from vertex 0.
void Distances(Ctx& c) {
  static const vector<int> sizes_q{4, 7, 10, 13}, sizes_d{3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17};
  int n = c.among(c.thorough ? sizes_d : sizes_q);
  int shape = c.choose(5), weights = c.choose(2), order = c.choose(3), both = c.choose(2);
  vector<std::pair<int, int>> arcs;
  for (int i = 1; i < n; i++) {
    int from = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : shape == 3 ? i - 1 : std::max(0, i - 2);
    arcs.push_back({from, i});
    if (shape == 4 && i > 2) arcs.push_back({i - 1, i});
  }
  if (shape == 3) arcs.push_back({0, n - 1});
  // Every chord, or none.
  int chord = c.choose(n * (n - 1) / 2 + 1);
  if (chord > 0) {
    int at = 0;
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        if (++at == chord) {
          for (auto& e : arcs) c.require(!(e.first == i && e.second == j));
          arcs.push_back({i, j});
        }
  }
  static const vector<Mode> modes = Modes();
  const Mode& mode = c.among(modes);
  Sparse k;
  k.m = n;
  k.c = VectorXd::Constant(n, -1);
  vector<double> w;
  for (auto& e : arcs) w.push_back(weights ? 1 : .5 + (e.first * 3 + e.second * 5) % 4);
  vector<double> d(n, 1e9);
  d[0] = 0;
  for (int it = 0; it < n; it++)
    for (size_t e = 0; e < arcs.size(); e++) {
      d[arcs[e].second] = std::min(d[arcs[e].second], d[arcs[e].first] + w[e]);
      if (both) d[arcs[e].first] = std::min(d[arcs[e].first], d[arcs[e].second] + w[e]);
    }
  for (double x : d) k.value -= x;
  MatrixXd one(1, 2);
  auto arc = [&](size_t e) {
    Sparse::Group g;
    int i = arcs[e].first, j = arcs[e].second;
    g.vars = {j, i};
    g.A.resize(both ? 2 : 1, 2);
    g.A.row(0) << 1, -1;
    if (both) g.A.row(1) << -1, 1;
    g.b = VectorXd::Constant(both ? 2 : 1, w[e]);
    k.groups.push_back(g);
  };
  auto low = [&](int i) { k.groups.push_back({MatrixXd::Constant(1, 1, -1), VectorXd::Constant(1, 1), {i}}); };
  Sparse::Group root{MatrixXd::Ones(1, 1), VectorXd::Zero(1), {0}};
  switch (order) {
    case 0:
      k.groups.push_back(root);
      for (size_t e = 0; e < arcs.size(); e++) arc(e);
      for (int i = 0; i < n; i++) low(i);
      break;
    case 1:
      for (int i = n - 1; i >= 0; i--) low(i);
      for (size_t e = arcs.size(); e-- > 0;) arc(e);
      k.groups.push_back(root);
      break;
    default:
      for (size_t e = 0; e < arcs.size(); e++) {
        arc(e);
        if ((int)e < n) low(((int)e * 5 + 2) % n == 0 ? 0 : (int)e);
      }
      k.groups.push_back(root);
      for (int i = 0; i < n; i++) low(i);
      break;
  }
  JudgeSparse(c, k, mode, "distances n " + std::to_string(n) + " shape " + std::to_string(shape) + " weights " + std::to_string(weights) + " order " + std::to_string(order) + " both " + std::to_string(both) + " chord " + std::to_string(chord));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"lp-1", [](Ctx& c) { Case(c, 1, 2, c.pick(4, 5), {1, -1, 0, 20, -.05}, true); }, 3, false, "all sets of 2..4 (thorough 5) rows of 17 in one variable, 5 costs, 3 groupings, 6 modes"});
  v.push_back({"lp-2", [](Ctx& c) { Case(c, 2, 3, c.pick(5, 7), {1, -1, 0}, c.thorough); }, 4, false, "all sets of 3..5 (thorough 7 of 15) rows of 11 in two variables, 9 costs, 3 groupings, 6 modes"});
  v.push_back({"lp-3", [](Ctx& c) { Case(c, 3, c.pick(6, 4), c.pick(7, 8), {1, -1}, false); }, 4, false, "all sets of 6..7 (thorough 4..8) rows of 11 in three variables, 8 costs, 3 groupings, 6 modes"});
  v.push_back({"lp-knapsack", [](Ctx& c) { Knapsack(c); }, 3, false, "knapsack programs of 4..20 (thorough 40) variables: 4 profits, 3 weights, 3 capacities, 5 groupings, 6 modes"});
  v.push_back({"lp-distances", [](Ctx& c) { Distances(c); }, 3, false, "shortest-path programs on 4..13 (thorough 17) vertices: 5 graphs with every further chord, 2 weights, one or two directions, 3 orders of the constraints, 6 modes"});
  v.push_back({"lp-breakdown", [](Ctx& c) { Breakdown(c); }, 0, false, "one program at an accuracy that double precision does not support"});
  return mc::Main(argc, argv, v);
}
