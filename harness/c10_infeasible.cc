// Infeasible or unbounded problems are never reported solved, and an
// infeasibility flag names a condition the problem has.
#include "harness/lp_common.h"
#include "harness/zoo.h"

using namespace sc;

namespace {

void Judge(Ctx& c, const Outcome& o, bool feasible, bool unbounded, const std::string& s) {
  c.state(HashOf(o));
  c.judged();
  c.check(!o.solved, feasible ? "unbounded-solved" : "infeasible-solved", s + Str(o));
  c.count(feasible ? "unbounded" : "infeasible");
  if (o.status.primal_infeasible) {
    c.count("flag-primal");
    c.check(!feasible, "primal-flag", s + Str(o));
  }
  if (o.status.dual_infeasible) {
    c.count("flag-dual");
    c.check(unbounded, "dual-flag", s + Str(o));
  }
  c.nontrivial();
}

void Linear(Ctx& c, int m, int lo, int hi, vector<double> costs, bool deep) {
  LPCase k = ReadLP(c, m, lo, hi, costs, deep, true);
  Facts f = Analyse(k.lp);
  bool feasible;
  if (f.feasible) {
    c.require(f.interior && !f.bounded);
    feasible = true;
  } else {
    c.require(f.margin > 1e-2);
    feasible = false;
  }
  // An improving direction, whether or not there are points.
  LP rec = k.lp;
  rec.b.setZero();
  bool direction = SolveBounded(Boxed(rec, 1)).value < -1e-6;
  static const vector<Mode> modes = Modes();
  const Mode& mode = c.among(modes);
  conex::Program p(m);
  AddRows(&p, k);
  p.AddLinearCost(k.lp.c);
  std::string s = k.lp.str() + " mode " + mode.name + (k.split.empty() ? " sparse " : k.split.size() > 1 ? " split " : " ");
  c.describe(s);
  Outcome o = Run(&p, mode.config);
  Judge(c, o, feasible, direction, s);
}

// Problems in one variable with two cone constraints: the least eigenvalue of
// the slack is a concave function of the variable.
void Cones(Ctx& c, int families, bool deep) {
  zoo::Cone a = zoo::Pick(c, 1, families, deep), b = zoo::Pick(c, 1, families, deep);
  if (!c.thorough) {
    bool mixed = (a.kind == zoo::kLinear || b.kind == zoo::kLinear || a.kind == zoo::kSOC || b.kind == zoo::kSOC);
    c.require(a.str() <= b.str() && (mixed || a.kind == b.kind));
  }
  double cost = c.among(c.thorough ? vector<double>{1, -1, 0} : vector<double>{1, -1});
  auto g = [&](double y) {
    VectorXd v = VectorXd::Constant(1, y);
    return std::min(a.Slack(v), b.Slack(v));
  };
  const double R = 1e3;
  double lo = -R, hi = R;
  for (int i = 0; i < 60; i++) {
    double p = lo + (hi - lo) * .45, q = lo + (hi - lo) * .55;
    if (g(p) < g(q)) lo = p;
    else hi = q;
  }
  double best = g(.5 * (lo + hi)), at = .5 * (lo + hi);
  bool feasible;
  bool unbounded = false;
  VectorXd dir = VectorXd::Constant(1, cost > 0 ? -1 : 1);
  if (cost != 0) unbounded = a.Recession(dir) > -1e-9 && b.Recession(dir) > -1e-9;
  if (best < -.05) {
    // Strongly infeasible: the maximum is attained well inside.
    c.require(std::fabs(at) < 100);
    feasible = false;
  } else {
    c.require(best > 1e-3 && unbounded);
    feasible = true;
  }
  static const vector<Mode> modes = Modes();
  const Mode& mode = c.thorough ? c.among(modes) : modes[c.choose(2) ? 2 : 0];
  if (mode.config.enable_line_search) c.require(a.LineSearch() && b.LineSearch());
  conex::Program p(1);
  vector<int> vars{0};
  std::string s = a.str() + " and " + b.str() + " cost " + std::to_string(cost) + " mode " + mode.name + " ";
  c.describe(s);
  a.Add(&p, vars);
  b.Add(&p, vars);
  p.AddLinearCost(VectorXd::Constant(1, cost));
  srand(1);
  Outcome o = Run(&p, mode.config);
  Judge(c, o, feasible, unbounded, s);
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"lp-1", [](Ctx& c) { Linear(c, 1, 1, c.pick(3, 5), {1, -1, 0, 20, -.05}, true); }, 3, false, "all sets of 1..3 (thorough 5) rows of 17 in one variable, 5 costs, 3 groupings, 6 modes"});
  v.push_back({"lp-2", [](Ctx& c) { Linear(c, 2, 2, c.pick(4, 7), {1, -1, 0}, c.thorough); }, 4, false, "all sets of 2..4 (thorough 7 of 15) rows of 11 in two variables, 9 costs"});
  v.push_back({"lp-3", [](Ctx& c) { Linear(c, 3, c.pick(5, 4), c.pick(5, 8), {1, -1}, false); }, 4, false, "all sets of 5 (thorough 4..8) rows of 11 in three variables, 8 costs"});
  v.push_back({"cones-1", [](Ctx& c) { Cones(c, zoo::kAll, c.thorough); }, 4, false, "all pairs of small cone constraints (8 kinds; in quick equal kinds, or one linear or second-order) in one variable, costs +-1 (thorough also 0), 2 (thorough 6) modes"});
  return mc::Main(argc, argv, v);
}
