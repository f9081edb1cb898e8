// The C interface's options are the native ones: same defaults, and bit for bit
// the same answer whatever (combinations of) options deviate from them.
#include "harness/capi.h"

using namespace capi;

namespace {

// The optimum of the first cost, by search over the definition.
double Reference(const Problem& p, int cost) {
  static std::map<std::string, double> cache;
  std::string key = p.name + char('0' + cost);
  auto it = cache.find(key);
  if (it == cache.end()) it = cache.emplace(key, p.Optimum(p.costs[cost])).first;
  return it->second;
}

std::string SameDefaults() {
  std::ostringstream o;
  CONEX_SolverConfiguration c = Defaults();
  conex::SolverConfiguration n;
  for (auto& opt : Options())
    if (!SameBits(opt.get_c(c), opt.get_native(n))) o << opt.name << " is " << opt.get_c(c) << " and not " << opt.get_native(n) << "; ";
  return o.str();
}

VectorXd Reversed(const VectorXd& v) { return -v; }

// Both interfaces on the same sequence of runs.
void Same(Ctx& c, const Problem& problem, const vector<std::pair<int, double>>& deviations, bool maximize, bool warm) {
  Handle h(problem.m);
  const bool built = Build(h.p, problem);
  conex::Program n(problem.m);
  BuildNative(&n, problem);
  std::string tale = problem.name;
  CONEX_SolverConfiguration cc = Defaults();
  conex::SolverConfiguration nc;
  if (problem.Q.size()) cc.enable_line_search = nc.enable_line_search = 1, cc.enable_rescaling = nc.enable_rescaling = 0;
  const CONEX_SolverConfiguration first_c = cc;
  const conex::SolverConfiguration first_n = nc;
  for (auto& d : deviations) {
    auto& o = Options()[d.first];
    o.c(&cc, d.second);
    o.native(&nc, d.second);
    tale += std::string(" ") + o.name + "=" + Str(VectorXd::Constant(1, d.second));
  }
  tale += maximize ? " maximize" : " solve";
  c.describe(tale);
  c.check(built, "build", tale + ": the C interface refused the program");
  const MatrixXd b = Reversed(problem.costs[0]);
  n.AddLinearCost(problem.costs[0]);
  if (!maximize) h.native()->AddLinearCost(problem.costs[0]);
  const int runs = warm ? 2 : 1;
  for (int run = 0; run < runs; run++) {
    const bool last = run == runs - 1;
    VectorXd yc = VectorXd::Constant(problem.m, 3.5), yn = yc;
    srand(11);
    auto& kc = last ? cc : first_c;
    int sc = maximize ? CONEX_Maximize(h.p, b.data(), problem.m, &kc, yc.data(), problem.m) : CONEX_Solve(h.p, &kc, yc.data(), problem.m);
    srand(11);
    auto& kn = last ? nc : first_n;
    bool sn = maximize ? conex::Solve(b, n, kn, yn.data()) : conex::Solve(n, kn, yn.data());
    c.check(sc == (int)sn, "status", tale + ": the C interface says " + std::to_string(sc) + ", the native interface " + std::to_string(sn));
    for (int i = 0; i < problem.m; i++) c.check(SameBits(yc(i), yn(i)), "answer", tale + ": y is " + Str(yc.transpose()) + " and not " + Str(yn.transpose()));
    CONEX_IterationStats st;
    const int N = n.Status().num_iterations;
    for (int i = 0; i <= N; i++) {
      st.mu = -5, st.iteration_number = -5;
      CONEX_GetIterationStats(h.p, &st, i);
      if (i == N) c.check(st.iteration_number == -5, "records", tale + ": more iterations recorded than the native run has");
      else c.check(SameBits(st.mu, 1.0 / (n.stats->sqrt_inv_mu[i] * n.stats->sqrt_inv_mu[i])), "records", tale + ": barrier parameter " + std::to_string(i) + " differs");
    }
    if (kn.prepare_dual_variables && N)
      for (size_t k = 0; k < problem.parts.size(); k++) {
        if (problem.parts[k].cone.kind & (zoo::kSOC | zoo::kQuad)) continue;
        int size = CONEX_GetDualVariableSize(h.p, k);
        c.check(size == n.GetDualVariableSize(k), "duals", tale + ": size of dual variable " + std::to_string(k));
        VectorXd xc = VectorXd::Constant(size, -7), xn = xc;
        CONEX_GetDualVariable(h.p, k, xc.data(), size, 1);
        n.GetDualVariable(k, &xn);
        for (int i = 0; i < size; i++) c.check(SameBits(xc(i), xn(i)), "duals", tale + ": dual variable " + std::to_string(k) + " is " + Str(xc.transpose()) + " and not " + Str(xn.transpose()));
        c.count("dual_variables");
      }
    c.count(sn ? "solved" : "not_solved");
    if (last) {
      mc::Hash s;
      s.add(problem.name).add(sc).add(N);
      for (int i = 0; i < problem.m; i++) s.real(yc(i), 1e-6);
      c.state(s);
    }
  }
  c.judged();
  if (!deviations.empty()) c.nontrivial();
}

void Case(Ctx& c, const Problem& problem, int most) {
  std::string d = SameDefaults();
  c.check(d.empty(), "defaults", "the default of " + d);
  vector<std::pair<int, double>> deviations;
  int first = 0;
  bool warm = false;
  for (int i = 0; i < most; i++) {
    int k = c.choose(Options().size() - first + 1);
    if (k == 0) break;
    first += k;
    auto& o = Options()[first - 1];
    deviations.push_back({first - 1, c.among(o.values)});
    std::string name = o.name;
    warm |= name == "initialization_mode";
  }
  Same(c, problem, deviations, c.flip(), warm);
}

// What each option names: judged on the records and the answer of the native
// interface.
struct Run {
  bool solved;
  VectorXd y;
  vector<double> k;  // 1/sqrt(mu) of every iteration
  double scale = 1;  // of the target
};
Run Go(conex::Program* p, const conex::SolverConfiguration& config) {
  Run r;
  srand(5);
  r.y = VectorXd::Constant(p->GetNumberOfVariables(), 2.5);
  r.solved = conex::Solve(*p, config, r.y.data());
  for (int i = 0; i < p->Status().num_iterations; i++) r.k.push_back(p->stats->sqrt_inv_mu[i]);
  if (p->stats) r.scale = std::sqrt(p->stats->c_scaling() * p->stats->b_scaling());
  return r;
}
bool SameRun(const Run& a, const Run& b) {
  if (a.solved != b.solved || a.k.size() != b.k.size()) return false;
  for (int i = 0; i < a.y.size(); i++)
    if (!SameBits(a.y(i), b.y(i))) return false;
  for (size_t i = 0; i < a.k.size(); i++)
    if (!SameBits(a.k[i], b.k[i])) return false;
  return true;
}

void Effect(Ctx& c, const Problem& problem) {
  const bool warm = c.flip();
  const bool line = problem.LineSearch() && (c.flip() || problem.Q.size());
  const bool rescale = !problem.Q.size() && c.flip();
  conex::SolverConfiguration base;
  base.enable_line_search = line, base.enable_rescaling = rescale;
  base.max_iterations = 150;
  base.final_centering_steps = c.choose(3);
  const auto& o = Options()[c.choose(Options().size())];
  const std::string name = o.name;
  const double v = c.among(o.values);
  c.require(name != "enable_line_search" && name != "enable_rescaling" && name != "initialization_mode" && name != "final_centering_steps");
  std::string tale = problem.name + (warm ? " warm " : " cold ") + (line ? "line search " : "") + (rescale ? "rescaled " : "") + std::to_string(base.final_centering_steps) + " final steps; " + name + "=" + Str(VectorXd::Constant(1, v));
  c.describe(tale);
  auto run = [&](const conex::SolverConfiguration& k) {
    conex::Program p(problem.m);
    problem.Build(&p);
    p.AddLinearCost(problem.costs[0]);
    if (warm) {
      auto before = base;
      before.inv_sqrt_mu_max = 20;
      Go(&p, before);
      auto w = k;
      w.initialization_mode = 1;
      return Go(&p, w);
    }
    return Go(&p, k);
  };
  Run plain = run(base);
  auto changed = base;
  o.native(&changed, v);
  Run r = run(changed);
  auto expect = [&](bool ok, const char* what) { c.check(ok, std::string("effect-") + o.name, tale + ": " + what); };
  const double target = changed.inv_sqrt_mu_max / (rescale ? r.scale : 1);
  for (double k : r.k) expect(k <= target * (1 + 1e-12), "an iteration is beyond the largest 1/sqrt(mu)");
  for (double k : r.k) expect(1 / (k * k) <= changed.maximum_mu * (1 + 1e-12) + 1e-12 || target * target * changed.maximum_mu < 1, "an iteration is above the largest mu");
  expect((int)r.k.size() <= changed.max_iterations, "more iterations than allowed");
  if (r.solved && changed.kkt_error_tolerance > 1) expect(std::fabs(r.k.back() - target) <= 1e-12 * target, "solved at another barrier parameter than asked for");
  int at_target = 0;
  for (double k : r.k) at_target += std::fabs(k - target) <= 1e-12 * target;
  expect(at_target <= 1 + base.final_centering_steps, "more final centering steps than allowed");
  auto none = [&] { expect(SameRun(plain, r), "changed something the option does not name"); };
  auto close = [&] {
    // Once the iterates are ill conditioned only the answer is comparable.
    expect(plain.solved == r.solved, "changed the status");
    if (plain.solved) expect(std::fabs(problem.Objective(problem.costs[0], plain.y) - problem.Objective(problem.costs[0], r.y)) < 1e-4 && problem.Slack(r.y) > -1e-6, "changed the answer");
  };
  const int centering = warm ? changed.initial_centering_steps_warmstart : changed.initial_centering_steps_coldstart;
  if (name == "prepare_dual_variables" || name == "minimum_mu") none();
  if (name == "dinf_upper_bound" && !line) none();
  if (name == "divergence_upper_bound" && line && problem.Q.size()) none();
  if (name == "initial_centering_steps_warmstart" || name == "initial_centering_steps_coldstart") {
    if ((name == "initial_centering_steps_warmstart") != warm) none();
    else
      for (int i = 1; i < centering && i < (int)r.k.size(); i++) expect(SameBits(r.k[i], r.k[0]), "the barrier parameter changed during initial centering");
    close();
  }
  if (name == "warmstart_abort_threshold" && !warm) none();
  if (name == "warmstart_abort_threshold" && warm) close();
  if (name == "kkt_solver" || name == "iterative_refinement_iterations") close();
  if (name == "max_iterations" && plain.k.size() + base.final_centering_steps < v) none();
  if (name == "max_iterations") {
    // The iterations that take place are those of the unlimited run.
    int same = (int)v - base.final_centering_steps;
    for (int i = 0; i < same && i < (int)r.k.size(); i++) expect(SameBits(r.k[i], plain.k[i]), "an iteration differs from the unlimited run");
    if ((int)plain.k.size() > v + 2) expect(!r.solved, "solved although iterations ran out");
  }
  if (name == "infeasibility_threshold" && r.k.size()) expect(r.solved == (1 / (r.k.back() * r.k.back()) > v ? false : plain.solved), "the threshold does not decide infeasibility");
  if (name == "maximum_mu" && v > 1e6) close();
  if (name == "inv_sqrt_mu_max" && plain.solved && r.solved) {
    double gap = problem.Objective(problem.costs[0], r.y) - Reference(problem, 0);
    expect(gap <= 1e-5 + 40 / (v * v), "the answer is further from the optimum than mu implies");
  }
  if (name == "final_centering_tolerance" && r.solved && plain.solved) expect(v < .1 ? r.k.size() >= plain.k.size() : r.k.size() <= plain.k.size(), "the number of final centering steps does not follow the tolerance");
  c.judged();
  c.nontrivial();
  mc::Hash s;
  s.add(tale).add(r.solved).add(r.k.size());
  c.state(s);
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (auto& p : Problems())
    if (Supported(p)) v.push_back({p.name, [&p](Ctx& c) { Case(c, p, c.pick(2, 3)); }, 2, false, "every deviation of at most 2 (thorough 3) of the 19 options from their defaults, with CONEX_Solve and CONEX_Maximize, compared bit for bit with the native interface"});
  for (auto& p : Problems()) v.push_back({"effect-" + p.name, [&p](Ctx& c) { Effect(c, p); }, 3, false, "every option and value on cold and warm starts with each line search, rescaling and final centering setting: what the option names changes, nothing else"});
  return mc::Main(argc, argv, v);
}
