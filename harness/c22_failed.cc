// A run that fails, is cut short or is refused never reports a solution it
// does not have, and leaves the program usable.
//
// Faults are injected through the constraint interface: a linear constraint
// (redundant box) whose contribution to the Newton system is corrupted at a
// chosen assembly. Every assembly of the unfaulted run is tried, every
// iteration limit up to beyond convergence, and every refused call, each
// followed by every recovery.
#include "harness/session.h"

namespace {
struct Control {
  int calls = 0, at = -1, last = -1, kind = 0;
  bool fired = false;
};
struct Faulty : conex::LinearConstraint {
  Control* control;
  Faulty(const Eigen::MatrixXd& A, const Eigen::MatrixXd& c, Control* k) : conex::LinearConstraint(A, c), control(k) {}
};
// (Corruptions that leave a consistent system of some other problem cannot be
// noticed by anybody and are not among them.)
enum Fault { kIndefinite, kNaN, kResidualNaN, kFaults };
const char* kFaultNames[] = {"indefinite", "nan", "nan-residual"};
}  // namespace

namespace conex {
void ConstructSchurComplementSystem(Faulty* o, bool initialize, SchurComplementSystem* sys) {
  ConstructSchurComplementSystem(static_cast<LinearConstraint*>(o), initialize, sys);
  Control& k = *o->control;
  int call = k.calls++;
  if (k.at < 0 || call < k.at || call > k.last) return;
  k.fired = true;
  const double nan = std::numeric_limits<double>::quiet_NaN();
  switch (k.kind) {
    case kIndefinite: sys->G.diagonal().array() = -1e12; break;
    case kNaN: sys->G.setConstant(nan); break;
    case kResidualNaN: sys->AW.setConstant(nan); break;
  }
}
void PrepareStep(Faulty* o, const StepOptions& s, const Ref& y, StepInfo* i) { PrepareStep(static_cast<LinearConstraint*>(o), s, y, i); }
void SetIdentity(Faulty* o) { SetIdentity(static_cast<LinearConstraint*>(o)); }
void GetWeightedSlackEigenvalues(Faulty* o, const Ref& y, double w, WeightedSlackEigenvalues* p) { GetWeightedSlackEigenvalues(static_cast<LinearConstraint*>(o), y, w, p); }
bool TakeStep(Faulty* o, const StepOptions& s) { return TakeStep(static_cast<LinearConstraint*>(o), s); }
bool PerformLineSearch(Faulty* o, const LineSearchParameters& p, const Ref& a, const Ref& b, LineSearchOutput* r) { return PerformLineSearch(static_cast<LinearConstraint*>(o), p, a, b, r); }
int Rank(const Faulty& o) { return Rank(static_cast<const LinearConstraint&>(o)); }
}  // namespace conex

using namespace session;

namespace {

struct Bench {
  const Problem* problem;
  std::unique_ptr<Control> control{new Control};
  std::unique_ptr<conex::Program> p;
  VectorXd cost;

  Bench(const Problem& q, const VectorXd& c) : problem(&q), p(new conex::Program(q.m)), cost(c) {
    q.Build(p.get());
    MatrixXd A(2 * q.m, q.m);
    A << MatrixXd::Identity(q.m, q.m), -MatrixXd::Identity(q.m, q.m);
    vector<int> all(q.m);
    for (int i = 0; i < q.m; i++) all[i] = i;
    p->AddConstraint(Faulty(A, MatrixXd::Constant(2 * q.m, 1, 20), control.get()), all);
    p->AddLinearCost(cost);
  }
  Report run(const conex::SolverConfiguration& k) { return Execute(p.get(), *problem, k); }
};

struct Optima {
  std::map<std::pair<int, int>, double> values;
  double of(const Problem& p, int cost) {
    auto key = std::make_pair(int(&p - &Problems()[0]), cost);
    auto it = values.find(key);
    if (it != values.end()) return it->second;
    return values[key] = p.Optimum(p.costs[cost]);
  }
};
Optima g_optima;

// If it is reported solved it has to be right.
void Judge(Ctx& c, const Problem& p, int cost, const Report& r, const std::string& what, double tolerance) {
  c.check(r.solved == bool(r.status.solved), "status-" + what, "the returned value is not the status");
  if (r.solved) {
    double slack = p.Slack(r.y), residual = p.Residual(r.y), gap = p.Objective(p.costs[cost], r.y) - g_optima.of(p, cost);
    std::ostringstream s;
    s << "reported solved at y=[" << r.y.transpose() << "] with slack " << slack << ", residual " << residual << ", distance to the optimum " << gap;
    c.check(slack > -1e-4 && residual < 2e-4 && gap < tolerance && gap > -tolerance, "wrong-" + what, s.str());
    c.count("reported_solved");
  } else {
    c.count("reported_not_solved");
  }
  c.check(!r.status.primal_infeasible && !r.status.dual_infeasible, "flag-" + what, "a feasible and bounded problem is flagged infeasible");
  c.judged(3);
}

enum Recovery { kSame, kWarmUp, kNewCost, kNewConstraint, kTwice, kDuals, kRecoveries };
const char* kRecoveryNames[] = {"solve", "warm start", "change the cost", "add a constraint", "solve twice", "solve with duals"};

// After the failure, everything works as on a new program.
void Recover(Ctx& c, Bench& b, int cost, const std::string& what, std::string tale, bool warm_possible) {
  int how = c.choose(kRecoveries);
  c.require(how != kWarmUp || warm_possible);
  tale += ", then " + std::string(kRecoveryNames[how]);
  c.describe(tale);
  b.control->at = -1;
  Bench fresh(*b.problem, b.cost);
  auto k = Base(*b.problem);
  Report got, want;
  auto both = [&](std::function<void(conex::Program*)> f) {
    f(b.p.get());
    f(fresh.p.get());
  };
  int judged_cost = cost;
  switch (how) {
    case kSame: break;
    case kDuals: k.prepare_dual_variables = 1; break;
    case kTwice: b.run(k); break;
    case kWarmUp: {
      // The iterate it continues from is whatever the failed run left: it need
      // not succeed, but may not be wrong.
      k.initialization_mode = 1;
      k.max_iterations = 150;
      Judge(c, *b.problem, cost, b.run(k), "warm-" + what, 2e-2);
      k = Base(*b.problem);
      break;
    }
    case kNewCost: {
      judged_cost = (cost + 1) % 3;
      VectorXd other = b.problem->costs[judged_cost];
      both([&](conex::Program* p) {
        p->ClearLinearCosts();
        p->AddLinearCost(other);
      });
      break;
    }
    case kNewConstraint:
      both([&](conex::Program* p) { p->AddConstraint(conex::LinearConstraint(MatrixXd::Identity(1, 1), MatrixXd::Constant(1, 1, 15)), vector<int>{1}); });
      break;
  }
  got = b.run(k);
  want = fresh.run(k);
  std::string d = got.Differs(want);
  c.check(d.empty(), "recovery-" + what, "a new program answers differently: " + d);
  // (Octonion cones converge slowly; whether they are solved is not the point.)
  if (!b.problem->has(zoo::kOctonion)) c.check(want.solved, "fresh", "the fresh program is not solved");
  Judge(c, *b.problem, judged_cost, got, "recovered-" + what, 2e-3);
  mc::Hash h;
  h.add(got.solved).add(got.status.num_iterations).add(how).add(cost);
  for (int i = 0; i < got.y.size(); i++) h.real(got.y(i), 1e-6);
  c.state(h);
}

mc::Hash HashOfReport(const Report& r) {
  mc::Hash h;
  h.add(r.solved).add(r.status.num_iterations);
  for (int i = 0; i < r.y.size(); i++) h.real(r.y(i), 1e-6);
  for (double b : r.barrier) h.real(b, 1e-6);
  return h;
}

struct Style {
  const char* name;
  std::function<void(conex::SolverConfiguration*)> set;
};
const vector<Style>& Styles() {
  static vector<Style> s = {
      {"default", [](conex::SolverConfiguration*) {}},
      {"duals", [](conex::SolverConfiguration* k) { k->prepare_dual_variables = 1; }},
      {"qr", [](conex::SolverConfiguration* k) { k->kkt_solver = 2; }},
      {"centering 0/0", [](conex::SolverConfiguration* k) { k->initial_centering_steps_coldstart = 0, k->initial_centering_steps_warmstart = 0, k->final_centering_steps = 0; }},
      {"centering 3/3", [](conex::SolverConfiguration* k) { k->initial_centering_steps_coldstart = 3, k->final_centering_steps = 3; }},
      {"unscaled", [](conex::SolverConfiguration* k) { k->enable_rescaling = 0; }},
      {"refined", [](conex::SolverConfiguration* k) { k->iterative_refinement_iterations = 2; }},
      {"accurate", [](conex::SolverConfiguration* k) { k->inv_sqrt_mu_max = 3000; }},
  };
  return s;
}

// Every iteration limit.
void Truncated(Ctx& c, const Problem& problem) {
  int cost = c.choose(c.thorough ? 3 : 2);
  Bench b(problem, problem.costs[cost]);
  int style = c.choose(Styles().size());
  auto k = Base(problem);
  Styles()[style].set(&k);
  bool warm = c.flip();
  std::string tale = problem.name + ", cost " + std::to_string(cost) + ", " + Styles()[style].name;
  c.describe(tale);
  if (warm) {
    auto first = Base(problem);
    first.inv_sqrt_mu_max = c.flip() ? 10 : 1000;
    b.run(first);
    k.initialization_mode = 1;
    tale += ", warm start after mu " + std::to_string(1 / first.inv_sqrt_mu_max / first.inv_sqrt_mu_max);
  }
  k.max_iterations = 1 + c.choose(c.thorough ? 45 : 30);
  tale += ", at most " + std::to_string(k.max_iterations) + " iterations";
  c.describe(tale);
  Report r = b.run(k);
  // Without final centering the iterate may be a step away from the path.
  Judge(c, problem, cost, r, "truncated", k.final_centering_steps == 0 ? 2e-2 : 4e-3);
  c.check(r.status.num_iterations <= k.max_iterations, "limit", "more iterations than allowed");
  if (!r.solved && r.status.num_iterations == k.max_iterations) c.count("stopped_by_the_limit");
  if (!r.solved) c.nontrivial();
  c.state(HashOfReport(r));
  bool warm_possible = true;
  Recover(c, b, cost, "truncated", tale, warm_possible);
}

// A fault at every assembly.
void FaultAt(Ctx& c, const Problem& problem) {
  int cost = c.choose(c.thorough ? 3 : 1);
  Bench b(problem, problem.costs[cost]);
  auto k = Base(problem);
  int solver = c.choose(3);
  k.kkt_solver = solver;
  bool refine = c.thorough && c.flip();
  k.iterative_refinement_iterations = refine;
  bool warm = c.flip();
  std::string tale = problem.name + ", cost " + std::to_string(cost) + ", kkt solver " + std::to_string(solver);
  if (warm) {
    b.run(Base(problem));
    k.initialization_mode = 1;
    tale += ", warm start";
  }
  int kind = c.choose(kFaults);
  bool cholesky = solver == 0 && !problem.E.rows();
  c.require(kind != kIndefinite || cholesky);
  bool lasting = c.flip();
  int at = c.choose(c.thorough ? 30 : 20);
  b.control->calls = 0;
  b.control->at = at;
  b.control->last = lasting ? 1 << 30 : at;
  b.control->kind = kind;
  b.control->fired = false;
  tale += ", " + std::string(kFaultNames[kind]) + (lasting ? " from" : " at") + " assembly " + std::to_string(at);
  c.describe(tale);
  Report r = b.run(k);
  c.require(b.control->fired || at < 4);  // else the run was over before
  if (b.control->fired) {
    c.nontrivial();
    c.count("faults_injected");
    c.count(std::string("faults_") + kFaultNames[kind]);
  }
  Judge(c, problem, cost, r, std::string("fault-") + kFaultNames[kind], 4e-3);
  c.state(HashOfReport(r));
  // An indefinite system cannot be factored by Cholesky: the run ends there,
  // except that a warm start falls back to a cold start.
  if (cholesky && kind == kIndefinite && b.control->fired && (lasting || !(warm && at == 0))) {
    c.check(!r.solved, "factorization", "solved although the factorization of assembly " + std::to_string(at) + " failed");
    c.check(r.status.num_iterations <= std::max<int>(at, warm), "iterations", "iterations after the factorization failed");
    c.count("factorizations_failed");
  }
  Recover(c, b, cost, std::string("fault"), tale, kind == kIndefinite && cholesky);
}

// Calls that have to be refused.
void Refused(Ctx& c, const Problem& problem) {
  const bool quadratic = problem.Q.size();
  int cost = c.choose(2);
  Bench b(problem, problem.costs[cost]);
  std::string tale = problem.name + ", cost " + std::to_string(cost);
  bool ran = c.flip();
  if (ran) {
    b.run(Base(problem));
    tale += ", solved before";
  }
  int times = 1 + c.choose(c.thorough ? 3 : 2);
  for (int i = 0; i < times; i++) {
    auto k = Base(problem);
    VectorXd y = VectorXd::Constant(problem.m + 2, 5);
    bool refused = true, r = true;
    int what = c.choose(8);
    k.initialization_mode = c.flip();
    if (k.initialization_mode) tale += ", warm";
    switch (what) {
      case 0: k.max_iterations = 0; tale += ", no iterations"; break;
      case 1: k.max_iterations = -1; tale += ", -1 iterations"; break;
      case 2: k.max_iterations = INT_MIN; tale += ", INT_MIN iterations"; break;
      case 3: c.require(quadratic); k.enable_line_search = 0; tale += ", quadratic cost without line search"; break;
      case 4: c.require(quadratic); k.enable_rescaling = 1; tale += ", quadratic cost rescaled"; break;
      case 5: c.require(quadratic); k.enable_rescaling = 1; k.enable_line_search = 0; tale += ", quadratic cost neither"; break;
      case 6:
      case 7: break;
    }
    srand(7);
    if (what >= 6) {
      tale += what == 6 ? ", cost too short" : ", cost too long";
      c.describe(tale);
      r = conex::Solve(conex::DenseMatrix(VectorXd::Ones(problem.m + (what == 6 ? -1 : 1))), *b.p, k, y.data());
    } else {
      c.describe(tale);
      r = conex::Solve(*b.p, k, y.data());
    }
    c.check(!r && !b.p->Status().solved, "refused", "reported as solved");
    c.check(!b.p->Status().primal_infeasible && !b.p->Status().dual_infeasible, "refused-flag", "reported as infeasible");
    c.check(b.p->Status().num_iterations == 0, "refused-iterations", "iterations counted for a run that did not take place");
    c.judged(3);
    c.count("refused");
    c.nontrivial();
  }
  Recover(c, b, cost, "refused", tale, ran);
}

// Programs that cannot be solved as they are, and become solvable.
void Incomplete(Ctx& c) {
  int m = 1 + c.choose(3), missing = c.choose(m + 1), route = c.choose(3);
  // `missing` variables appear in no constraint yet.
  conex::Program p(m), fresh(m);
  std::string tale = std::to_string(m) + " variables, " + std::to_string(missing) + " in no constraint";
  auto box = [&](conex::Program* q, int i) {
    MatrixXd A(2, 1);
    A << 1, -1;
    q->AddConstraint(conex::LinearConstraint(A, MatrixXd::Ones(2, 1)), vector<int>{i});
  };
  VectorXd cost(m);
  for (int i = 0; i < m; i++) cost(i) = 1 - .75 * i;
  vector<int> order;
  for (int i = 0; i < m; i++) order.push_back((i + route) % m);
  p.AddLinearCost(cost);
  fresh.AddLinearCost(cost);
  for (int i = 0; i < m - missing; i++) box(&p, order[i]);
  bool empty_constraint = missing == m && c.flip();
  int attempts = 1 + c.choose(2);
  conex::SolverConfiguration k;
  k.initialization_mode = c.flip();
  k.enable_line_search = c.flip();
  if (k.enable_line_search) k.enable_rescaling = c.flip();
  c.describe(tale + (empty_constraint ? ", twice" : ""));
  if (missing)
    for (int i = 0; i < attempts; i++) {
      Outcome o = Run(&p, k);
      c.check(!o.solved && !o.status.solved, "unconstrained", "a program with an unconstrained variable is reported solved");
      c.check(o.status.num_iterations == 0, "unconstrained-iterations", "iterations counted");
      c.judged(2);
      c.nontrivial();
    }
  for (int i = m - missing; i < m; i++) box(&p, order[i]);
  for (int i = 0; i < m; i++) box(&fresh, order[i]);
  k.initialization_mode = 0;
  Outcome got = Run(&p, k), want = Run(&fresh, k);
  bool same = got.solved == want.solved && got.status.num_iterations == want.status.num_iterations;
  for (int i = 0; i < m; i++) same = same && SameBits(got.y(i), want.y(i));
  c.check(same, "recovery-incomplete", "after completing the program: " + Str(got) + " instead of " + Str(want));
  c.check(got.solved, "complete", "the complete program is not solved");
  for (int i = 0; i < m; i++) c.check(std::fabs(got.y(i) + (cost(i) > 0 ? 1 : -1)) < 1e-2, "complete-answer", "wrong answer " + Str(got));
  c.judged(3);
  c.state(mc::Hash().add(m).add(missing).add(route).add(got.solved));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (auto& p : Problems()) {
    v.push_back({"truncated-" + p.name, [&p](Ctx& c) { Truncated(c, p); }, 4, false, "every iteration limit up to 30 (45 in thorough), 8 styles, cold and warm, every recovery"});
    v.push_back({"fault-" + p.name, [&p](Ctx& c) { FaultAt(c, p); }, 4, false, "a fault of each kind at, or from, every assembly up to 20 (30), 3 factorizations, cold and warm, every recovery"});
    v.push_back({"refused-" + p.name, [&p](Ctx& c) { Refused(c, p); }, 2, false, "every sequence of one or two (three) refused calls, before or after a run, every recovery"});
  }
  v.push_back({"incomplete", Incomplete, 1, false, "programs of up to 3 variables with any number of unconstrained variables"});
  return mc::Main(argc, argv, v);
}
