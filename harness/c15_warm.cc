// A warm start that reports solved returns the optimum of the program as it is
// now, whatever was solved, truncated, refused or modified before; it stays
// inside the program's workspace.
#include "harness/session.h"

using namespace session;

namespace {

enum Op { kCold, kColdDuals, kTruncated, kWarm, kWarmDuals, kOtherMu, kFailing, kUpdateLinear, kUpdateAffine, kCost, kReplaceCost, kConstraint, kInfeasible, kOps };
const char* kNames[] = {"cold", "cold-duals", "truncated", "warm", "warm-duals", "other-mu", "refused", "update-linear", "update-affine", "add-cost", "replace-cost", "add-constraint", "infeasible-and-back"};

const int kRoom = 4000;
const double kCanary = -4.25e77;

double Reference(const Problem& p, const VectorXd& cost) {
  static std::map<std::string, double> cache;
  std::string key = p.name + Str(cost.transpose());
  for (auto& part : p.parts) key += part.cone.str() + char('0' + part.vars[0]);
  auto it = cache.find(key);
  if (it == cache.end()) it = cache.emplace(key, p.Optimum(cost)).first;
  return it->second;
}

void Case(Ctx& c, const Problem& original, int depth) {
  Problem problem = original;
  // The program's own memory, the caller's, or the caller's holding the
  // workspace of another run of this program.
  enum { kOwn, kCaller, kInherited, kSmall };
  const int where = c.choose(4);
  VectorXd memory = VectorXd::Constant(where == kSmall ? 40 : kRoom, kCanary);
  conex::Program own(problem.m), caller(problem.m, &memory), first(problem.m, &memory);
  conex::Program& p = where == kOwn ? own : caller;
  problem.Build(&p);
  VectorXd cost = problem.costs[0];
  p.AddLinearCost(cost);
  std::string tale = problem.name + (where == kOwn ? ":" : where == kCaller ? " on the caller's memory:" : where == kSmall ? " on memory that is too small:" : " on the memory of another run:");
  const bool updatable = !(problem.parts[0].cone.kind & (zoo::kDense | zoo::kQuad));
  const auto base = Base(problem);
  int used = 0, ran = 0;
  if (where == kInherited) {
    problem.Build(&first);
    first.AddLinearCost(cost);
    Execute(&first, problem, base);
    used = SizeOf(first.workspaces);
  }
  // Starting warm on memory never used, or laid out for other constraints, is
  // not supported.
  const size_t constraints = problem.parts.size();
  auto allowed = [&] { return where == kOwn || where == kSmall || p.is_initialized || (where == kInherited && problem.parts.size() == constraints); };
  auto canary = [&] {
    if (!p.is_initialized || where == kOwn || where == kSmall) return;
    used = std::max(used, SizeOf(p.workspaces));
    c.check(memory.size() == kRoom, "canary", tale + ": the memory was reallocated");
    for (int i = used; i < kRoom; i++) c.check(memory(i) == kCanary, "canary", tale + ": memory behind the workspace was written");
    c.check(p.stats->num_iter <= p.stats->max_iter_, "canary", tale + ": more records than there is room for");
  };
  auto set_affine = [&](double v) {
    p.UpdateAffineTermOfConstraint(0, v, 0, 0, 0);
    problem.parts[0].cone.c[0](0, 0) = v;
  };
  for (int step = 0; step < depth; step++) {
    int op = c.choose(kOps + 1);
    if (op == kOps) break;
    tale += std::string(" ") + kNames[op];
    c.describe(tale);
    auto k = base;
    bool run = true;
    switch (op) {
      case kCold: break;
      case kColdDuals: k.prepare_dual_variables = 1; break;
      case kTruncated: k.max_iterations = 3; break;
      case kWarm: c.require(allowed()), k.initialization_mode = 1; break;
      case kWarmDuals: c.require(allowed()), k.initialization_mode = 1, k.prepare_dual_variables = 1; break;
      case kOtherMu: k.inv_sqrt_mu_max = 30, k.max_iterations = 40, k.initial_centering_steps_coldstart = 2; break;
      default: run = false;
    }
    if (run) {
      Execute(&p, problem, k);
      ran++;
    }
    switch (op) {
      case kFailing: {
        // Refused without effect: a cost of the wrong dimension, a constraint on a variable
        // that does not exist.
        VectorXd y(problem.m + 1);
        conex::Solve(VectorXd::Ones(problem.m + 1), p, base, y.data());
        MatrixXd I = MatrixXd::Identity(1, 1);
        p.AddConstraint(conex::LinearConstraint(I, I), vector<int>{problem.m});
        break;
      }
      case kUpdateLinear:
        c.require(updatable);
        p.UpdateLinearOperatorOfConstraint(0, .75 - .1 * step, 0, 0, 0, 0);
        problem.parts[0].cone.A[0][0](0, 0) = .75 - .1 * step;
        break;
      case kUpdateAffine:
        c.require(updatable);
        set_affine(1.25 + .25 * step);
        break;
      case kCost:
      case kReplaceCost:
        if (op == kReplaceCost) p.ClearLinearCosts(), cost.setZero();
        p.AddLinearCost(problem.costs[1 + step % 2]);
        cost += problem.costs[1 + step % 2];
        break;
      case kConstraint: {
        Part part;
        part.cone.kind = zoo::kLinear;
        part.cone.A = {Vec({1})};
        part.cone.c = Vec({.6 - .05 * step});
        part.vars = {1};
        part.cone.Add(&p, part.vars);
        problem.parts.push_back(part);
        break;
      }
      case kInfeasible: {
        c.require(updatable);
        double before = problem.parts[0].cone.c[0](0, 0);
        set_affine(-40);
        Execute(&p, problem, base);
        set_affine(before);
        ran++;
        break;
      }
    }
    canary();
    c.nontrivial();
  }
  auto last = base;
  last.initialization_mode = 1;
  int which = c.choose(c.thorough ? 7 : 6);
  switch (which) {
    case 0: break;
    case 1: last.warmstart_abort_threshold = 1e9, last.prepare_dual_variables = 1; break;
    case 2: last.kkt_solver = 2, last.initial_centering_steps_warmstart = 2; break;
    case 3: last.max_iterations = 60, last.warmstart_abort_threshold = .5; break;
    case 4: last.enable_rescaling = !last.enable_rescaling && !problem.Q.size(), last.max_iterations = 12; break;
    case 5: last.warmstart_abort_threshold = 0, last.iterative_refinement_iterations = 2; break;
    default: last.max_iterations = 1 + c.choose(6); break;
  }
  c.require(allowed());
  c.require(problem.Slack(problem.inside) > .01);
  tale += " | warm start " + std::to_string(which);
  c.describe(tale);
  Report r = Execute(&p, problem, last);
  canary();
  c.judged();
  // Aborted in its first iteration, a warm start goes on from the identity and
  // meets no other difficulty than a cold start (octonions often fail there).
  if (which == 5 && problem.name != "octonion") c.check(r.solved, "aborted-not-solved", [&] { return tale + ": not solved after " + std::to_string(r.status.num_iterations) + " iterations"; });
  mc::Hash h;
  h.add(r.solved);
  if (r.solved) {
    double v = problem.Objective(cost, r.y), best = Reference(problem, cost), tol = 1e-3 * (1 + std::fabs(best));
    std::ostringstream o;
    o.precision(8);
    o << tale << ": y=" << Str(r.y.transpose()) << " value " << v << " optimum " << best << " slack " << problem.Slack(r.y) << " residual " << problem.Residual(r.y) << " after " << r.status.num_iterations << " iterations";
    c.check(r.y.allFinite() && std::fabs(v - best) <= tol, "optimum", o.str());
    c.check(problem.Slack(r.y) > -1e-5, "feasible", o.str());
    c.check(problem.Residual(r.y) < 1e-3, "equality", o.str());
    c.count("solved");
    h.real(v, 1e-4);
  } else {
    c.count("not_solved");
    if (!ran) c.count("not_solved_first");
  }
  for (int i = 0; i < r.y.size(); i++) h.real(r.solved ? r.y(i) : 0, 1e-4);
  c.state(h.add(problem.name));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (auto& p : Problems()) v.push_back({p.name, [&p](Ctx& c) { Case(c, p, c.pick(2, 3)); }, 4, false, "in the program's own memory, the caller's, the caller's when too small, and the caller's with the workspace of another run: every history of at most 2 (thorough 3) of 13 operations, followed by a warm start with 6 (7) configurations, one of them aborting it"});
  return mc::Main(argc, argv, v);
}
