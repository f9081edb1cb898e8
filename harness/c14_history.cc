// Whatever happened before, a cold start returns bit for bit what a program
// fresh from its constructor returns; other programs are left alone.
//
// Every sequence of operations up to a depth is run on a program (with memory
// of its own or shared with another program) and followed by a cold start;
// the modifications among them are then applied to a new program which does
// nothing else. C's random generator, which the matrix cones use, is put into
// the same state before every run.
#include "harness/session.h"

using namespace session;

namespace {

enum Op { kCold, kColdQR, kTruncated, kWarm, kLong, kOtherMu, kFailing, kUpdateLinear, kUpdateAffine, kCost, kConstraint, kInfeasible, kOther, kScribble, kObjective, kFlagged, kOps };

const char* kNames[] = {"cold", "cold-qr-duals", "truncated", "warm", "long", "other-mu", "failing", "update-linear", "update-affine", "cost", "add-constraint", "infeasible-and-back", "other-program", "scribble", "feasible-objective", "flagged"};

using Edit = std::function<void(conex::Program*)>;

void Case(Ctx& c, const Problem& problem, int depth) {
  VectorXd memory;
  // 0: memory of its own, 1: memory of the caller, 2: shared with another.
  int sharing = c.choose(c.thorough ? 3 : 2) * (c.thorough ? 1 : 2);
  std::unique_ptr<conex::Program> p(sharing ? new conex::Program(problem.m, &memory) : new conex::Program(problem.m));
  const Problem& other_problem = Problems()[(&problem - &Problems()[0] + 3) % Problems().size()];
  std::unique_ptr<conex::Program> other(sharing == 2 ? new conex::Program(2, &memory) : new conex::Program(2));
  vector<Edit> edits;
  auto edit = [&](Edit e) {
    e(p.get());
    edits.push_back(e);
  };
  edit([&](conex::Program* q) { problem.Build(q); });
  edit([&](conex::Program* q) { q->AddLinearCost(problem.costs[0]); });
  other_problem.Build(other.get());
  other->AddLinearCost(other_problem.costs[1]);
  Report other_report;
  bool other_ran = false;
  conex::SolverConfiguration other_config = Base(other_problem);
  other_config.prepare_dual_variables = 1;

  std::string tale = problem.name + (sharing == 2 ? " (memory shared)" : sharing ? " (memory of the caller)" : "") + ":";
  bool warm_ready = false;
  int cones = problem.parts.size();
  const bool updatable = !(problem.parts[0].cone.kind & (zoo::kDense | zoo::kQuad));
  const conex::SolverConfiguration base = Base(problem);
  int added = 0, failures = 0;
  for (int step = 0; step < depth; step++) {
    int op = c.choose(kOps + 1);
    if (op == kOps) break;  // a shorter history
    tale += std::string(" ") + kNames[op];
    c.describe(tale);
    auto k = base;
    switch (op) {
      case kCold: break;
      case kColdQR: k.kkt_solver = 2, k.prepare_dual_variables = 1; break;
      case kTruncated: k.max_iterations = 2; break;
      case kWarm: k.initialization_mode = 1; break;
      // Every run looks infeasible or unbounded.
      case kFlagged: k.infeasibility_threshold = 1e-9, k.prepare_dual_variables = 1; break;
      case kLong: k.max_iterations = 70, k.inv_sqrt_mu_max = 3000; break;
      case kOtherMu: k.inv_sqrt_mu_max = 50, k.initial_centering_steps_coldstart = 3, k.maximum_mu = 10, k.iterative_refinement_iterations = 1, k.final_centering_steps = 2; break;
      default: break;
    }
    switch (op) {
      case kCold:
      case kColdQR:
      case kTruncated:
      case kLong:
      case kOtherMu:
      case kFlagged:
      case kWarm:
        // A warm start continues from memory nobody else has touched.
        c.require(op != kWarm || warm_ready);
        Execute(p.get(), problem, k);
        warm_ready = true;
        c.count(op == kWarm ? "warm_starts" : "cold_starts");
        break;
      case kFailing: {
        VectorXd y(problem.m + 1);
        failures++;
        edit([=](conex::Program* q) { q->AddLinearCost(VectorXd::Ones(problem.m + 1)); });
        edit([=](conex::Program* q) {
          MatrixXd I = MatrixXd::Identity(1, 1);
          q->AddConstraint(conex::LinearConstraint(I, I), vector<int>{problem.m});
        });
        break;
      }
      case kUpdateLinear:
        c.require(updatable);
        edit([=](conex::Program* q) { q->UpdateLinearOperatorOfConstraint(0, .75 - .1 * step, 0, 0, 0, 0); });
        break;
      case kUpdateAffine:
        c.require(updatable);
        edit([=](conex::Program* q) { q->UpdateAffineTermOfConstraint(0, 1.25 + .25 * step, 0, 0, 0); });
        break;
      case kCost: {
        VectorXd cost = problem.costs[1 + step % 2];
        edit([=](conex::Program* q) {
          if (step % 2) q->ClearLinearCosts();
          q->AddLinearCost(cost);
        });
        break;
      }
      case kConstraint: {
        double at = .9 - .05 * added++;
        edit([=](conex::Program* q) { q->AddConstraint(conex::LinearConstraint(MatrixXd::Identity(1, 1), MatrixXd::Constant(1, 1, at)), vector<int>{1}); });
        warm_ready = false;
        break;
      }
      case kInfeasible:
        c.require(updatable);
        edit([=](conex::Program* q) { q->UpdateAffineTermOfConstraint(0, -40, 0, 0, 0); });
        k.infeasibility_threshold = 100;
        if (Execute(p.get(), problem, k).status.primal_infeasible) c.count("flagged_infeasible");
        edit([=](conex::Program* q) { q->UpdateAffineTermOfConstraint(0, 1, 0, 0, 0); });
        warm_ready = true;
        break;
      case kOther:
        other_report = Execute(other.get(), other_problem, other_config);
        other_ran = true;
        if (sharing == 2) warm_ready = false;
        break;
      case kScribble:
        c.require(sharing);
        if (memory.size() == 0) memory.resize(7);
        memory.setConstant(step % 2 ? std::numeric_limits<double>::quiet_NaN() : 1e200);
        warm_ready = false;
        break;
      case kObjective:
        // Resets the program's workspace.
        c.require(!problem.E.rows());
        conex::Initialize(*p, base);
        warm_ready = true;
        break;
    }
    c.nontrivial();
  }
  auto last = base;
  switch (c.choose(3)) {
    case 0: last.prepare_dual_variables = 1; break;
    case 1: last.enable_line_search = 1, last.enable_rescaling = 0, last.iterative_refinement_iterations = 2; break;
    default: last.kkt_solver = 2, last.prepare_dual_variables = 1, last.inv_sqrt_mu_max = 200;
  }
  c.describe(tale);
  Report got = Execute(p.get(), problem, last);
  conex::Program fresh(problem.m);
  for (auto& e : edits) e(&fresh);
  Report expected = Execute(&fresh, problem, last);
  std::string differs = got.Differs(expected);
  c.check(differs.empty(), "history", tale + ": " + differs);
  if (other_ran && sharing != 2) {
    Report now = other_report;
    Query(other.get(), other_problem, true, &now);
    std::string changed = now.Differs(other_report);
    c.check(changed.empty(), "interference", tale + ": the other program (" + other_problem.name + ") changed: " + changed);
    conex::Program again(2);
    other_problem.Build(&again);
    again.AddLinearCost(other_problem.costs[1]);
    changed = other_report.Differs(Execute(&again, other_problem, other_config));
    c.check(changed.empty(), "interference", tale + ": the other program (" + other_problem.name + ") ran differently: " + changed);
  }
  if (expected.solved) c.count("solved");
  c.judged();
  mc::Hash h;
  h.add(expected.solved);
  for (int i = 0; i < expected.y.size(); i++) h.raw(&expected.y(i), sizeof(double));
  c.state(h);
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (auto& p : Problems()) v.push_back({p.name, [&p](Ctx& c) { Case(c, p, c.pick(2, 3)); }, 3, false, "every history of at most 2 (thorough 3) of 16 operations, followed by a cold start with 3 configurations"});
  return mc::Main(argc, argv, v);
}
