// Statistics describe the last run: every index, before and after runs.
#include "harness/capi.h"

using namespace capi;

namespace {

struct Setting {
  const char* name;
  void (*apply)(CONEX_SolverConfiguration*);
};
const Setting kSettings[] = {
    {"defaults", [](CONEX_SolverConfiguration*) {}},
    {"mu>=1e-2", [](CONEX_SolverConfiguration* c) { c->inv_sqrt_mu_max = 10; }},
    {"1 iteration", [](CONEX_SolverConfiguration* c) { c->max_iterations = 1; }},
    {"2 iterations", [](CONEX_SolverConfiguration* c) { c->max_iterations = 2; c->final_centering_steps = 0; }},
    {"7 iterations", [](CONEX_SolverConfiguration* c) { c->max_iterations = 7; c->final_centering_steps = 0; }},
    {"100 iterations", [](CONEX_SolverConfiguration* c) { c->max_iterations = 100; }},
    {"warm", [](CONEX_SolverConfiguration* c) { c->initialization_mode = 1; }},
    {"mu<=0.01", [](CONEX_SolverConfiguration* c) { c->maximum_mu = .01; }},
    {"no rescaling", [](CONEX_SolverConfiguration* c) { c->enable_rescaling = 0; c->max_iterations = 40; }},
    {"duals", [](CONEX_SolverConfiguration* c) { c->prepare_dual_variables = 1; c->final_centering_steps = 1; }},
    {"warm aborted", [](CONEX_SolverConfiguration* c) { c->initialization_mode = 1; c->warmstart_abort_threshold = 0; }},
    {"centered first", [](CONEX_SolverConfiguration* c) { c->initial_centering_steps_coldstart = c->initial_centering_steps_warmstart = 3; }},
    {"infeasible", [](CONEX_SolverConfiguration* c) { c->infeasibility_threshold = 1e-9; }},
    {"kkt error", [](CONEX_SolverConfiguration* c) { c->kkt_error_tolerance = 1e-12; }},
    {"loose", [](CONEX_SolverConfiguration* c) { c->final_centering_tolerance = 10; c->final_centering_steps = 0; }},
};
const int kN = sizeof(kSettings) / sizeof(*kSettings);

const double kUnset = -6.5;

void Case(Ctx& c, const Problem& problem, int depth) {
  Handle h(problem.m);
  c.check(Build(h.p, problem), "build", problem.name);
  VectorXd b = -problem.costs[0];
  std::string tale = problem.name + ":";
  const int kind = c.choose(3);  // C statistics before a run, infeasible cost, plain
  if (kind == 1) b *= 1e3, tale += " (large cost)";
  if (kind == 2) tale += " (query before the first run)";
  int expected = 0, most = 0;
  double lo = 0, hi = 0;
  bool exact = false, solved = false;
  auto query = [&] {
    vector<double> mu(std::max(expected, 0));
    const int span = std::max(expected, 3) + 3;
    for (int i = -span; i <= span; i++) {
      CONEX_IterationStats s;
      s.mu = kUnset, s.iteration_number = 12345;
      CONEX_GetIterationStats(h.p, &s, i);
      const int want = i < 0 ? expected + i : i;
      std::ostringstream o;
      o << tale << ": index " << i << " of " << expected << " gives iteration " << s.iteration_number << ", mu=" << s.mu;
      if (want < 0 || want >= expected) {
        c.check(s.mu == kUnset && s.iteration_number == 12345, "invalid-index", o.str());
        continue;
      }
      c.check(s.iteration_number == want, "index", o.str());
      if (i < 0) mu[want] = s.mu;
      else c.check(SameBits(mu[want], s.mu), "index", o.str() + ", but " + std::to_string(mu[want]) + " counted from the end");
      c.check(s.mu > 0 && std::isfinite(s.mu), "mu", o.str());
      c.check(s.mu >= lo * (1 - 1e-9) && s.mu <= hi * (1 + 1e-9), "limits", o.str() + " outside of the limits " + std::to_string(lo) + ", " + std::to_string(hi));
      if (want == expected - 1 && exact) c.check(std::fabs(s.mu - lo) <= 1e-9 * lo, "last", o.str() + " is not the barrier parameter asked for, " + std::to_string(lo));
    }
    // Arguments that are no program or no place for an answer.
    CONEX_IterationStats s;
    CONEX_GetIterationStats(nullptr, &s, 0);
    CONEX_GetIterationStats(h.p, nullptr, 0);
    for (long long i : {2147483647LL, -2147483647LL - 1, 100000LL}) {
      s.mu = kUnset;
      CONEX_GetIterationStats(h.p, &s, (int)i);
      c.check(s.mu == kUnset, "invalid-index", tale + ": index " + std::to_string(i));
    }
    c.judged();
  };
  if (kind == 2) query();
  for (int step = 0; step < depth; step++) {
    int k = c.choose(kN + 2);
    if (k == kN + 1) {
      // A refused run: nothing is said about an iteration of it.
      tale += " refused";
      VectorXd wrong = VectorXd::Ones(problem.m + 1), y = VectorXd::Zero(problem.m + 1);
      auto cc = Defaults();
      CONEX_Maximize(h.p, wrong.data(), problem.m + 1, &cc, y.data(), problem.m + 1);
      continue;
    }
    if (k == kN) {
      if (step == 0) c.require(false);
      break;
    }
    CONEX_SolverConfiguration cc = Defaults();
    if (problem.Q.size()) cc.enable_line_search = 1, cc.enable_rescaling = 0;
    kSettings[k].apply(&cc);
    if (problem.Q.size()) cc.enable_rescaling = 0;
    tale += std::string(" ") + kSettings[k].name;
    c.describe(tale);
    VectorXd y = VectorXd::Zero(problem.m);
    srand(3);
    solved = CONEX_Maximize(h.p, b.data(), problem.m, &cc, y.data(), problem.m);
    auto* n = h.native();
    expected = n->Status().num_iterations;
    most = cc.max_iterations;
    c.check(expected >= 1 && expected <= most, "count", tale + ": " + std::to_string(expected) + " iterations of at most " + std::to_string(most));
    // The limits, in the scaled problem.
    const double scale = cc.enable_rescaling ? n->stats->b_scaling() * n->stats->c_scaling() : 1;
    lo = scale / (cc.inv_sqrt_mu_max * cc.inv_sqrt_mu_max);
    hi = std::max(lo, cc.maximum_mu + 1e-15);
    exact = solved && cc.kkt_error_tolerance > 1;
    query();
    c.nontrivial();
    c.state(mc::Hash().add(tale).add(expected).add(solved));
  }
}

// A run cut short records the beginning of the longer one.
void Prefix(Ctx& c, const Problem& problem) {
  CONEX_SolverConfiguration cc = Defaults();
  if (problem.Q.size()) cc.enable_line_search = 1, cc.enable_rescaling = 0;
  cc.final_centering_steps = 0;
  cc.max_iterations = 60;
  cc.inv_sqrt_mu_max = c.among(vector<double>{1000, 30});
  cc.initial_centering_steps_coldstart = c.choose(3);
  if (problem.LineSearch() && !problem.Q.size()) cc.enable_line_search = c.choose(2);
  const int cut = c.range(1, c.pick(16, 30));
  auto run = [&](int max, vector<double>* mu) {
    Handle h(problem.m);
    Build(h.p, problem);
    VectorXd b = -problem.costs[0], y = b;
    auto k = cc;
    k.max_iterations = max;
    srand(3);
    int s = CONEX_Maximize(h.p, b.data(), problem.m, &k, y.data(), problem.m);
    for (int i = 0; i < max; i++) {
      CONEX_IterationStats st;
      st.mu = kUnset;
      CONEX_GetIterationStats(h.p, &st, i);
      if (st.mu != kUnset) mu->push_back(st.mu);
    }
    return s;
  };
  vector<double> all, part;
  run(60, &all);
  std::string tale = problem.name + " cut after " + std::to_string(cut) + " of " + std::to_string(all.size()) + " iterations";
  c.describe(tale);
  c.require(cut < (int)all.size());
  run(cut, &part);
  c.check((int)part.size() == cut, "count", tale + ": " + std::to_string(part.size()) + " records");
  for (int i = 0; i < cut; i++) c.check(SameBits(all[i], part[i]), "prefix", tale + ": record " + std::to_string(i) + " is " + std::to_string(part[i]) + " and not " + std::to_string(all[i]));
  c.judged();
  c.nontrivial();
  c.state(mc::Hash().add(tale));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (auto& p : Problems())
    if (Supported(p)) {
      v.push_back({p.name, [&p](Ctx& c) { Case(c, p, c.pick(2, 3)); }, 2, false, "every sequence of at most 2 (thorough 3) runs with one of 15 configurations or refused, then every index from below the first to beyond the last, from either end"});
      v.push_back({"prefix-" + p.name, [&p](Ctx& c) { Prefix(c, p); }, 2, false, "every iteration limit short of convergence: the records are those of the beginning of the longer run"});
    }
  return mc::Main(argc, argv, v);
}
