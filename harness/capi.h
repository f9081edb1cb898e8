// Programs built through the C interface, and their native counterparts.
#pragma once
#include "interfaces/conex.h"
// conex.h first: the error codes are macros elsewhere.
#include "harness/session.h"
#include "conex/linear_constraint.h"

namespace capi {

using namespace session;

// The cone over all m variables in order (the C interface knows no others).
inline Cone Full(const Part& part, int m) {
  Cone full = part.cone;
  Elem zero = part.cone.c;
  for (auto& x : zero) x.setZero();
  full.A.assign(m, zero);
  for (size_t i = 0; i < part.vars.size(); i++) full.A[part.vars[i]] = part.cone.A[i];
  return full;
}

inline vector<int> AllVars(int m) {
  vector<int> v(m);
  for (int i = 0; i < m; i++) v[i] = i;
  return v;
}

struct Handle {
  void* p;
  int m;
  explicit Handle(int m) : p(CONEX_CreateConeProgram()), m(m) { CONEX_SetNumberOfVariables(p, m); }
  ~Handle() { CONEX_DeleteConeProgram(p); }
  Handle(const Handle&) = delete;
  conex::Program* native() const { return static_cast<conex::Program*>(p); }
};

inline bool Supported(const Problem& p) { return !p.has(zoo::kQuad); }

// One-shot where the interface offers it.
inline int Add(void* p, int m, const Part& part) {
  Cone f = Full(part, m);
  int id = -7, n = f.rows();
  switch (f.kind) {
    case zoo::kLinear: {
      MatrixXd A = f.Stacked(), c = f.c[0];
      return CONEX_AddDenseLinearConstraint(p, A.data(), n, m, c.data(), n);
    }
    case zoo::kDense: {
      // Over its own variables if they are not all of them in order.
      bool sparse = part.vars != AllVars(m);
      const vector<Elem>& a = sparse ? part.cone.A : f.A;
      vector<double> data;
      for (auto& x : a) data.insert(data.end(), x[0].data(), x[0].data() + n * n);
      MatrixXd c = f.c[0];
      vector<long> vars(part.vars.begin(), part.vars.end());
      return sparse ? CONEX_AddSparseLMIConstraint(p, data.data(), n, n, a.size(), c.data(), n, n, vars.data(), vars.size())
                    : CONEX_AddDenseLMIConstraint(p, data.data(), n, n, a.size(), c.data(), n, n);
    }
    case zoo::kSOC:
      if (CONEX_NewLorentzConeConstraint(p, n - 1, &id) != CONEX_SUCCESS) return -8;
      break;
    default:
      if (CONEX_NewLinearMatrixInequality(p, n, f.c.size(), &id) != CONEX_SUCCESS) return -8;
  }
  for (size_t k = 0; k < f.c.size(); k++)
    for (int r = 0; r < n; r++)
      for (int c = 0; c <= (f.matrix() ? r : 0); c++) {
        if (k && r == c) continue;
        for (int i = 0; i < m; i++)
          if (CONEX_UpdateLinearOperator(p, id, f.A[i][k](r, c), i, r, c, k) != CONEX_SUCCESS) return -9;
        if (CONEX_UpdateAffineTerm(p, id, f.c[k](r, c), r, c, k) != CONEX_SUCCESS) return -9;
      }
  return id;
}

inline bool Build(void* p, const Problem& problem) {
  int next = 0;
  for (auto& part : problem.parts)
    if (Add(p, problem.m, part) != next++) return false;
  if (problem.E.rows()) {
    VectorXd d = problem.d;
    CONEX_AddLinearInequalities(p, problem.E.data(), problem.E.rows(), problem.m, d.data(), d.size(), d.data(), d.size());
  }
  if (problem.Q.size()) return CONEX_AddQuadraticCost(p, problem.Q.data(), problem.m, problem.m) == CONEX_SUCCESS;
  return true;
}

inline void BuildNative(conex::Program* p, const Problem& problem) {
  for (auto& part : problem.parts) {
    if (part.cone.kind == zoo::kDense && part.vars != AllVars(problem.m)) part.cone.Add(p, part.vars);
    else Full(part, problem.m).Add(p, AllVars(problem.m));
  }
  if (problem.E.rows()) {
    MatrixXd d = problem.d, A, b, E, e;
    conex::PreprocessLinearInequality(problem.E, d, d, &A, &b, &E, &e);
    if (A.rows()) p->AddConstraint(conex::LinearConstraint(A, b));
    if (E.rows()) p->AddConstraint(conex::EqualityConstraints(E, e));
  }
  if (problem.Q.size()) {
    vector<int> vars;
    for (int i = 0; i < problem.m; i++)
      if (problem.Q(i, i) > 0) vars.push_back(i);
    MatrixXd q(vars.size(), vars.size());
    for (size_t i = 0; i < vars.size(); i++)
      for (size_t j = 0; j < vars.size(); j++) q(i, j) = .5 * (problem.Q(vars[i], vars[j]) + problem.Q(vars[j], vars[i]));
    p->AddQuadraticCost(q, vars);
  }
}

// The options, by the names both interfaces give them.
struct Option {
  const char* name;
  vector<double> values;  // deviations from the default
  void (*c)(CONEX_SolverConfiguration*, double);
  void (*native)(conex::SolverConfiguration*, double);
  double (*get_c)(const CONEX_SolverConfiguration&);
  double (*get_native)(const conex::SolverConfiguration&);
};

#define CAPI_OPTION(field, ...)                                              \
  {                                                                          \
    #field, {__VA_ARGS__}, [](CONEX_SolverConfiguration* c, double v) { c->field = v; }, \
        [](conex::SolverConfiguration* c, double v) { c->field = v; },       \
        [](const CONEX_SolverConfiguration& c) -> double { return c.field; }, \
        [](const conex::SolverConfiguration& c) -> double { return c.field; } \
  }

inline const vector<Option>& Options() {
  static const vector<Option> all = {
      CAPI_OPTION(prepare_dual_variables, 1),
      CAPI_OPTION(initialization_mode, 1),
      CAPI_OPTION(inv_sqrt_mu_max, 30, 3000),
      CAPI_OPTION(minimum_mu, 1e-2),
      CAPI_OPTION(maximum_mu, .05, 1e8),
      CAPI_OPTION(divergence_upper_bound, .2, 3),
      CAPI_OPTION(enable_line_search, 1),
      CAPI_OPTION(dinf_upper_bound, .5, 1.25),
      CAPI_OPTION(final_centering_steps, 0, 2),
      CAPI_OPTION(final_centering_tolerance, 1e-7, .9),
      CAPI_OPTION(initial_centering_steps_warmstart, 2),
      CAPI_OPTION(initial_centering_steps_coldstart, 3),
      CAPI_OPTION(warmstart_abort_threshold, .001, 1e9),
      CAPI_OPTION(max_iterations, 4, 60),
      CAPI_OPTION(iterative_refinement_iterations, 1, 3),
      CAPI_OPTION(infeasibility_threshold, 1e-9, 1),
      CAPI_OPTION(kkt_error_tolerance, 1e-13),
      CAPI_OPTION(enable_rescaling, 0),
      CAPI_OPTION(kkt_solver, 1, 2),
  };
  return all;
}

inline CONEX_SolverConfiguration Defaults() {
  CONEX_SolverConfiguration c;
  memset(&c, 0xA5, sizeof c);
  CONEX_SetDefaultOptions(&c);
  return c;
}

}  // namespace capi
