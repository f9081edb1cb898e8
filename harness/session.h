// Small solvable programs and operations on them, for the checks of what
// earlier operations may (not) change.
#pragma once
#include "harness/zoo.h"

namespace session {

using namespace sc;
using zoo::Cone;
using zoo::Elem;

inline Elem Vec(std::initializer_list<double> v) {
  MatrixXd m(v.size(), 1);
  int i = 0;
  for (double x : v) m(i++, 0) = x;
  return {m};
}
inline Elem Mat(int d, double a, double b, int unit = 0, double x = 0) {
  Elem e(d, MatrixXd::Zero(2, 2));
  e[0](0, 0) = a;
  e[0](1, 1) = b;
  e[unit](0, 1) += x;
  e[unit](1, 0) += unit ? -x : x;
  return e;
}

struct Part {
  Cone cone;
  vector<int> vars;
};

struct Problem {
  std::string name;
  int m = 2;
  vector<Part> parts;
  MatrixXd E;
  VectorXd d;
  MatrixXd Q;
  VectorXd inside;  // a point in the interior (and on the equalities)
  vector<VectorXd> costs;

  bool LineSearch() const {
    for (auto& p : parts)
      if (!p.cone.LineSearch()) return false;
    return true;
  }
  bool has(int kinds) const {
    for (auto& p : parts)
      if (p.cone.kind & kinds) return true;
    return false;
  }
  double Slack(const VectorXd& y) const {
    double s = kInf;
    for (auto& p : parts) {
      VectorXd z(p.vars.size());
      for (size_t i = 0; i < p.vars.size(); i++) z(i) = y(p.vars[i]);
      s = std::min(s, p.cone.Slack(z));
    }
    return s;
  }
  double Objective(const VectorXd& cost, const VectorXd& y) const { return cost.dot(y) + (Q.size() ? .5 * y.dot(Q * y) : 0.); }
  double Residual(const VectorXd& y) const { return E.rows() ? (E * y - d).cwiseAbs().maxCoeff() : 0.; }

  void Build(conex::Program* p) const {
    for (auto& part : parts) part.cone.Add(p, part.vars);
    if (E.rows()) p->AddConstraint(conex::EqualityConstraints(E, MatrixXd(d)));
    if (Q.size()) p->AddQuadraticCost(Q);
  }
  int Constraints() const { return parts.size() + (E.rows() > 0) + (Q.size() > 0); }

  // The optimal value, searched along rays from the interior point (two
  // variables; the objective is convex).
  double Optimum(const VectorXd& cost) const {
    auto along = [&](const VectorXd& dir) {
      double lo = 0, hi = 1;
      while (Slack(inside + hi * dir) > 0) hi *= 2;
      double far = hi;
      for (int i = 0; i < 60; i++) {
        double mid = .5 * (lo + far);
        (Slack(inside + mid * dir) > 0 ? lo : far) = mid;
      }
      double a = 0, b = lo;
      for (int i = 0; i < 100; i++) {
        double u = a + (b - a) / 3, v = b - (b - a) / 3;
        if (Objective(cost, inside + u * dir) < Objective(cost, inside + v * dir)) b = v;
        else a = u;
      }
      return Objective(cost, inside + .5 * (a + b) * dir);
    };
    if (E.rows()) {
      Eigen::FullPivLU<MatrixXd> lu(E);
      VectorXd k = lu.kernel().col(0);
      return std::min(along(k), along(-k));
    }
    auto at = [&](double angle) {
      VectorXd dir(2);
      dir << std::cos(angle), std::sin(angle);
      return along(dir);
    };
    double best = kInf, where = 0;
    const double step = 2 * M_PI / 360;
    for (int i = 0; i < 360; i++) {
      double v = at(i * step);
      if (v < best) best = v, where = i * step;
    }
    double a = where - step, b = where + step;
    for (int i = 0; i < 60; i++) {
      double u = a + (b - a) / 3, v = b - (b - a) / 3;
      if (at(u) < at(v)) b = v;
      else a = u;
    }
    return std::min(best, at(.5 * (a + b)));
  }
};

inline Part Box(int m, double r) {
  Part p;
  p.cone.kind = zoo::kLinear;
  for (int i = 0; i < m; i++) {
    MatrixXd a = MatrixXd::Zero(2 * m, 1);
    a(2 * i) = 1;
    a(2 * i + 1) = -1;
    p.cone.A.push_back({a});
    p.vars.push_back(i);
  }
  p.cone.c = {MatrixXd::Constant(2 * m, 1, r)};
  return p;
}

// { y : |y| <= r } in any of the matrix or second-order cones.
inline Part Disk(int kind, double r) {
  Part p;
  p.cone.kind = kind;
  p.vars = {0, 1};
  if (kind & (zoo::kSOC | zoo::kQuad)) {
    p.cone.A = {Vec({0, -1, 0}), Vec({0, 0, 1})};
    p.cone.c = Vec({r, 0, 0});
  } else {
    int d = zoo::Dim(kind);
    p.cone.A = {Mat(d, 1, -1), Mat(d, 0, 0, d - 1, 1)};
    p.cone.c = Mat(d, r, r);
  }
  return p;
}

inline VectorXd V2(double a, double b) {
  VectorXd v(2);
  v << a, b;
  return v;
}

inline const vector<Problem>& Problems() {
  static vector<Problem> all = [] {
    vector<Problem> v;
    auto add = [&](const std::string& name, vector<Part> parts) -> Problem& {
      Problem p;
      p.name = name;
      p.parts = parts;
      p.inside = VectorXd::Zero(2);
      p.costs = {V2(1, -.5), V2(-2, -3), V2(.3, 4)};
      v.push_back(p);
      return v.back();
    };
    auto slanted = Box(2, 1);
    {
      Part s;
      s.cone.kind = zoo::kLinear;
      s.cone.A = {Vec({1, -1}), Vec({2, .5})};
      s.cone.c = Vec({1.5, 1});
      s.vars = {0, 1};
      add("lp", {slanted, s});
    }
    {
      auto& p = add("lp-equality", {Box(2, 1)});
      p.E.resize(1, 2);
      p.E << 1, 2;
      p.d = VectorXd::Constant(1, .5);
      p.inside = V2(.5, 0);
    }
    {
      auto& p = add("qp", {Box(2, 1)});
      p.Q.resize(2, 2);
      p.Q << 2, .5, .5, 1;
    }
    {
      auto& p = add("qp-equality", {Box(2, 1)});
      p.Q.resize(2, 2);
      p.Q << 1, 0, 0, 3;
      p.E.resize(1, 2);
      p.E << 1, -1;
      p.d = VectorXd::Constant(1, .25);
      p.inside = V2(.25, 0);
    }
    for (int k : {(int)zoo::kReal, (int)zoo::kDense, (int)zoo::kComplex, (int)zoo::kQuaternion, (int)zoo::kOctonion, (int)zoo::kSOC, (int)zoo::kQuad})
      add(zoo::Name(k), {Disk(k, 1)});
    {
      Part q = Disk(zoo::kQuad, 1);
      q.cone.Q.resize(2, 2);
      q.cone.Q << 2, 1, 1, 3;
      add("quadratic-cone-Q", {q});
    }
    {
      Part lmi = Disk(zoo::kDense, 1), soc = Disk(zoo::kSOC, 1.25), half;
      soc.vars = {1, 0};
      half.cone.kind = zoo::kLinear;
      half.cone.A = {Vec({1})};
      half.cone.c = Vec({.5});
      half.vars = {1};
      add("mixed", {half, lmi, soc, Disk(zoo::kComplex, 1.1), Disk(zoo::kQuad, 1.2)});
    }
    {
      Part lmi = Disk(zoo::kReal, 1);
      auto& p = add("lmi-equality", {lmi, Box(2, .9)});
      p.E.resize(1, 2);
      p.E << 2, 1;
      p.d = VectorXd::Constant(1, .5);
      p.inside = V2(.25, 0);
    }
    return v;
  }();
  return all;
}

inline bool SameBits(double a, double b) { return !std::memcmp(&a, &b, sizeof a); }

// Everything a program reports after a run.
struct Report {
  bool solved = false;
  conex::ConexStatus status;
  VectorXd y;
  int recorded = 0;
  vector<double> barrier;
  vector<VectorXd> duals;

  std::string Differs(const Report& o) const {
    std::ostringstream s;
    s.precision(17);
    if (solved != o.solved) s << "solved " << solved << " instead of " << o.solved;
    else if (status.solved != o.status.solved || status.num_iterations != o.status.num_iterations || status.primal_infeasible != o.status.primal_infeasible || status.dual_infeasible != o.status.dual_infeasible)
      s << "status (" << status.solved << "," << status.num_iterations << "," << status.primal_infeasible << "," << status.dual_infeasible << ") instead of (" << o.status.solved << "," << o.status.num_iterations << "," << o.status.primal_infeasible << "," << o.status.dual_infeasible << ")";
    else if (y.size() != o.y.size()) s << "size of y";
    else {
      for (int i = 0; i < y.size(); i++)
        if (!SameBits(y(i), o.y(i))) {
          s << "y(" << i << ")=" << y(i) << " instead of " << o.y(i);
          return s.str();
        }
      if (recorded != o.recorded) s << "records " << recorded << " instead of " << o.recorded;
      for (size_t i = 0; i < barrier.size() && s.str().empty(); i++)
        if (!SameBits(barrier[i], o.barrier[i])) s << "barrier parameter " << i << ": " << barrier[i] << " instead of " << o.barrier[i];
      for (size_t k = 0; k < duals.size() && s.str().empty(); k++)
        for (int i = 0; i < duals[k].size() && s.str().empty(); i++)
          if (duals[k].size() != o.duals[k].size() || !SameBits(duals[k](i), o.duals[k](i))) s << "dual variable of constraint " << k << " entry " << i << ": " << duals[k](i) << " instead of " << o.duals[k](i);
    }
    return s.str();
  }
};

// What can be asked of a program whose last run was `ran`.
inline void Query(conex::Program* p, const Problem& problem, bool duals, Report* r) {
  r->recorded = r->status.num_iterations ? p->stats->num_iter : 0;
  r->barrier.clear();
  for (int i = 0; i < r->recorded; i++) r->barrier.push_back(p->stats->sqrt_inv_mu[i]);
  r->duals.clear();
  if (duals && r->recorded)
    for (size_t k = 0; k < problem.parts.size(); k++) {
      // Second-order cones do not keep dual variables.
      if (problem.parts[k].cone.kind & (zoo::kSOC | zoo::kQuad)) continue;
      VectorXd x = VectorXd::Constant(p->GetDualVariableSize(k), -7);
      p->GetDualVariable(k, &x);
      r->duals.push_back(x);
    }
}

inline Report Execute(conex::Program* p, const Problem& problem, const conex::SolverConfiguration& config) {
  srand(7);
  Outcome o = Run(p, config);
  Report r;
  r.solved = o.solved;
  r.status = o.status;
  r.y = o.y;
  Query(p, problem, config.prepare_dual_variables, &r);
  return r;
}

inline conex::SolverConfiguration Base(const Problem& p) {
  conex::SolverConfiguration c;
  if (p.Q.size()) c.enable_line_search = 1, c.enable_rescaling = 0;
  return c;
}

}  // namespace session
