// Exact small-scale optimisation oracles and helpers to run the solver.
#pragma once
#include "interfaces/conex.h"

#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/quadratic_cost.h"
#include "conex/soc_constraint.h"
#include "mc/explore.h"

namespace sc {

using Eigen::MatrixXd;
using Eigen::VectorXd;
using mc::Ctx;
using std::vector;

const double kInf = std::numeric_limits<double>::infinity();

inline std::string Str(const MatrixXd& m) {
  std::ostringstream o;
  o << "[";
  for (int i = 0; i < m.rows(); i++) {
    o << (i ? "; " : "");
    for (int j = 0; j < m.cols(); j++) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}

// minimise c'x subject to A x <= b, E x = d.
struct LP {
  MatrixXd A, E;
  VectorXd b, d, c;
  int vars() const { return c.size(); }
  std::string str() const {
    std::string s = "min " + Str(c.transpose()) + "x, " + Str(A) + "x<=" + Str(b.transpose());
    if (E.rows()) s += ", " + Str(E) + "x=" + Str(d.transpose());
    return s;
  }
};

struct Opt {
  bool feasible = false;
  double value = kInf;
  VectorXd x;
};

// Vertex enumeration of {A x <= b, E x = d} which has to be bounded.
inline Opt SolveBounded(const LP& p) {
  Opt r;
  int m = p.vars();
  VectorXd x0 = VectorXd::Zero(m);
  MatrixXd N = MatrixXd::Identity(m, m);
  if (p.E.rows()) {
    Eigen::FullPivLU<MatrixXd> lu(p.E);
    lu.setThreshold(1e-9);
    x0 = lu.solve(p.d);
    if ((p.E * x0 - p.d).norm() > 1e-8 * (1 + p.d.norm())) return r;
    if (lu.rank() == m) N.resize(m, 0);
    else N = lu.kernel();
    for (int i = 0; i < N.cols(); i++) N.col(i).normalize();
  }
  MatrixXd A = p.A * N;
  VectorXd b = p.b - p.A * x0, c = N.transpose() * p.c;
  int k = N.cols(), n = A.rows();
  const double tol = 1e-9;
  auto test = [&](const VectorXd& z) {
    for (int i = 0; i < n; i++)
      if (A.row(i).dot(z) > b(i) + tol * (1 + std::fabs(b(i)) + A.row(i).cwiseAbs().dot(z.cwiseAbs()))) return;
    double v = c.dot(z) + p.c.dot(x0);
    if (!r.feasible || v < r.value) {
      r.feasible = true;
      r.value = v;
      r.x = x0 + N * z;
    }
  };
  if (k == 0) {
    test(VectorXd(0));
    return r;
  }
  vector<int> id(k);
  for (int i = 0; i < k; i++) id[i] = i;
  if (n < k) return r;
  MatrixXd M(k, k);
  VectorXd rhs(k);
  while (true) {
    for (int i = 0; i < k; i++) M.row(i) = A.row(id[i]), rhs(i) = b(id[i]);
    Eigen::PartialPivLU<MatrixXd> lu(M);
    double det = std::fabs(lu.determinant()), scale = 1;
    for (int i = 0; i < k; i++) scale *= std::max(1e-300, M.row(i).norm());
    if (det > 1e-9 * scale) test(lu.solve(rhs));
    int i = k - 1;
    while (i >= 0 && id[i] == n - k + i) i--;
    if (i < 0) break;
    id[i]++;
    for (int j = i + 1; j < k; j++) id[j] = id[j - 1] + 1;
  }
  return r;
}

inline LP Boxed(const LP& p, double R) {
  LP q = p;
  int m = p.vars(), n = p.A.rows();
  q.A.conservativeResize(n + 2 * m, m);
  q.b.conservativeResize(n + 2 * m);
  q.A.bottomRows(2 * m) << MatrixXd::Identity(m, m), -MatrixXd::Identity(m, m);
  q.b.tail(2 * m).setConstant(R);
  return q;
}

struct Facts {
  bool feasible = false;   // has a point
  bool interior = false;   // has a point with slack at least `slack`
  double slack = 0;        // largest uniform slack, at most one
  bool bounded = false;    // the objective is bounded below
  bool compact = false;    // the set of minimisers is bounded (and not empty)
  double margin = 0;       // how clearly it is infeasible: least uniform violation
  double value = 0;
  VectorXd x;
};

inline Facts Analyse(const LP& p) {
  Facts f;
  int m = p.vars(), n = p.A.rows();
  // Largest slack t <= 1 with A x + t <= b.
  LP s;
  s.A = MatrixXd::Zero(n + 2, m + 1);
  s.A.topLeftCorner(n, m) = p.A;
  s.A.topRightCorner(n, 1).setOnes();
  s.A(n, m) = 1;
  s.A(n + 1, m) = -1;
  s.b.resize(n + 2);
  s.b << p.b, 1, 1e3;
  s.E = MatrixXd::Zero(p.E.rows(), m + 1);
  if (p.E.rows()) s.E.leftCols(m) = p.E;
  s.d = p.d;
  s.c = VectorXd::Zero(m + 1);
  s.c(m) = -1;
  LP box = s;
  box.A.conservativeResize(n + 2 + 2 * m, m + 1);
  box.b.conservativeResize(n + 2 + 2 * m);
  box.A.bottomRows(2 * m).setZero();
  for (int i = 0; i < m; i++) box.A(n + 2 + i, i) = 1, box.A(n + 2 + m + i, i) = -1;
  box.b.tail(2 * m).setConstant(1e3);
  Opt o = SolveBounded(box);
  if (!o.feasible) {
    f.margin = 1e3;  // the equalities alone contradict each other
    return f;
  }
  f.slack = -o.value;
  f.interior = f.slack > 1e-6;
  f.feasible = f.slack > -1e-7;
  f.margin = std::max(0., -f.slack);
  if (!f.feasible) return f;
  // Recession directions.
  LP rec;
  rec.A = p.A;
  rec.b = VectorXd::Zero(n);
  rec.E = p.E;
  rec.d = VectorXd::Zero(p.E.rows());
  rec.c = p.c;
  Opt d = SolveBounded(Boxed(rec, 1));
  f.bounded = d.value > -1e-9;
  if (!f.bounded) return f;
  // Is there a nonzero direction that does not change the objective?
  f.compact = true;
  LP flat = rec;
  flat.A.conservativeResize(n + 1, m);
  flat.A.row(n) = p.c.transpose();
  flat.b = VectorXd::Zero(n + 1);
  for (int i = 0; i < m && f.compact; i++)
    for (int sgn = -1; sgn <= 1; sgn += 2) {
      LP g = flat;
      g.c = VectorXd::Zero(m);
      g.c(i) = sgn;
      if (SolveBounded(Boxed(g, 1)).value < -1e-9) f.compact = false;
    }
  Opt best = SolveBounded(Boxed(p, 1e3));
  f.value = best.value;
  f.x = best.x;
  return f;
}

// minimise .5 x'Q x + c'x over {A x <= b, E x = d}: exact by enumerating active
// sets (Q positive semidefinite and the minimum attained).
inline Opt SolveQP(const MatrixXd& Q, const LP& p) {
  Opt r;
  int m = p.vars(), n = p.A.rows(), e = p.E.rows();
  for (int mask = 0; mask < (1 << n); mask++) {
    int k = __builtin_popcount(mask);
    if (k + e > m + 4) continue;
    MatrixXd K = MatrixXd::Zero(m + k + e, m + k + e);
    VectorXd rhs = VectorXd::Zero(m + k + e);
    K.topLeftCorner(m, m) = Q;
    rhs.head(m) = -p.c;
    int row = m;
    for (int i = 0; i < n; i++)
      if (mask >> i & 1) {
        K.row(row).head(m) = p.A.row(i);
        K.col(row).head(m) = p.A.row(i).transpose();
        rhs(row++) = p.b(i);
      }
    for (int i = 0; i < e; i++) {
      K.row(row).head(m) = p.E.row(i);
      K.col(row).head(m) = p.E.row(i).transpose();
      rhs(row++) = p.d(i);
    }
    VectorXd z = K.completeOrthogonalDecomposition().solve(rhs);
    if ((K * z - rhs).norm() > 1e-8 * (1 + rhs.norm())) continue;
    VectorXd x = z.head(m);
    bool ok = n == 0 || ((p.A * x - p.b).array() < 1e-8).all();
    // A feasible stationary candidate; the least value over all of them is the
    // minimum, whatever the signs of the multipliers.
    if (!ok) continue;
    double v = .5 * x.dot(Q * x) + p.c.dot(x);
    if (!r.feasible || v < r.value) {
      r.feasible = true;
      r.value = v;
      r.x = x;
    }
  }
  return r;
}

// Silences what the solver prints (it prints a newline per solve).
struct Quiet {
  Quiet() {
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
  }
};

struct Outcome {
  bool solved = false;
  VectorXd y;
  conex::ConexStatus status;
};

inline Outcome Run(conex::Program* p, const conex::SolverConfiguration& config) {
  static Quiet quiet;
  Outcome o;
  int m = p->GetNumberOfVariables();
  VectorXd y = VectorXd::Constant(m, 77);
  o.solved = conex::Solve(*p, config, y.data());
  o.y = y;
  o.status = p->Status();
  return o;
}

inline std::string Str(const Outcome& o) {
  std::ostringstream s;
  s.precision(9);
  s << (o.solved ? "solved y=[" : "not solved y=[") << o.y.transpose() << "] iterations " << o.status.num_iterations;
  if (o.status.primal_infeasible) s << " primal-infeasible";
  if (o.status.dual_infeasible) s << " dual-infeasible";
  return s.str();
}

inline mc::Hash HashOf(const Outcome& o) {
  mc::Hash h;
  h.add(o.solved).add(o.status.primal_infeasible).add(o.status.dual_infeasible);
  for (int i = 0; i < o.y.size(); i++) h.real(o.y(i), 1e-3);
  return h;
}

}  // namespace sc
