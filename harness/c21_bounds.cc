// Two-sided inequalities: every small mixture of finite, infinite, equal and
// degenerate rows, judged as point sets, on the preprocessing function and on
// the constraints that the C interface adds.
#include "interfaces/conex.h"

#include "conex/cone_program.h"
#include "conex/linear_constraint.h"
#include "mc/explore.h"

using mc::Ctx;
using std::vector;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace {

const double kInf = std::numeric_limits<double>::infinity();

struct Rows {
  MatrixXd A;
  VectorXd lo, hi;
  std::string str() const {
    std::ostringstream o;
    for (int i = 0; i < A.rows(); i++) o << (i ? "; " : "") << lo(i) << " <= [" << A.row(i) << "] <= " << hi(i);
    return o.str();
  }
};

// Bounds: an index into a list of (lower, upper) pairs.
const vector<std::pair<double, double>>& Pairs() {
  static const vector<std::pair<double, double>> p = {
      {-1, 1},     {0, 2},   {-kInf, 1},  {-1, kInf}, {1, 1},        {0, 0},   {-kInf, kInf}, {-1e9, 2},
      {-2, 1e9},   {1, -1},  {-kInf, 0},  {0, kInf},  {-5e7, 5e7},   {-2, -2}, {-.5, 0},      {-1e-3, 1e-3},
      {-kInf, -1}, {2, kInf}, {-1e-6, 1e-6}, {1e6, 2e6}};
  return p;
}

Rows Read(Ctx& c, int n, int m, const vector<double>& al, int pairs) {
  Rows r;
  r.A.resize(n, m);
  r.lo.resize(n);
  r.hi.resize(n);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < m; j++) r.A(i, j) = c.among(al);
    auto b = Pairs()[c.choose(pairs)];
    r.lo(i) = b.first;
    r.hi(i) = b.second;
  }
  return r;
}

// Signed violation of the original description, relative to its scale.
double Violation(const Rows& r, const VectorXd& x) {
  double v = -kInf;
  for (int i = 0; i < r.A.rows(); i++) {
    double a = r.A.row(i).dot(x), s = r.A.row(i).norm();
    double up = r.hi(i) >= 1e8 ? -kInf : a - r.hi(i), dn = r.lo(i) <= -1e8 ? -kInf : r.lo(i) - a;
    if (r.lo(i) == r.hi(i)) up = std::fabs(a - r.hi(i)), dn = up;
    double t = std::max(up, dn);
    // A row without variables is a statement about numbers.
    if (s > 0) t /= std::max(1., std::max(s, std::max(std::fabs(r.hi(i) < 1e8 ? r.hi(i) : 0), std::fabs(r.lo(i) > -1e8 ? r.lo(i) : 0))));
    v = std::max(v, t);
  }
  return v;
}

// Test points: a grid, the crossing points of all bounding hyperplanes, and
// points just off each bounding hyperplane.
vector<VectorXd> Points(const Rows& r) {
  int m = r.A.cols();
  vector<VectorXd> p;
  vector<double> g = {-4, -2, -1, -.5, 0, .25, 1, 2, 3};
  vector<int> id(m, 0);
  while (true) {
    VectorXd x(m);
    for (int i = 0; i < m; i++) x(i) = g[id[i]];
    p.push_back(x);
    int k = 0;
    while (k < m && ++id[k] == (int)g.size()) id[k++] = 0;
    if (k == m) break;
  }
  vector<std::pair<VectorXd, double>> planes;
  for (int i = 0; i < r.A.rows(); i++)
    for (double b : {r.lo(i), r.hi(i)})
      if (std::fabs(b) < 1e8 && r.A.row(i).norm() > 0) planes.push_back({r.A.row(i).transpose(), b});
  size_t grid = p.size();
  for (auto& q : planes)
    for (double off : {0., 1e-2, -1e-2})
      for (size_t k = 0; k < grid; k += 4) {
        // Move a grid point onto (or just off) the plane.
        double s = q.first.squaredNorm(), scale = std::max(1., std::fabs(q.second));
        VectorXd x = p[k] + q.first * ((q.second + off * scale - q.first.dot(p[k])) / s);
        p.push_back(x);
      }
  if (m == 2)
    for (size_t i = 0; i < planes.size(); i++)
      for (size_t j = 0; j < i; j++) {
        Eigen::Matrix2d M;
        M << planes[i].first.transpose(), planes[j].first.transpose();
        if (std::fabs(M.determinant()) < 1e-9) continue;
        VectorXd x = M.inverse() * Eigen::Vector2d(planes[i].second, planes[j].second);
        p.push_back(x);
      }
  return p;
}

void Preprocess(Ctx& c, int n, int m, const vector<double>& al, int pairs) {
  Rows r = Read(c, n, m, al, pairs);
  c.describe(r.str());
  MatrixXd Ai, bi, Ae, be;
  conex::PreprocessLinearInequality(r.A, r.lo, r.hi, &Ai, &bi, &Ae, &be);
  std::ostringstream o;
  o << r.str() << " became inequalities [" << Ai << "] <= [" << bi.transpose() << "], equalities [" << Ae << "] = [" << be.transpose() << "]";
  c.check(Ai.rows() == bi.rows() && Ae.rows() == be.rows(), "shape", o.str());
  c.check(Ai.rows() == 0 || Ai.cols() == m, "shape", o.str());
  c.check(Ae.rows() == 0 || Ae.cols() == m, "shape", o.str());
  c.check(Ai.allFinite() && bi.allFinite() && Ae.allFinite() && be.allFinite(), "finite", o.str());
  for (auto& x : Points(r)) {
    double v = Violation(r, x), w = -kInf;
    for (int i = 0; i < Ai.rows(); i++) {
      double s = std::max(1e-9, std::sqrt(Ai.row(i).squaredNorm() + bi(i, 0) * bi(i, 0)));
      w = std::max(w, (Ai.row(i).dot(x) - bi(i, 0)) / s);
    }
    for (int i = 0; i < Ae.rows(); i++) {
      double s = std::max(1e-9, std::sqrt(Ae.row(i).squaredNorm() + be(i, 0) * be(i, 0)));
      w = std::max(w, std::fabs(Ae.row(i).dot(x) - be(i, 0)) / s);
    }
    bool in = v <= 1e-12, out = v > 1e-4;
    if (in) c.check(w <= 1e-9, "excluded", o.str() + " excludes a point of the set");
    if (out) c.check(w > 1e-9, "admitted", o.str() + " admits a point outside of the set");
    c.judged();
  }
  mc::Hash h;
  for (int i = 0; i < Ai.rows(); i++) {
    for (int j = 0; j < m; j++) h.real(Ai(i, j));
    h.real(bi(i, 0));
  }
  h.add(-1);
  for (int i = 0; i < Ae.rows(); i++) {
    for (int j = 0; j < m; j++) h.real(Ae(i, j));
    h.real(be(i, 0));
  }
  c.state(h);
  if (Ai.rows() + Ae.rows() > 1) c.nontrivial();
}

// The C interface: which points are the optimum for a cost that is optimal at
// a known vertex of a box given as rows with arbitrary scaling.
void Interface(Ctx& c, int m) {
  // Row i bounds s_i * x_i; optionally one more, two-variable row.
  VectorXd scale(m), lo(m), hi(m);
  bool extra = m == 2 && c.flip();
  int n = m + extra;
  MatrixXd A = MatrixXd::Zero(n, m);
  VectorXd L(n), U(n);
  int order = c.choose(2);
  vector<double> xl(m), xu(m);
  for (int i = 0; i < m; i++) {
    double s = c.among(vector<double>{1, -1, 2, -.5, 10});
    auto b = c.among(vector<std::pair<double, double>>{{-1, 1}, {0, 3}, {2, 2}, {-3, -1}});
    int row = order ? n - 1 - i : i;
    A(row, i) = s;
    L(row) = s > 0 ? s * b.first : s * b.second;
    U(row) = s > 0 ? s * b.second : s * b.first;
    xl[i] = b.first;
    xu[i] = b.second;
  }
  if (extra) {
    int row = order ? 0 : n - 1;
    A(row, 0) = 1;
    A(row, 1) = -1;
    L(row) = c.among(vector<double>{-1e9, -kInf, -100});
    U(row) = c.among(vector<double>{1e9, kInf, 100});
  }
  VectorXd cost(m);
  for (int i = 0; i < m; i++) cost(i) = c.among(vector<double>{1, -1});
  int calls = c.range(1, 2);  // all rows at once, or one call per row
  void* p = CONEX_CreateConeProgram();
  CONEX_SetNumberOfVariables(p, m);
  if (calls == 1) {
    CONEX_AddLinearInequalities(p, A.data(), n, m, L.data(), n, U.data(), n);
  } else {
    for (int i = 0; i < n; i++) {
      VectorXd a = A.row(i).transpose();
      CONEX_AddLinearInequalities(p, a.data(), 1, m, &L(i), 1, &U(i), 1);
    }
  }
  CONEX_SolverConfiguration config;
  memset(&config, 0, sizeof config);
  CONEX_SetDefaultOptions(&config);
  config.iterative_refinement_iterations = 0;
  config.kkt_solver = 0;
  config.max_iterations = 100;
  VectorXd y = VectorXd::Constant(m, 777);
  int equalities = 0;
  for (int i = 0; i < m; i++) equalities += xl[i] == xu[i];
  int solved = CONEX_Maximize(p, cost.data(), m, &config, y.data(), m);
  CONEX_DeleteConeProgram(p);
  std::ostringstream o;
  o << "A=[" << A << "] lb=[" << L.transpose() << "] ub=[" << U.transpose() << "] maximise [" << cost.transpose() << "] solved " << solved << " y=[" << y.transpose() << "]";
  c.describe(o.str());
  c.state(mc::Hash().real(y(0), 1e-4).real(y(m - 1), 1e-4));
  c.judged();
  if (equalities) c.nontrivial();
  if (equalities == m) return;  // no inequality with interior remains to be solved
  c.check(solved == 1, "not-solved", o.str());
  for (int i = 0; i < m; i++) {
    double want = cost(i) > 0 ? xu[i] : xl[i];
    c.check(std::fabs(y(i) - want) < 1e-2, "optimum", o.str());
  }
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  const vector<double> full = {1, 0, -1, 2, -.5, 100, -1e-3}, small = {1, 0, -1, 2};
  v.push_back({"one-row-1", [=](Ctx& c) { Preprocess(c, 1, 1, full, 20); }, 2, false, "1 row, 1 variable"});
  v.push_back({"one-row-2", [=](Ctx& c) { Preprocess(c, 1, 2, full, 20); }, 2, false, "1 row, 2 variables"});
  v.push_back({"one-row-3", [=](Ctx& c) { Preprocess(c, 1, 3, small, 20); }, 2, false, "1 row, 3 variables"});
  v.push_back({"two-rows-1", [=](Ctx& c) { Preprocess(c, 2, 1, full, 20); }, 2, false, "2 rows, 1 variable"});
  v.push_back({"two-rows-2", [=](Ctx& c) { Preprocess(c, 2, 2, small, c.pick(12, 20)); }, 2, false, "2 rows, 2 variables"});
  v.push_back({"three-rows-1", [=](Ctx& c) { Preprocess(c, 3, 1, {1, -1}, c.pick(8, 16)); }, 2, false, "3 rows, 1 variable"});
  v.push_back({"three-rows-2", [=](Ctx& c) { Preprocess(c, 3, 2, {1, 0, -2}, 8); }, 3, true, "3 rows, 2 variables"});
  v.push_back({"interface-1", [=](Ctx& c) { Interface(c, 1); }, 2, false, "C interface, one variable"});
  v.push_back({"interface-2", [=](Ctx& c) { Interface(c, 2); }, 4, false, "C interface, two variables"});
  return mc::Main(argc, argv, v);
}
