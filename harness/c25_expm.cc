// Exponential maps, geodesic updates and approximate eigenvalues on every small
// matrix of an integer alphabet, against exact references.
#include <unsupported/Eigen/MatrixFunctions>

#include <algorithm>
#include <numeric>

#include "conex/approximate_eigenvalues.h"
#include "conex/exponential_map.h"
#include "conex/exponential_map_pade.h"
#include "conex/jordan_matrix_algebra.h"
#include "mc/explore.h"

using mc::Ctx;
using std::vector;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using HM = conex::HyperComplexMatrix;

namespace {

std::string Show(const MatrixXd& m) {
  std::ostringstream o;
  o << "[";
  for (int i = 0; i < m.rows(); i++) {
    o << (i ? "; " : "");
    for (int j = 0; j < m.cols(); j++) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}
mc::Hash HashOf(const MatrixXd& m) {
  mc::Hash h;
  for (int i = 0; i < m.size(); i++) h.real(m.data()[i], 1e-6);
  return h;
}

MatrixXd Symmetric(Ctx& c, int n, const vector<double>& diag, const vector<double>& off) {
  MatrixXd m(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = c.among(i == j ? diag : off);
  return m;
}

double Norm2(const MatrixXd& m) { return m.rows() ? m.jacobiSvd().singularValues()(0) : 0; }

// Ritz values of x on the Krylov space of y; returns the least off-diagonal
// element met (the space is degenerate when it is tiny).
double Lanczos(const MatrixXd& x, const VectorXd& y, int k, VectorXd* ritz) {
  int n = x.rows();
  MatrixXd V = MatrixXd::Zero(n, k);
  V.col(0) = y / y.norm();
  double least = 1e300;
  for (int i = 1; i < k; i++) {
    VectorXd w = x * V.col(i - 1);
    for (int rep = 0; rep < 2; rep++)
      for (int j = 0; j < i; j++) w -= V.col(j).dot(w) * V.col(j);
    double b = w.norm();
    least = std::min(least, b);
    if (b < 1e-9) return 0;
    V.col(i) = w / b;
  }
  *ritz = Eigen::SelfAdjointEigenSolver<MatrixXd>(V.transpose() * x * V).eigenvalues();
  return least;
}

// A (3,3) Pade approximation: the error is of seventh order.
void Pade(Ctx& c, int n, bool symmetric) {
  MatrixXd a(n, n);
  if (symmetric)
    a = Symmetric(c, n, {0, 1, -1, 3}, {0, 1, -2});
  else
    for (int i = 0; i < n * n; i++) a.data()[i] = c.among(vector<double>{0, 1, -1, 2});
  double scale = c.among(vector<double>{.25, .5, 1});
  double norm = Norm2(a);
  if (norm > 0) a *= scale / norm;
  c.describe("Pade of " + Show(a));
  MatrixXd ref = a.exp(), mem(n + 8, n + 8);
  Eigen::VectorXd buf(n * n);
  conex::Ref got(buf.data(), n, n);
  conex::ExponentialMapPadeApproximation(a, &got);
  double err = Norm2(got - ref), bound = std::pow(scale, 7) * std::exp(scale) / 20000 + 1e-12;
  std::ostringstream o;
  o << "error " << err << " exceeds " << bound << " for " << Show(a) << " result " << Show(got);
  c.check(err <= bound, "pade", o.str());
  if (norm > 0) c.nontrivial();
  c.state(HashOf(got));
  c.judged();
}

template <int d>
struct Hyper {
  using T = conex::MatrixAlgebra<d>;
  // Left multiplication by a hypercomplex matrix as a real matrix.
  static MatrixXd Real(const HM& x) {
    int r = x[0].rows(), k = x[0].cols();
    MatrixXd M = MatrixXd::Zero(r * d, k * d);
    static vector<vector<vector<double>>> table;
    if (table.empty()) {
      table.assign(d, vector<vector<double>>(d, vector<double>(d, 0)));
      for (int a = 0; a < d; a++)
        for (int b = 0; b < d; b++) {
          HM ea = T::Zero(1, 1), eb = T::Zero(1, 1);
          ea.at(a)(0, 0) = eb.at(b)(0, 0) = 1;
          HM p = T::Multiply(ea, eb);
          for (int q = 0; q < d; q++) table[a][b][q] = p[q](0, 0);
        }
    }
    for (int a = 0; a < d; a++)
      for (int b = 0; b < d; b++)
        for (int q = 0; q < d; q++)
          if (table[a][b][q] != 0)
            for (int i = 0; i < r; i++)
              for (int j = 0; j < k; j++) M(i * d + q, j * d + b) += table[a][b][q] * x[a](i, j);
    return M;
  }
  static HM Hermitian(Ctx& c, int n, const vector<double>& diag, const vector<double>& off, int units) {
    HM x = T::Zero(n, n);
    for (int i = 0; i < n; i++) x.at(0)(i, i) = c.among(diag);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        for (int u = 0; u < units; u++) {
          // Entries in the first `units` nonreal directions, spread over the pairs.
          int a = units == 1 ? (i + j) % d : (u * (d > 1 ? d - 1 : 0)) % d;
          double v = c.among(off);
          x.at(a)(i, j) += v;
          x.at(a)(j, i) += a ? -v : v;
        }
    return x;
  }
  static std::string Str(const HM& x) {
    std::string s;
    for (int a = 0; a < d; a++) s += "e" + std::to_string(a) + Show(x[a]);
    return s;
  }
  static HM Definite(Ctx& c, int n) {
    int k = c.choose(3);
    HM w = T::Identity(n);
    if (k == 1)
      for (int i = 0; i < n; i++) w.at(0)(i, i) = .5 + i;
    if (k == 2 && n > 1) {
      int a = d - 1;
      w.at(0) *= 1.5;
      w.at(a)(1, 0) = .75;
      w.at(a)(0, 1) = a ? -.75 : .75;
    }
    return w;
  }

  static void Update(Ctx& c, int n, int units) {
    HM w = Definite(c, n);
    HM s = Hermitian(c, n, {0, 1, -1}, {0, 1, -1}, units);
    MatrixXd W = Real(w), S = Real(s);
    Eigen::SelfAdjointEigenSolver<MatrixXd> ew(W);
    MatrixXd R = ew.operatorSqrt(), X = R * S * R;
    double norm = Norm2(X), scale = c.among(vector<double>{.25, 1});
    if (norm > 0) {
      s = T::ScalarMultiply(s, scale / norm);
      S *= scale / norm;
      X *= scale / norm;
    }
    c.describe("d=" + std::to_string(d) + " w=" + Str(w) + " s=" + Str(s));
    // exp by two squarings of a second-order polynomial
    HM arg = T::Multiply(w, s), e = T::Zero(n, n);
    conex::ExponentialMap(arg, &e);
    MatrixXd ref = (W * S).exp(), got = Real(e);
    // Judged in the scaled metric in which w*s is Hermitian.
    MatrixXd Ri = R.inverse();
    double err = Norm2(Ri * (got - ref) * R), bound = std::pow(scale, 3) * std::exp(scale) / 60 + 1e-12;
    {
      std::ostringstream o;
      o << "ExponentialMap: error " << err << " exceeds " << bound;
      c.check(err <= bound, "exponential-map", o.str());
    }
    HM g = conex::GeodesicUpdate(w, s);
    MatrixXd gref = R * X.exp() * R;
    err = Norm2(Real(g) - gref);
    {
      std::ostringstream o;
      o << "GeodesicUpdate: error " << err;
      c.check(err <= 1e-7 * (1 + Norm2(W)), "geodesic-update", o.str());
    }
    HM gs = conex::GeodesicUpdateScaled(w, s);
    MatrixXd Y = 1.5 * MatrixXd::Identity(X.rows(), X.cols()) + .5 * X;
    err = Norm2(Real(gs) - R * Y * Y * R);
    {
      std::ostringstream o;
      o << "GeodesicUpdateScaled: error " << err;
      c.check(err <= 1e-10 * (1 + Norm2(W)), "geodesic-update-scaled", o.str());
    }
    if (norm > 0) c.nontrivial();
    c.state(HashOf(Real(g)));
    c.judged(3);
  }

  static HM Start(int kind, int n) {
    HM r = T::Zero(n, 1);
    if (kind < n) r.at(0)(kind, 0) = 1;
    else if (kind == n)
      for (int i = 0; i < n; i++)
        for (int a = 0; a < d; a++) r.at(a)(i, 0) = std::sqrt(2. + i + 3 * a) - (a * i % 3) + (i % 2 ? -.3 : .4);
    else
      r.at(0).setOnes();
    return r;
  }

  static void Approximate(Ctx& c, int n, int units) {
    HM w = Definite(c, n);
    HM s = Hermitian(c, n, {0, 1, -2}, {0, 1, -1}, units);
    int kind = c.choose(n + 2);
    int iters = c.range(1, n);
    HM r = Start(kind, n);
    c.describe("d=" + std::to_string(d) + " w=" + Str(w) + " s=" + Str(s) + " start " + std::to_string(kind) + " iterations " + std::to_string(iters));
    MatrixXd W = Real(w), S = Real(s);
    Eigen::SelfAdjointEigenSolver<MatrixXd> ew(W);
    MatrixXd R = ew.operatorSqrt(), X = R * S * R;
    VectorXd ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(X).eigenvalues();
    double lo = ev(0), hi = ev(ev.size() - 1), span = 1 + hi - lo;
    HM ws = T::Multiply(w, s);
    VectorXd got = T::ApproximateEigenvalues(ws, w, r, iters);
    std::ostringstream o;
    o << "approximate eigenvalues " << got.transpose() << " exact range [" << lo << ", " << hi << "]";
    c.check(got.size() >= 1 && got.size() <= iters, "ritz-count", o.str());
    for (int i = 0; i < got.size(); i++)
      c.check(got(i) >= lo - 1e-6 * span && got(i) <= hi + 1e-6 * span, "ritz-range", o.str());
    // One iteration gives the Rayleigh quotient.
    MatrixXd q = Real(r).col(0);
    double rq = (q.transpose() * W * S * W * q)(0) / (q.transpose() * W * q)(0);
    if (iters == 1) c.check(std::fabs(got(0) - rq) < 1e-9 * span, "rayleigh", o.str() + " Rayleigh quotient " + std::to_string(rq));
    // Exact Lanczos with full orthogonalisation.
    double scaling = (X * (R * q / (R * q).norm())).squaredNorm();
    VectorXd exact;
    double least = Lanczos(X, R * q, iters, &exact);
    if (least * least > 1e-4 * scaling) {
      std::ostringstream o3;
      o3 << o.str() << " Ritz values expected " << exact.transpose();
      c.check(got.size() == iters && (got - exact).cwiseAbs().maxCoeff() < 1e-5 * span, "weighted-ritz", o3.str());
      if (iters > 1) c.nontrivial();
      c.judged();
    }
    // The unweighted variant, when the Krylov space is large enough.
    MatrixXd K(q.rows(), iters);
    K.col(0) = q / q.norm();
    for (int i = 1; i < iters; i++) {
      K.col(i) = S * K.col(i - 1);
      double nn = K.col(i).norm();
      if (nn > 1e-6) K.col(i) /= nn;
    }
    double smin = K.jacobiSvd().singularValues()(iters - 1);
    if (smin > 1e-2) {
      VectorXd g2 = T::ApproximateEigenvalues(s, r, iters);
      VectorXd es = Eigen::SelfAdjointEigenSolver<MatrixXd>(S).eigenvalues();
      MatrixXd Qk = Eigen::HouseholderQR<MatrixXd>(K).householderQ() * MatrixXd::Identity(K.rows(), iters);
      VectorXd rr = Eigen::SelfAdjointEigenSolver<MatrixXd>(Qk.transpose() * S * Qk).eigenvalues();
      std::ostringstream o2;
      o2 << "Ritz values " << g2.transpose() << " expected " << rr.transpose();
      c.check(g2.size() == iters && (g2 - rr).cwiseAbs().maxCoeff() < 1e-6 * span, "ritz-exact", o2.str());
      c.judged();
    }
    if (d <= 4 && iters == n) {
      // Jacobi matrix of the trace inner product: range.
      VectorXd gj = T::EigenvaluesOfJacobiMatrix(ws, w, iters);
      for (int i = 0; i < gj.size(); i++)
        c.check(gj(i) >= lo - 1e-4 * span && gj(i) <= hi + 1e-4 * span, "jacobi-range", "Jacobi matrix eigenvalue outside of the spectrum");
    }
    mc::Hash h;
    for (int i = 0; i < got.size(); i++) h.real(got(i), 1e-5);
    c.state(h);
    c.judged(3);
  }
};

// The real versions used by the semidefinite cone.
void RealApproximate(Ctx& c, int n) {
  MatrixXd s = Symmetric(c, n, {0, 1, -2}, {0, 1});
  int wk = c.choose(3);
  MatrixXd w = MatrixXd::Identity(n, n);
  if (wk == 1)
    for (int i = 0; i < n; i++) w(i, i) = .5 + i;
  if (wk == 2) {
    w *= 1.5;
    for (int i = 1; i < n; i++) w(i, i - 1) = w(i - 1, i) = .5;
  }
  int kind = c.choose(n + 1), iters = c.range(1, n);
  VectorXd r = VectorXd::Zero(n);
  if (kind < n) r(kind) = 1;
  else
    for (int i = 0; i < n; i++) r(i) = std::sqrt(2. + i) - (i % 2);
  c.describe("s=" + Show(s) + " w=" + Show(w) + " start " + std::to_string(kind) + " iterations " + std::to_string(iters));
  Eigen::SelfAdjointEigenSolver<MatrixXd> ew(w);
  MatrixXd R = ew.operatorSqrt(), X = R * s * R;
  VectorXd ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(X).eigenvalues();
  double lo = ev(0), hi = ev(n - 1), span = 1 + hi - lo;
  VectorXd y = R * r;
  // Krylov space of X from R r.
  MatrixXd K(n, iters);
  K.col(0) = y / y.norm();
  for (int i = 1; i < iters; i++) {
    K.col(i) = X * K.col(i - 1);
    double nn = K.col(i).norm();
    if (nn > 1e-6) K.col(i) /= nn;
  }
  double smin = K.jacobiSvd().singularValues()(iters - 1);
  VectorXd got = conex::ApproximateEigenvalues(w * s, w, r, iters, true);
  std::ostringstream o;
  o << "approximate eigenvalues " << got.transpose() << " range [" << lo << ", " << hi << "]";
  for (int i = 0; i < got.size(); i++) c.check(got(i) >= lo - 1e-5 * span && got(i) <= hi + 1e-5 * span, "real-range", o.str());
  if (smin > 1e-2) {
    MatrixXd Q = Eigen::HouseholderQR<MatrixXd>(K).householderQ() * MatrixXd::Identity(n, iters);
    VectorXd rr = Eigen::SelfAdjointEigenSolver<MatrixXd>(Q.transpose() * X * Q).eigenvalues();
    o << " Ritz values expected " << rr.transpose();
    c.check(got.size() == iters && (got - rr).cwiseAbs().maxCoeff() < 1e-5 * span, "real-ritz", o.str());
    if (iters >= 2 || n == 1) c.nontrivial();
    VectorXd g2 = conex::ApproximateEigenvalues(w * s, w, r, iters, false);
    c.check(n == 1 || (g2.size() == iters && (g2 - rr).cwiseAbs().maxCoeff() < 1e-4 * span), "real-jacobi", o.str());
    if (wk == 0) {
      VectorXd g3 = conex::ApproximateEigenvalues(s, r, iters);
      c.check(g3.size() == iters && (g3 - rr).cwiseAbs().maxCoeff() < 1e-6 * span, "real-lanczos", o.str());
    }
    c.judged(3);
  }
  mc::Hash h;
  for (int i = 0; i < got.size(); i++) h.real(got(i), 1e-5);
  c.state(h);
  c.judged();
}

// Octonion matrices whose entries lie in one complex subfield behave as complex
// matrices.
void OctonionSubfield(Ctx& c, int n) {
  using O = conex::Octonions;
  using C = conex::Complex;
  int unit = c.range(1, 7);
  HM s = Hyper<2>::Hermitian(c, n, {0, 1, -1}, {0, 1, -1}, 2);
  HM w = Hyper<2>::Definite(c, n);
  double scale = c.among(vector<double>{.25, .5});
  s = C::ScalarMultiply(s, scale);
  auto lift = [&](const HM& x) {
    HM y = O::Zero(n, x[0].cols());
    y.at(0) = x[0];
    y.at(unit) = x[1];
    return y;
  };
  auto same = [&](const HM& o8, const HM& c2) {
    double e = 0;
    for (int a = 0; a < 8; a++) {
      MatrixXd r = a == 0 ? c2[0] : a == unit ? c2[1] : MatrixXd::Zero(n, n);
      e = std::max(e, (o8[a] - r).cwiseAbs().maxCoeff());
    }
    return e < 1e-9;
  };
  c.describe("unit e" + std::to_string(unit) + " w=" + Hyper<2>::Str(w) + " s=" + Hyper<2>::Str(s));
  c.check(same(conex::GeodesicUpdate(lift(w), lift(s)), conex::GeodesicUpdate(w, s)), "octonion-geodesic", "GeodesicUpdate differs from the complex one");
  c.check(same(conex::GeodesicUpdateScaled(lift(w), lift(s)), conex::GeodesicUpdateScaled(w, s)), "octonion-geodesic-scaled", "GeodesicUpdateScaled differs from the complex one");
  HM e8 = O::Zero(n, n), e2 = C::Zero(n, n);
  conex::ExponentialMap(lift(s), &e8);
  conex::ExponentialMap(s, &e2);
  c.check(same(e8, e2), "octonion-exp", "ExponentialMap differs from the complex one");
  HM g = conex::GeodesicUpdate(w, s);
  mc::Hash h = HashOf(g[0]);
  h.add(unit);
  c.state(h);
  c.nontrivial();
  c.judged(3);
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"pade-2", [](Ctx& c) { Pade(c, 2, false); }, 2, false, "all 2x2 matrices over {0,1,-1,2}, norms .25 .5 1"});
  v.push_back({"pade-sym-3", [](Ctx& c) { Pade(c, 3, true); }, 2, false, "all symmetric 3x3 matrices over an alphabet"});
  v.push_back({"real-update-3", [](Ctx& c) { Hyper<1>::Update(c, 3, 1); }, 2, false, "order 3"});
  v.push_back({"complex-update-2", [](Ctx& c) { Hyper<2>::Update(c, 2, 2); }, 2, false, "order 2"});
  v.push_back({"complex-update-3", [](Ctx& c) { Hyper<2>::Update(c, 3, 1); }, 2, false, "order 3"});
  v.push_back({"quaternion-update-2", [](Ctx& c) { Hyper<4>::Update(c, 2, 2); }, 2, false, "order 2"});
  v.push_back({"quaternion-update-3", [](Ctx& c) { Hyper<4>::Update(c, 3, 1); }, 2, true, "order 3"});
  v.push_back({"octonion-subfield-2", [](Ctx& c) { OctonionSubfield(c, 2); }, 2, false, "order 2"});
  v.push_back({"octonion-subfield-3", [](Ctx& c) { OctonionSubfield(c, 3); }, 2, true, "order 3"});
  for (int n = 1; n <= 3; n++)
    v.push_back({"real-approximate-" + std::to_string(n), [n](Ctx& c) { RealApproximate(c, n); }, 2, false, "order " + std::to_string(n)});
  v.push_back({"real-approximate-4", [](Ctx& c) { RealApproximate(c, 4); }, 3, true, "order 4"});
  v.push_back({"hyper1-approximate-3", [](Ctx& c) { Hyper<1>::Approximate(c, 3, 1); }, 2, false, "order 3"});
  v.push_back({"hyper2-approximate-2", [](Ctx& c) { Hyper<2>::Approximate(c, 2, 2); }, 2, false, "order 2"});
  v.push_back({"hyper2-approximate-3", [](Ctx& c) { Hyper<2>::Approximate(c, 3, 1); }, 2, false, "order 3"});
  v.push_back({"hyper4-approximate-2", [](Ctx& c) { Hyper<4>::Approximate(c, 2, 2); }, 2, false, "order 2"});
  v.push_back({"hyper4-approximate-3", [](Ctx& c) { Hyper<4>::Approximate(c, 3, 1); }, 2, true, "order 3"});
  return mc::Main(argc, argv, v);
}
