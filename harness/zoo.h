// Small cone constraints of every kind with exact definitions of their slack.
#pragma once
#include "harness/solve_common.h"

namespace zoo {

using Eigen::MatrixXd;
using Eigen::VectorXd;
using mc::Ctx;
using sc::Str;
using std::vector;
using Elem = vector<MatrixXd>;  // components of a (hypercomplex) matrix or vector

enum Kind { kLinear = 1, kReal = 2, kComplex = 4, kQuaternion = 8, kOctonion = 16, kDense = 32, kSOC = 64, kQuad = 128, kEquality = 256, kEpigraph = 512 };
const int kAll = kLinear | kReal | kComplex | kQuaternion | kOctonion | kDense | kSOC | kQuad;
const int kHermitian = kReal | kComplex | kQuaternion | kOctonion;

inline int Dim(int kind) { return kind == kComplex ? 2 : kind == kQuaternion ? 4 : kind == kOctonion ? 8 : 1; }
inline const char* Name(int kind) {
  switch (kind) {
    case kLinear: return "linear";
    case kReal: return "real";
    case kComplex: return "complex";
    case kQuaternion: return "quaternion";
    case kOctonion: return "octonion";
    case kDense: return "dense-lmi";
    case kSOC: return "soc";
    case kQuad: return "quadratic-cone";
    case kEquality: return "equality";
  }
  return "?";
}

// Eigenvalues of a Hermitian hypercomplex matrix (order 3 only up to complex).
inline VectorXd Eig(const Elem& x) {
  int n = x[0].rows(), d = x.size();
  if (n == 1) return x[0].col(0);
  if (n == 2) {
    double off = 0;
    for (int k = 0; k < d; k++) off += x[k](0, 1) * x[k](0, 1);
    double mid = .5 * (x[0](0, 0) + x[0](1, 1)), r = std::sqrt(std::pow(.5 * (x[0](0, 0) - x[0](1, 1)), 2) + off);
    VectorXd e(2);
    e << mid - r, mid + r;
    return e;
  }
  if (d == 1) return Eigen::SelfAdjointEigenSolver<MatrixXd>(x[0]).eigenvalues();
  MatrixXd big(2 * n, 2 * n);
  big << x[0], -x[1], x[1], x[0];
  VectorXd all = Eigen::SelfAdjointEigenSolver<MatrixXd>(big).eigenvalues();
  VectorXd e(n);
  for (int i = 0; i < n; i++) e(i) = all(2 * i);
  return e;
}

struct Cone {
  int kind = kLinear;
  vector<Elem> A;
  Elem c;
  MatrixXd Q;

  int rows() const { return c[0].rows(); }
  bool matrix() const { return kind & (kHermitian | kDense); }
  bool LineSearch() const { return kind == kLinear || kind == kEquality; }
  int Rank() const { return kind == kSOC || kind == kQuad ? 2 : kind == kEquality ? 0 : rows(); }

  Elem At(const VectorXd& y, double cw) const {
    Elem s = c;
    for (size_t k = 0; k < s.size(); k++) {
      s[k] *= cw;
      for (size_t i = 0; i < A.size(); i++) s[k] -= y(i) * A[i][k];
    }
    return s;
  }
  double Least(const Elem& s) const {
    switch (kind) {
      case kLinear: return s[0].minCoeff();
      case kEquality: return -s[0].cwiseAbs().maxCoeff();
      case kSOC: return s[0](0) - s[0].bottomRows(rows() - 1).norm();
      case kQuad: {
        VectorXd t = s[0].bottomRows(rows() - 1).col(0);
        double q = Q.size() ? t.dot(Q * t) : t.squaredNorm();
        return s[0](0) - std::sqrt(std::max(0., q));
      }
      default: return Eig(s).minCoeff();
    }
  }
  double Slack(const VectorXd& y) const { return Least(At(y, 1)); }
  double Recession(const VectorXd& y) const { return Least(At(y, 0)); }

  std::string str() const {
    std::ostringstream o;
    o << Name(kind) << "{";
    for (auto& a : A) {
      for (auto& x : a) o << (x.isZero() && &x != &a[0] ? "0" : Str(x));
      o << ",";
    }
    o << " c=";
    for (auto& x : c) o << (x.isZero() && &x != &c[0] ? "0" : Str(x));
    if (Q.size()) o << " Q=" << Str(Q);
    o << "}";
    return o.str();
  }

  conex::HyperComplexMatrix Hyper(const Elem& e) const {
    conex::HyperComplexMatrix h((int)e.size());
    for (size_t k = 0; k < e.size(); k++) h.at(k) = e[k];
    return h;
  }
  MatrixXd Stacked() const {
    MatrixXd M(rows(), A.size());
    for (size_t i = 0; i < A.size(); i++) M.col(i) = A[i][0].col(0);
    return M;
  }
  template <class T>
  T Herm() const {
    vector<conex::HyperComplexMatrix> a;
    for (auto& x : A) a.push_back(Hyper(x));
    return T(rows(), a, Hyper(c));
  }
  // Calls f with the constraint object.
  template <class F>
  auto With(F f) const {
    switch (kind) {
      case kLinear: return f(conex::LinearConstraint(Stacked(), MatrixXd(c[0])));
      case kReal: return f(Herm<conex::RealLMIConstraint>());
      case kComplex: return f(Herm<conex::ComplexLMIConstraint>());
      case kQuaternion: return f(Herm<conex::QuaternicLMIConstraint>());
      case kOctonion: return f(Herm<conex::OctonicLMIConstraint>());
      case kDense: {
        vector<MatrixXd> a;
        for (auto& x : A) a.push_back(x[0]);
        return f(conex::DenseLMIConstraint(a, c[0]));
      }
      case kSOC: return f(conex::SOCConstraint(Stacked(), MatrixXd(c[0])));
      case kQuad: return f(Q.size() ? conex::QuadraticConstraint(Q, Stacked(), MatrixXd(c[0])) : conex::QuadraticConstraint(Stacked(), MatrixXd(c[0])));
      default: return f(conex::EqualityConstraints(Stacked(), MatrixXd(c[0])));
    }
  }
  bool Add(conex::Program* p, const vector<int>& vars) const {
    return With([&](auto&& x) { return p->AddConstraint(std::move(x), vars); });
  }
};

// One coefficient (or affine term) of a cone: few but telling shapes.
inline vector<Elem> Shapes(int kind, bool affine, bool deep) {
  vector<Elem> r;
  auto vec = [&](std::initializer_list<double> v) {
    MatrixXd m(v.size(), 1);
    int i = 0;
    for (double x : v) m(i++, 0) = x;
    r.push_back({m});
  };
  if (kind & (kLinear | kEquality)) {
    if (!affine) vec({1, -1}), vec({1, 0}), vec({-1, -1}), vec({2, 1});
    else vec({1, 1}), vec({1, -2}), vec({-1, 2}), vec({0, 3});
    return r;
  }
  if (kind & (kSOC | kQuad)) {
    if (!affine) vec({1, 0, 0}), vec({0, 1, 0}), vec({-1, 0, 1}), vec({-1, 2, 0}), vec({2, 0, -1});
    else vec({2, 0, 0}), vec({2, 1, 0}), vec({1, 1, -1}), vec({-1, 0, 0}), vec({0, 0, 1});
    return r;
  }
  int d = Dim(kind);
  auto mat = [&](double a, double b, int unit, double x) {
    Elem e(d, MatrixXd::Zero(2, 2));
    e[0](0, 0) = a;
    e[0](1, 1) = b;
    e[unit](0, 1) += x;
    e[unit](1, 0) += unit ? -x : x;
    r.push_back(e);
  };
  int u = d - 1, w = d > 2 ? d - 2 : u;
  if (!affine) {
    mat(1, 1, 0, 0), mat(1, -1, u, 1), mat(0, 0, u, 1), mat(-1, 0, 0, 0), mat(2, 1, w, -1);
    if (deep) mat(0, 1, w, 1), mat(-1, -2, 0, 1);
  } else {
    mat(1, 1, 0, 0), mat(2, 1, u, 1), mat(1, 1, 0, 2), mat(-1, 1, w, 0), mat(0, 0, u, 1);
    if (deep) mat(3, 0, w, -1), mat(-1, -1, 0, 0);
  }
  return r;
}

// A cone constraint on m variables of one of the given kinds.
inline Cone Pick(Ctx& c, int m, int kinds, bool deep) {
  vector<int> k;
  for (int b = 1; b <= kEquality; b <<= 1)
    if (kinds & b) k.push_back(b);
  Cone x;
  x.kind = c.among(k);
  auto lin = Shapes(x.kind, false, deep), aff = Shapes(x.kind, true, deep);
  for (int i = 0; i < m; i++) x.A.push_back(c.among(lin));
  x.c = c.among(aff);
  if (x.kind == kQuad && c.flip()) {
    x.Q.resize(2, 2);
    x.Q << 2, 1, 1, 3;
  }
  return x;
}

}  // namespace zoo
