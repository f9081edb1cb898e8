// Hypercomplex matrix algebra: bilinear laws on every combination of basis
// elements (which decides them for all arguments), nonlinear ones on every
// small integer combination.
#include <algorithm>
#include <complex>
#include <numeric>

#include "conex/jordan_matrix_algebra.h"
#include "mc/explore.h"

using mc::Ctx;
using std::vector;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using HM = conex::HyperComplexMatrix;

namespace {

template <int d>
struct Lab {
  using T = conex::MatrixAlgebra<d>;

  static HM Unit(int r, int c, int i, int j, int a) {
    HM x = T::Zero(r, c);
    x.at(a)(i, j) = 1;
    return x;
  }
  static bool Eq(const HM& x, const HM& y, double tol = 0) {
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); i++) {
      if (x[i].rows() != y[i].rows() || x[i].cols() != y[i].cols()) return false;
      for (int k = 0; k < x[i].size(); k++)
        if (!(std::fabs(x[i].data()[k] - y[i].data()[k]) <= tol)) return false;
    }
    return true;
  }
  static std::string Str(const HM& x) {
    std::ostringstream o;
    for (size_t a = 0; a < x.size(); a++)
      for (int i = 0; i < x[a].rows(); i++)
        for (int j = 0; j < x[a].cols(); j++)
          if (x[a](i, j) != 0) o << (x[a](i, j) > 0 ? "+" : "") << x[a](i, j) << "e" << a << "[" << i << "," << j << "] ";
    std::string s = o.str();
    return s.empty() ? "0" : s;
  }
  static mc::Hash HashOf(const HM& x) {
    mc::Hash h;
    h.add((int)x.size());
    for (auto& m : x)
      for (int k = 0; k < m.size(); k++) h.real(m.data()[k], 1e-6);
    return h;
  }

  // ---- the scalar algebra (order 1)
  static HM Num(const vector<int>& v) {
    HM x = T::Zero(1, 1);
    for (int a = 0; a < d; a++) x.at(a)(0, 0) = v[a];
    return x;
  }
  static HM E(int a) { return Unit(1, 1, 0, 0, a); }
  static double Dot(const HM& x, const HM& y) {
    double s = 0;
    for (int a = 0; a < d; a++) s += x[a](0, 0) * y[a](0, 0);
    return s;
  }
  // The composition law <ab,cd> + <ad,cb> = 2<a,c><b,d>, bilinear in all four
  // arguments, is the polarised form of |ab| = |a||b|.  With a unit and
  // dimension d it pins the algebra down to isomorphism (Hurwitz).
  static void Composition(Ctx& c) {
    int a = c.choose(d), b = c.choose(d), e = c.choose(d), f = c.choose(d);
    c.describe("d=" + std::to_string(d) + " basis e" + std::to_string(a) + " e" + std::to_string(b) + " e" + std::to_string(e) + " e" + std::to_string(f));
    auto M = [](const HM& x, const HM& y) { return T::Multiply(x, y); };
    double l = Dot(M(E(a), E(b)), M(E(e), E(f))) + Dot(M(E(a), E(f)), M(E(e), E(b)));
    double r = 2 * Dot(E(a), E(e)) * Dot(E(b), E(f));
    c.check(l == r, "composition", "|xy| = |x||y| fails: " + std::to_string(l) + " vs " + std::to_string(r));
    c.check(Eq(M(E(0), E(a)), E(a)) && Eq(M(E(a), E(0)), E(a)), "unit", "e0 is not the unit");
    // Conjugation: anti-automorphism, x x* = |x|^2.
    HM ab = M(E(a), E(b));
    c.check(Eq(T::ConjugateTranspose(ab), M(T::ConjugateTranspose(E(b)), T::ConjugateTranspose(E(a)))), "conjugate", "(ab)* is not b* a*");
    if (d <= 2) c.check(Eq(ab, M(E(b), E(a))), "commutative", "complex multiplication does not commute");
    if (d <= 4) c.check(Eq(M(ab, E(e)), M(E(a), M(E(b), E(e)))), "associative", "multiplication does not associate");
    // Alternative laws, linearised.
    auto Assoc = [&](int x, int y, int z) {
      HM p = M(M(E(x), E(y)), E(z)), q = M(E(x), M(E(y), E(z)));
      return T::Add(p, T::ScalarMultiply(q, -1));
    };
    c.check(Eq(T::Add(Assoc(a, b, e), Assoc(b, a, e)), T::Zero(1, 1)), "alternative-left", "left alternative law fails");
    c.check(Eq(T::Add(Assoc(a, b, e), Assoc(a, e, b)), T::Zero(1, 1)), "alternative-right", "right alternative law fails");
    c.nontrivial();
    c.state(HashOf(ab).add(a).add(b).add(e).add(f));
    c.judged(7);
  }

  // ---- matrices: product of matrix units, for every shape.
  static void MatrixUnits(Ctx& c, int nmax) {
    int r = c.range(1, nmax), k = c.range(1, nmax), s = c.range(1, nmax);
    int i = c.choose(r), j = c.choose(k), j2 = c.choose(k), l = c.choose(s);
    int a = c.choose(d), b = c.choose(d);
    HM x = Unit(r, k, i, j, a), y = Unit(k, s, j2, l, b);
    c.describe("d=" + std::to_string(d) + " " + Str(x) + "(" + std::to_string(r) + "x" + std::to_string(k) + ") times " + Str(y) + "(" + std::to_string(k) + "x" + std::to_string(s) + ")");
    HM expect = T::Zero(r, s);
    if (j == j2) {
      HM ab = T::Multiply(E(a), E(b));
      for (int q = 0; q < d; q++) expect.at(q)(i, l) = ab[q](0, 0);
      c.nontrivial();
    }
    HM got = T::Multiply(x, y);
    c.check(Eq(got, expect), "matrix-units", "product is " + Str(got) + "expected " + Str(expect));
    HM xt = T::ConjugateTranspose(x);
    HM et = T::Zero(k, r);
    et.at(a)(j, i) = a ? -1 : 1;
    c.check(Eq(xt, et), "conjugate-transpose", "conjugate transpose is " + Str(xt));
    HM x2 = Unit(r, k, i, j2, b);
    double ip = T::TraceInnerProduct(x, x2), e = (a == b && j == j2) ? 1 : 0;
    c.check(ip == e, "inner-product", "trace inner product of matrix units is " + std::to_string(ip));
    c.check(Eq(T::Add(x, x2), T::Add(x2, x)) && T::Add(x, x2).at(a)(i, j) == 1 + e, "add", "Add");
    c.check(T::ScalarMultiply(x, -2.5).at(a)(i, j) == -2.5, "scale", "ScalarMultiply");
    c.check(Eq(T::Multiply(T::Identity(r), x), x) && Eq(T::Multiply(x, T::Identity(k)), x), "identity", "Identity is not the unit");
    c.check(x.squaredNorm() == 1 && x.norm() == 1, "norm", "norm of a matrix unit");
    c.state(HashOf(got).add(r).add(k).add(s).add(i).add(j).add(j2).add(l).add(a).add(b));
    c.judged(7);
  }

  // ---- Hermitian matrices
  static vector<HM> HermitianBasis(int n) {
    vector<HM> out;
    for (int i = 0; i < n; i++) out.push_back(Unit(n, n, i, i, 0));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        for (int a = 0; a < d; a++) {
          HM x = Unit(n, n, i, j, a);
          x.at(a)(j, i) = a ? -1 : 1;
          out.push_back(x);
        }
    return out;
  }
  static HM Combo(Ctx& c, int n, int terms, const vector<int>& coef) {
    static std::map<int, vector<HM>> cache;
    auto& B = cache[n];
    if (B.empty()) B = HermitianBasis(n);
    HM x = T::Zero(n, n);
    int from = 0;
    for (int t = 0; t < terms; t++) {
      int left = (int)B.size() - from;
      int pick = c.choose(left + 1);  // 0: stop
      if (!pick) break;
      from += pick;
      x = T::Add(x, T::ScalarMultiply(B[from - 1], c.among(coef)));
      if (from == (int)B.size()) break;
    }
    return x;
  }
  static void JordanLaws(Ctx& c, int n, int tx, int ty) {
    HM x = Combo(c, n, tx, {1, -2}), y = Combo(c, n, ty, {1, 3});
    c.describe("d=" + std::to_string(d) + " order " + std::to_string(n) + " x = " + Str(x) + " y = " + Str(y));
    auto J = [](const HM& p, const HM& q) { return T::JordanMultiply(p, q); };
    auto Q = [](const HM& p, const HM& q) { return T::QuadraticRepresentation(p, q); };
    HM xy = J(x, y), xx = J(x, x);
    c.check(Eq(xy, J(y, x)), "jordan-commutative", "x o y is not y o x");
    c.check(T::IsHermitian(x) && T::IsHermitian(xy), "hermitian", "a Jordan product of Hermitian matrices is not Hermitian");
    c.check(Eq(J(xx, xy), J(x, J(y, xx))), "jordan-identity", "the Jordan identity fails");
    HM direct = T::ScalarMultiply(T::Add(T::Multiply(x, y), T::Multiply(y, x)), .5);
    c.check(Eq(xy, direct), "jordan-definition", "x o y is not (xy + yx)/2");
    HM Qxy = Q(x, y);
    c.check(T::IsHermitian(Qxy), "quadratic-hermitian", "Q(x)y is not Hermitian");
    c.check(Eq(Q(x, T::Identity(n)), xx), "quadratic-identity", "Q(x)e is not x^2: " + Str(Q(x, T::Identity(n))));
    if (d <= 4) c.check(Eq(Qxy, T::Multiply(T::Multiply(x, y), x)), "quadratic-associative", "Q(x)y is not xyx: " + Str(Qxy));
    // Fundamental formula Q(Q(x)y) e = Q(x)Q(y)Q(x) e, valid in every Jordan algebra.
    if (n <= 3 || d <= 4) c.check(Eq(Q(Qxy, T::Identity(n)), Q(x, Q(y, xx))), "fundamental-formula", "the fundamental formula fails");
    // The trace form is associative: <x o y, z> = <x, y o z>, here z = xx.
    c.check(T::TraceInnerProduct(xy, xx) == T::TraceInnerProduct(x, J(y, xx)), "trace-associative", "the trace form is not associative");
    c.check(T::TraceInnerProduct(xy, T::Identity(n)) == T::TraceInnerProduct(x, y), "trace-product", "trace(x o y) is not <x,y>");
    HM nh = T::Add(x, Unit(n, n, 0, n - 1, d - 1));
    if (d > 1 || n > 1) c.check(!T::IsHermitian(nh), "not-hermitian", "IsHermitian accepts " + Str(nh));
    c.check(Eq(T::MakeHermitian(nh), T::ScalarMultiply(T::Add(nh, T::ConjugateTranspose(nh)), .5)) && T::IsHermitian(T::MakeHermitian(nh)), "make-hermitian", "MakeHermitian");
    c.check(T::IsEqual(x, x) && (Eq(x, y) == T::IsEqual(x, y)), "is-equal", "IsEqual is wrong");
    c.nontrivial();
    c.state(HashOf(Qxy));
    c.judged(12);
  }

  // Real representation of a complex or quaternion matrix by left
  // multiplication: its eigenvalues are those of x, each d times.
  static VectorXd RefEigenvalues(const HM& x) {
    int n = x[0].rows();
    MatrixXd M = MatrixXd::Zero(n * d, n * d);
    for (int a = 0; a < d; a++)
      for (int b = 0; b < d; b++) {
        HM p = T::Multiply(E(a), E(b));
        for (int q = 0; q < d; q++)
          if (p[q](0, 0) != 0)
            for (int i = 0; i < n; i++)
              for (int j = 0; j < n; j++) M(i * d + q, j * d + b) += p[q](0, 0) * x[a](i, j);
      }
    VectorXd all = Eigen::SelfAdjointEigenSolver<MatrixXd>(M, Eigen::EigenvaluesOnly).eigenvalues(), out(n);
    for (int i = 0; i < n; i++) out(i) = all(i * d);
    return out;
  }
  static void Spectrum(Ctx& c, int n, int terms) {
    HM x = Combo(c, n, terms, {1, -2, 3});
    c.describe("d=" + std::to_string(d) + " order " + std::to_string(n) + " x = " + Str(x));
    double t1 = T::TraceInnerProduct(x, T::Identity(n)), t2 = T::TraceInnerProduct(x, x);
    double t3 = T::TraceInnerProduct(T::JordanMultiply(x, x), x);
    VectorXd ref(n);
    if (d <= 4) {
      ref = RefEigenvalues(x);
    } else {
      // Characteristic cubic from the power sums.
      double s1 = t1, s2 = (t1 * t1 - t2) / 2, s3 = (t1 * t1 * t1 - 3 * t1 * t2 + 2 * t3) / 6;
      if (n == 1) ref << t1;
      else if (n == 2) {
        double q = std::sqrt(std::max(0., t1 * t1 / 4 - s2));
        ref << t1 / 2 - q, t1 / 2 + q;
      } else {
        MatrixXd C = MatrixXd::Zero(3, 3);
        C << 0, 0, s3, 1, 0, -s2, 0, 1, s1;
        Eigen::EigenSolver<MatrixXd> es(C);
        ref = es.eigenvalues().real();
      }
    }
    std::sort(ref.data(), ref.data() + n);
    // Eigenvalues() solves for the minimal polynomial: only defined when the
    // eigenvalues are distinct.
    double gap = 1e9;
    for (int i = 1; i < n; i++) gap = std::min(gap, ref(i) - ref(i - 1));
    if (gap > .3) {
      VectorXd got = T::Eigenvalues(x);
      c.check(got.size() == n, "eigenvalues-size", "number of eigenvalues");
      std::sort(got.data(), got.data() + n);
      double err = (got - ref).cwiseAbs().maxCoeff();
      std::ostringstream o;
      o << "eigenvalues " << got.transpose() << " expected " << ref.transpose();
      c.check(err < 1e-6, "eigenvalues", o.str());
      c.nontrivial();
      c.judged();
      mc::Hash h;
      for (int i = 0; i < n; i++) h.real(got(i), 1e-5);
      c.state(h);
    } else {
      c.count("repeated_eigenvalues_skipped");
    }
  }
  // Orthogonalize: columns become orthonormal and span is kept (d <= 4).
  static void Ortho(Ctx& c, int n, int nmax) {
    HM x = T::Zero(n, n);
    std::string s;
    for (int i = 0; i < n; i++) x.at(0)(i, i) = 2;
    for (int t = 0; t < nmax; t++) {
      int i = c.choose(n), j = c.choose(n), a = c.choose(d);
      x.at(a)(i, j) += 1;
      s += "e" + std::to_string(a) + "[" + std::to_string(i) + "," + std::to_string(j) + "] ";
    }
    c.describe("d=" + std::to_string(d) + " orthogonalize 2I + " + s);
    HM q = T::Orthogonalize(x);
    HM g = T::Multiply(T::ConjugateTranspose(q), q);
    c.check(Eq(g, T::Identity(n), 1e-9), "orthogonalize", "columns are not orthonormal");
    c.nontrivial();
    c.state(HashOf(q));
    c.judged();
  }
};

template <int d>
void Add(vector<mc::Scenario>* v, const std::string& name) {
  using L = Lab<d>;
  v->push_back({name + "-scalars", [](Ctx& c) { L::Composition(c); }, 2, false, "every quadruple of basis elements"});
  v->push_back({name + "-matrix-units", [](Ctx& c) { L::MatrixUnits(c, c.pick(2, 3)); }, 3, false,
                "every pair of matrix units of every shape up to 2 (thorough 3)"});
  v->push_back({name + "-jordan-1", [](Ctx& c) { L::JordanLaws(c, 1, 1, 1); }, 1, false, "order 1"});
  v->push_back({name + "-jordan-2", [](Ctx& c) { L::JordanLaws(c, 2, 2, c.pick(1, 2)); }, 2, false,
                "order 2, x of up to 2 basis terms, y of up to 1 (thorough 2)"});
  v->push_back({name + "-jordan-3", [](Ctx& c) { L::JordanLaws(c, 3, 2, 1); }, 2, d == 8,
                "order 3, x of up to 2 basis terms, y of 1"});
  if (d == 8)
    v->push_back({name + "-jordan-3s", [](Ctx& c) { L::JordanLaws(c, 3, 1, 1); }, 2, false, "order 3, single basis terms"});
  v->push_back({name + "-jordan-3y", [](Ctx& c) { L::JordanLaws(c, 3, 1, 2); }, 2, true, "order 3, x of one basis term, y of up to 2"});
  v->push_back({name + "-spectrum-2", [](Ctx& c) { L::Spectrum(c, 2, 3); }, 2, false, "order 2, sums of up to 3 basis terms"});
  v->push_back({name + "-spectrum-3", [](Ctx& c) { L::Spectrum(c, 3, c.pick(2, 3)); }, 2, false, "order 3, sums of up to 2 (thorough 3) basis terms"});
  if (d <= 4) {
    v->push_back({name + "-orthogonalize-2", [](Ctx& c) { L::Ortho(c, 2, c.pick(2, 3)); }, 2, false, "order 2, 2I plus up to 2 (thorough 3) units"});
    v->push_back({name + "-orthogonalize-3", [](Ctx& c) { L::Ortho(c, 3, 2); }, 2, false, "order 3, 2I plus 2 units"});
  }
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  Add<1>(&v, "real");
  Add<2>(&v, "complex");
  Add<4>(&v, "quaternion");
  Add<8>(&v, "octonion");
  return mc::Main(argc, argv, v);
}
