// Every operation of every cone against its definition, in every state that
// a bounded number of steps from the identity reaches.
//
// The oracle works in a real symmetric matrix representation of each algebra
// (Clifford matrices for second-order cones and 2 x 2 octonion matrices). The
// scaling point is not read from the constraint's memory but recovered from
// its contribution <A_i, w>, the A_i being a basis.
#include "harness/solve_common.h"
#include "harness/zoo.h"

using namespace sc;
using zoo::Cone;
using zoo::Elem;

namespace {

MatrixXd Kron(const MatrixXd& a, const MatrixXd& b) {
  MatrixXd r(a.rows() * b.rows(), a.cols() * b.cols());
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) r.block(i * b.rows(), j * b.cols(), b.rows(), b.cols()) = a(i, j) * b;
  return r;
}

// k anticommuting real symmetric square roots of the identity.
vector<MatrixXd> Clifford(int k) {
  MatrixXd X(2, 2), Z(2, 2), J(2, 2), I = MatrixXd::Identity(2, 2);
  X << 0, 1, 1, 0;
  Z << 1, 0, 0, -1;
  J << 0, 1, -1, 0;
  // Complex Hermitian generators as pairs (real, imaginary), made real at last.
  int q = (k + 1) / 2;
  vector<MatrixXd> r;
  for (int i = 0; i < k; i++) {
    int at = i / 2;
    MatrixXd m = MatrixXd::Identity(1, 1);
    int imaginary = 0;
    for (int t = 0; t < q; t++) {
      if (t < at) m = Kron(m, Z);
      else if (t == at && i % 2 == 0) m = Kron(m, X);
      else if (t == at) m = Kron(m, J), imaginary = 1;  // sigma_y = -i J
      else m = Kron(m, I);
    }
    // Real part a, imaginary part b: [a -b; b a]; here -J as imaginary part.
    MatrixXd big;
    if (!imaginary) big = Kron(I, m);
    else {
      MatrixXd E(2, 2);
      E << 0, 1, -1, 0;
      big = Kron(E, m);
    }
    r.push_back(big);
  }
  return r;
}

// Left multiplication by the quaternion units; whether i j is k or -k is a
// matter of naming.
const vector<MatrixXd>& QuaternionUnits() {
  static vector<MatrixXd> u = [] {
    using T = conex::Quaternions;
    auto i = T::Zero(1, 1), j = T::Zero(1, 1);
    i.at(1)(0, 0) = j.at(2)(0, 0) = 1;
    double k = T::Multiply(i, j).at(3)(0, 0) > 0 ? 1 : -1;
    vector<MatrixXd> v(4, MatrixXd::Zero(4, 4));
    int table[4][4] = {{1, 2, 3, 4}, {2, -1, 4, -3}, {3, -4, -1, 2}, {4, 3, -2, -1}};
    for (int a = 0; a < 4; a++)
      for (int b = 0; b < 4; b++) v[a](std::abs(table[a][b]) - 1, b) = (table[a][b] > 0 ? 1 : -1) * (a && b && a != b ? k : 1);
    return v;
  }();
  return u;
}

struct World {
  Cone cone;
  MatrixXd R;    // metric of the quadratic cone
  int unit = 1;  // imaginary unit of an octonion matrix of order 3
  vector<MatrixXd> B;
  MatrixXd C, G;
  double tau = 1;

  MatrixXd Rep(const Elem& e) const {
    int n = e[0].rows();
    switch (cone.kind) {
      case zoo::kLinear: return e[0].col(0).asDiagonal();
      case zoo::kReal:
      case zoo::kDense: return e[0];
      case zoo::kComplex: {
        MatrixXd m(2 * n, 2 * n);
        m << e[0], -e[1], e[1], e[0];
        return m;
      }
      case zoo::kQuaternion: {
        MatrixXd m = MatrixXd::Zero(4 * n, 4 * n);
        for (int k = 0; k < 4; k++) m += Kron(e[k], QuaternionUnits()[k]);
        return m;
      }
      case zoo::kOctonion: {
        if (n == 1) return e[0];
        if (n == 3) {
          MatrixXd m(2 * n, 2 * n);
          m << e[0], -e[unit], e[unit], e[0];
          return m;
        }
        VectorXd x(10);
        x(0) = .5 * (e[0](0, 0) + e[0](1, 1));
        x(1) = .5 * (e[0](0, 0) - e[0](1, 1));
        for (int k = 0; k < 8; k++) x(2 + k) = e[k](0, 1);
        return Spin(x);
      }
      default: {
        VectorXd x = e[0].col(0);
        if (R.size()) x.tail(n - 1) = (R * x.tail(n - 1)).eval();
        return Spin(x);
      }
    }
  }
  static MatrixXd Spin(const VectorXd& x) {
    static std::map<int, vector<MatrixXd>> cache;
    int k = x.size() - 1;
    auto it = cache.find(k);
    if (it == cache.end()) it = cache.emplace(k, Clifford(k)).first;
    int N = k ? it->second[0].rows() : 1;
    MatrixXd m = x(0) * MatrixXd::Identity(N, N);
    for (int i = 0; i < k; i++) m += x(i + 1) * it->second[i];
    return m;
  }
  double Inner(const MatrixXd& a, const MatrixXd& b) const { return tau * (a.cwiseProduct(b)).sum(); }

  void Finish() {
    C = Rep(cone.c);
    double rank = cone.Rank();
    tau = rank / C.rows();
    int m = cone.A.size();
    for (auto& a : cone.A) B.push_back(Rep(a));
    G.resize(m, m);
    for (int i = 0; i < m; i++)
      for (int j = 0; j < m; j++) G(i, j) = Inner(B[i], B[j]);
  }
};

Elem HermitianUnit(int d, int n, int r, int s, int unit, double v = 1) {
  Elem e(d, MatrixXd::Zero(n, n));
  e[unit](r, s) += v;
  if (r != s) e[unit](s, r) += unit ? -v : v;
  return e;
}

World Build(Ctx& c, int kind, int n) {
  World w;
  Cone& k = w.cone;
  k.kind = kind;
  int affine = c.choose(c.thorough ? 4 : 3);
  if (kind & (zoo::kSOC | zoo::kQuad | zoo::kLinear)) {
    int rows = n;
    VectorXd a(rows);
    for (int i = 0; i < rows; i++) {
      k.A.push_back({VectorXd::Unit(rows, i)});
      a(i) = affine == 0 ? (kind == zoo::kLinear || i == 0) : affine == 1 ? 2 - i : affine == 2 ? (i == 0 ? -.5 : .25 * i) : .3 * i * i - 1;
    }
    k.c = {a};
    if (kind == zoo::kQuad && c.flip()) {
      w.R = MatrixXd::Zero(rows - 1, rows - 1);
      for (int i = 0; i + 1 < rows; i++) {
        w.R(i, i) = 1 + .5 * i;
        if (i) w.R(i - 1, i) = -.5;
      }
      k.Q = w.R.transpose() * w.R;
    }
  } else {
    int d = zoo::Dim(kind);
    vector<int> units;
    if (kind == zoo::kOctonion && n == 3) {
      w.unit = 1 + c.choose(7);
      units = {0, w.unit};
    } else
      for (int u = 0; u < d; u++) units.push_back(u);
    for (int s = 0; s < n; s++)
      for (int r = 0; r <= s; r++)
        for (int u : units)
          if (r != s || u == 0) k.A.push_back(HermitianUnit(d, n, r, s, u));
    Elem a(d, MatrixXd::Zero(n, n));
    for (int s = 0; s < n; s++) {
      a[0](s, s) = affine == 0 ? 1 : affine == 1 ? 2 - s : affine == 2 ? -.5 + .5 * s : .25;
      for (int r = 0; r < s; r++)
        for (int u : units) {
          double v = affine == 0 ? 0 : affine == 1 ? .3 * (u == units.back()) : affine == 2 ? .2 * (r + 1) / (u + 1.) : .1 * (u % 2 ? -1 : 1);
          a[u](r, s) += v;
          a[u](s, r) += u ? -v : v;
        }
    }
    k.c = a;
  }
  w.Finish();
  return w;
}

// A direction to step in, as coefficients of the basis.
VectorXd Direction(Ctx& c, int m, int which) {
  VectorXd y = VectorXd::Zero(m);
  switch (which) {
    case 0: break;
    case 1: y(0) = 1; break;
    case 2: y(m - 1) = -.75; break;
    case 3:
      for (int i = 0; i < m; i++) y(i) = .4 * ((i % 3) - 1);
      break;
    case 4: y.setConstant(.3); break;
    default:
      for (int i = 0; i < m; i++) y(i) = i % 2 ? -.6 : .2 * (i + 1) / m;
  }
  return y;
}

struct Sym {
  VectorXd e;
  MatrixXd V;
  explicit Sym(const MatrixXd& m) {
    Eigen::SelfAdjointEigenSolver<MatrixXd> s(m);
    e = s.eigenvalues();
    V = s.eigenvectors();
  }
  MatrixXd Sqrt() const { return V * e.cwiseMax(0).cwiseSqrt().asDiagonal() * V.transpose(); }
  MatrixXd Exp() const { return V * e.array().exp().matrix().asDiagonal() * V.transpose(); }
};

struct System {
  vector<double> memory;
  conex::SchurComplementSystem s;
  System(int m, double fill) {
    s.m_ = m;
    memory.assign(SizeOf(s) + 16, 0);
    size_t shift = (64 - reinterpret_cast<size_t>(memory.data()) % 64) % 64 / 8;
    Initialize(&s, memory.data() + shift);
    s.G.setConstant(fill);
    s.AW.setConstant(fill);
    s.AQc.setConstant(fill);
    s.inner_product_of_w_and_c = s.inner_product_of_c_and_Qc = fill;
  }
};

void Explore(Ctx& c, const World& w, conex::Constraint con, int depth) {
  vector<conex::Workspace> ws;
  ws.push_back(con.workspace());
  VectorXd memory(SizeOf(ws) + 16);
  memory.setConstant(-7.5);
  size_t shift = (64 - reinterpret_cast<size_t>(memory.data()) % 64) % 64 / 8;
  Initialize(&ws, memory.data() + shift);
  SetIdentity(&con);

  const int m = w.B.size(), kind = w.cone.kind, n = w.cone.rows();
  const int rank = w.cone.Rank();
  const bool octonion = kind == zoo::kOctonion;
  // Approximations the constraint declares: the exponential and the extreme
  // eigenvalues (exact for matrices of order two; a Rayleigh-Ritz bound else).
  // (A start vector that happens to be an eigenvector hides the others, so the
  // randomised ones get several starts.)
  const int restarts = kind & (zoo::kReal | zoo::kComplex | zoo::kQuaternion) ? 2 : 0;
  const bool exact_eig = !octonion && !(w.cone.matrix() && n > 2);
  std::ostringstream tale;
  tale << w.cone.str().substr(0, 0) << zoo::Name(kind) << " order " << n << " c=" << Str(w.cone.c[0]) << (w.R.size() ? " with Q" : "") << (octonion && n == 3 ? " unit " + std::to_string(w.unit) : "");

  MatrixXd expected_w = MatrixXd::Identity(w.C.rows(), w.C.rows());
  double step_tolerance = 1e-10;
  auto Near = [&](double a, double b, double scale, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(scale)); };
  for (int step = 0;; step++) {
    c.describe(tale.str());
    // The system, overwriting garbage and on top of something.
    System fresh(m, 1e30), more(m, .5);
    ConstructSchurComplementSystem(&con, true, &fresh.s);
    ConstructSchurComplementSystem(&con, false, &more.s);
    VectorXd coordinates = w.G.ldlt().solve(VectorXd(fresh.s.AW.col(0)));
    MatrixXd W = MatrixXd::Zero(w.C.rows(), w.C.rows());
    for (int i = 0; i < m; i++) W += coordinates(i) * w.B[i];
    Sym root(W);
    std::string s = tale.str() + " ";
    c.judged();
    for (int i = 0; i < m; i++) c.state(mc::Hash().add(kind).add(n).real(coordinates(i), 1e-6));
    c.check(W.allFinite() && root.e.minCoeff() > 0, "scaling-not-interior", s);
    double size = W.norm();
    c.check((W - expected_w).norm() <= step_tolerance, step ? "step" : "identity", s + "w differs by " + std::to_string((W - expected_w).norm()) + " of " + std::to_string(size) + " last step tolerance " + std::to_string(step_tolerance));
    MatrixXd WCW = W * w.C * W;
    for (int j = 0; j < m; j++) {
      MatrixXd Q = W * w.B[j] * W;
      for (int i = j; i < m; i++) {
        double g = w.Inner(w.B[i], Q);
        c.check(Near(fresh.s.G(i, j), g, size * size, 1e-9), "schur-matrix", s + "G(" + std::to_string(i) + "," + std::to_string(j) + ")=" + std::to_string(fresh.s.G(i, j)) + " expected " + std::to_string(g));
        c.check(Near(more.s.G(i, j), g + .5, size * size, 1e-9), "schur-matrix-added", s + "G(" + std::to_string(i) + "," + std::to_string(j) + ")=" + std::to_string(more.s.G(i, j)) + " expected " + std::to_string(g + .5));
      }
      double q = w.Inner(w.B[j], WCW);
      c.check(Near(fresh.s.AQc(j), q, size * size, 1e-9), "AQc", s + std::to_string(fresh.s.AQc(j)) + " expected " + std::to_string(q));
      c.check(Near(more.s.AQc(j), q + .5, size * size, 1e-9), "AQc-added", s);
      c.check(Near(more.s.AW(j), fresh.s.AW(j) + .5, size, 1e-9), "AW-added", s);
    }
    double wc = w.Inner(W, w.C), cqc = w.Inner(w.C, WCW);
    c.check(Near(fresh.s.inner_product_of_w_and_c, wc, size, 1e-9), "w-dot-c", s + std::to_string(fresh.s.inner_product_of_w_and_c) + " expected " + std::to_string(wc));
    c.check(Near(fresh.s.inner_product_of_c_and_Qc, cqc, size * size, 1e-9), "c-dot-Qc", s + std::to_string(fresh.s.inner_product_of_c_and_Qc) + " expected " + std::to_string(cqc));
    c.check(Near(more.s.inner_product_of_w_and_c, wc + .5, size, 1e-9), "w-dot-c-added", s);
    c.check(Near(more.s.inner_product_of_c_and_Qc, cqc + .5, size * size, 1e-9), "c-dot-Qc-added", s);
    if (step == depth) break;
    c.nontrivial();

    int which = c.choose(c.thorough ? 6 : step == 0 ? 5 : 4);
    double k = c.among(c.thorough || step == 0 ? vector<double>{1, .3, 2} : vector<double>{1, .3});
    VectorXd y = Direction(c, m, which);
    alignas(64) double buffer[64];
    for (int i = 0; i < m; i++) buffer[i] = y(i);
    conex::Ref yref(buffer, m, 1);
    tale << "; y=direction " << which << " k=" << k;
    s = tale.str() + " ";
    c.describe(s);
    MatrixXd minus_s = -k * w.C;
    for (int i = 0; i < m; i++) minus_s += y(i) * w.B[i];
    MatrixXd r = root.Sqrt();
    MatrixXd scaled = r * minus_s * r;
    Sym slack(-scaled), d(MatrixXd::Identity(scaled.rows(), scaled.rows()) + scaled);
    double spread = 1 + scaled.norm();
    if (c.flip()) {
      conex::WeightedSlackEigenvalues e, other;
      srand(1);
      GetWeightedSlackEigenvalues(&con, yref, k, &e);
      for (int seed = 2; seed < 2 + restarts; seed++) {
        srand(seed);
        GetWeightedSlackEigenvalues(&con, yref, k, &other);
        if (other.lambda_max - other.lambda_min > e.lambda_max - e.lambda_min) e = other;
      }
      double lo = slack.e.minCoeff(), hi = slack.e.maxCoeff();
      std::string t = s + "slack eigenvalues " + std::to_string(e.lambda_min) + ".." + std::to_string(e.lambda_max) + " expected " + std::to_string(lo) + ".." + std::to_string(hi);
      c.check(Near(e.trace, w.tau * slack.e.sum(), spread, 1e-9), "slack-trace", t + " trace " + std::to_string(e.trace));
      c.check(Near(e.frobenius_norm_squared, w.tau * slack.e.squaredNorm(), spread * spread, 1e-9), "slack-norm", t + " norm " + std::to_string(e.frobenius_norm_squared));
      if (exact_eig) {
        c.check(Near(e.lambda_min, lo, spread, 1e-6) && Near(e.lambda_max, hi, spread, 1e-6), "slack-eigenvalues", t);
      } else if (!octonion) {
        c.check(e.lambda_min <= e.lambda_max + 1e-9 && e.lambda_min >= lo - 1e-6 * spread && e.lambda_max <= hi + 1e-6 * spread, "slack-eigenvalues", t);
      } else {
        c.check(std::isfinite(e.lambda_min) && std::isfinite(e.lambda_max) && e.lambda_min <= e.lambda_max, "slack-eigenvalues", t);
      }
    }
    conex::StepOptions opt;
    opt.affine = false;
    opt.e_weight = 1;
    opt.c_weight = k;
    opt.inv_sqrt_mu = k;
    bool affine_kind = kind & (zoo::kLinear | zoo::kReal | zoo::kDense | zoo::kComplex | zoo::kQuaternion);
    int mode = c.choose(affine_kind && step + 1 == depth ? 3 : 2);
    conex::StepInfo info;
    if (mode == 2) {
      // The step that makes dual variables: w + Q(w)(A y).
      opt.affine = true;
      opt.e_weight = 0;
      opt.c_weight = 0;
      MatrixXd Ay = minus_s + k * w.C;
      expected_w = W + W * Ay * W;
      step_tolerance = 1e-9 * (1 + expected_w.norm());
      tale << " affine";
      c.require(Sym(expected_w).e.minCoeff() > 1e-3);
      PrepareStep(&con, opt, yref, &info);
      c.count("affine");
      continue;
    }
    double least = 1e300, most = 0;
    for (int seed = 1; seed < 2 + restarts; seed++) {
      srand(seed);
      PrepareStep(&con, opt, yref, &info);
      least = std::min(least, info.norminfd);
      most = std::max(most, info.norminfd);
    }
    info.norminfd = most;
    double norm2 = w.tau * d.e.squaredNorm(), inf = d.e.cwiseAbs().maxCoeff();
    std::string t = s + "norms " + std::to_string(info.normsqrd) + " " + std::to_string(info.norminfd) + " expected " + std::to_string(norm2) + " " + std::to_string(inf);
    c.check(Near(info.normsqrd, norm2, spread * spread, 1e-9), "step-norm", t);
    if (exact_eig) c.check(Near(info.norminfd, inf, spread, 1e-6), "step-max-norm", t);
    else if (octonion) c.check(info.norminfd >= inf - 1e-6 * spread && info.norminfd <= std::sqrt((double)rank) * inf + 1e-4, "step-max-norm", t);
    else c.check(info.norminfd <= inf + 1e-6 * spread && most >= .3 * inf - 1e-9, "step-max-norm", t);

    opt.step_size = std::min(1., 2. / (inf * inf));
    if (mode == 1) opt.step_size *= .5;
    tale << " step " << opt.step_size;
    c.check(TakeStep(&con, opt), "step-failed", s);
    Sym dir(opt.step_size * (MatrixXd::Identity(scaled.rows(), scaled.rows()) + scaled));
    expected_w = r * dir.Exp() * r;
    double reach = dir.e.cwiseAbs().maxCoeff();
    // What C25 grants the exponentials, in the metric of the scaling point.
    bool pade = kind == zoo::kDense;
    double error = pade ? std::pow(reach, 7) * std::exp(reach) / 20000 : octonion ? reach * reach / 4 * std::exp(reach) : std::pow(reach, 3) * std::exp(reach) / 60;
    step_tolerance = w.cone.matrix() ? 1e-9 * size + error * root.e.maxCoeff() * std::sqrt((double)w.C.rows()) : 1e-10 * (1 + expected_w.norm());
    c.count("steps");
  }
}

void Case(Ctx& c, int kind, int n, int depth) {
  World w = Build(c, kind, n);
  w.cone.With([&](auto&& x) { Explore(c, w, conex::Constraint(&x), depth); });
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  auto add = [&](int kind, int n, int quick, int deep, bool thorough = false) {
    v.push_back({std::string(zoo::Name(kind)) + "-" + std::to_string(n), [=](Ctx& c) { Case(c, kind, n, c.pick(quick, deep)); }, 3, thorough, "all histories of " + std::to_string(quick) + " (thorough " + std::to_string(deep) + ") steps"});
  };
  for (int n = 1; n <= 3; n++) add(zoo::kLinear, n, 2, 3);
  for (int n = 2; n <= 4; n++) add(zoo::kSOC, n, 2, 3), add(zoo::kQuad, n, 2, 3);
  for (int k : {(int)zoo::kReal, (int)zoo::kDense, (int)zoo::kComplex, (int)zoo::kQuaternion, (int)zoo::kOctonion})
    for (int n = 1; n <= 3; n++) add(k, n, 2, 3);
  add(zoo::kReal, 4, 2, 2, true), add(zoo::kDense, 4, 2, 2, true), add(zoo::kDense, 5, 2, 2, true), add(zoo::kSOC, 6, 2, 3, true);
  return mc::Main(argc, argv, v);
}
