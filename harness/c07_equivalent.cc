// One feasible set stated through every constraint type: same optimum.
#include "harness/lp_common.h"
#include "harness/zoo.h"

using namespace sc;
using zoo::Cone;
using zoo::Elem;

namespace {

// {y : |L^-1 (y - m)| <= r}
struct Ball {
  MatrixXd Linv, L;
  VectorXd m;
  double r;
};
struct Half {
  VectorXd a;
  double b;
  bool on = false;
};

// Minimises c'y over the ball and the half space; false when they do not meet
// in a set with interior.
bool Minimise(const Ball& B, const Half& h, const VectorXd& c, VectorXd* y) {
  int n = c.size();
  VectorXd g = B.L.transpose() * c;  // u-space: y = m + L u, |u| <= r
  VectorXd u = g.norm() > 0 ? VectorXd(-B.r * g / g.norm()) : VectorXd::Zero(n);
  if (h.on) {
    VectorXd a = B.L.transpose() * h.a;
    double b = h.b - h.a.dot(B.m);
    if (b < -B.r * a.norm() + 1e-2) return false;
    if (a.dot(u) > b) {
      double rho = B.r * B.r - b * b / a.squaredNorm();
      VectorXd p = g - a * (a.dot(g) / a.squaredNorm());
      u = a * (b / a.squaredNorm());
      if (p.norm() > 1e-9) u -= std::sqrt(std::max(0., rho)) * p / p.norm();
      else return false;  // not a unique minimiser
    }
  }
  *y = B.m + B.L * u;
  return true;
}

struct Form {
  std::string name;
  Cone cone;
};

Elem Zero(int d, int n) { return Elem(d, MatrixXd::Zero(n, n)); }

// The ball as a cone constraint, in every form that has room for it.
vector<Form> Forms(const Ball& B) {
  int n = B.m.size();
  vector<Form> r;
  MatrixXd U = B.Linv;
  VectorXd t = U * B.m;  // slack vector is t - U y
  auto stack = [&](int kind, const MatrixXd& A, const VectorXd& c, const MatrixXd& Q, const char* name) {
    Cone k;
    k.kind = kind;
    for (int i = 0; i < n; i++) k.A.push_back({A.col(i)});
    k.c = {c};
    k.Q = Q;
    r.push_back({name, k});
  };
  MatrixXd A = MatrixXd::Zero(n + 1, n);
  VectorXd c(n + 1);
  A.bottomRows(n) = U;
  c << B.r, t;
  stack(zoo::kSOC, A, c, MatrixXd(), "soc");
  stack(zoo::kQuad, A, c, MatrixXd(), "quadratic-cone");
  stack(zoo::kSOC, 3 * A, 3 * c, MatrixXd(), "scaled soc");
  A.bottomRows(n) = MatrixXd::Identity(n, n);
  c << B.r, B.m;
  stack(zoo::kQuad, A, c, U.transpose() * U, "quadratic-cone with matrix");
  if (n == 1) {
    A.resize(2, 1), c.resize(2);
    A << U(0, 0), -U(0, 0);
    c << B.r + t(0), B.r - t(0);
    stack(zoo::kLinear, A, c, MatrixXd(), "linear");
  }
  // Arrow matrices [r, u*; u, r I] and spin factors [r + u0, u; u*, r - u0].
  for (int kind : {(int)zoo::kReal, (int)zoo::kDense, (int)zoo::kComplex, (int)zoo::kQuaternion, (int)zoo::kOctonion}) {
    int d = zoo::Dim(kind);
    for (int type = 0; type < 3; type++) {
      int slots = (n + d - 1) / d, order = type == 0 ? slots + 1 : 2;
      if (type && n > 1 + d) continue;
      if (kind == zoo::kOctonion && order > 3) continue;
      auto fill = [&](double head, const VectorXd& u) {
        Elem e = Zero(d, order);
        if (type == 0) {
          e[0] = head * MatrixXd::Identity(order, order);
          for (int i = 0; i < n; i++) {
            int row = 1 + i / d, unit = i % d;
            e[unit](row, 0) = u(i);
            e[unit](0, row) = unit ? -u(i) : u(i);
          }
        } else {
          int first = type == 1 ? 0 : n - 1;  // which coordinate goes on the diagonal
          e[0](0, 0) = head + u(first);
          e[0](1, 1) = head - u(first);
          int unit = type == 1 ? 0 : d - 1;
          for (int i = 0; i < n; i++) {
            if (i == first) continue;
            e[unit](0, 1) = u(i);
            e[unit](1, 0) = unit ? -u(i) : u(i);
            unit = type == 1 ? unit + 1 : unit - 1;
          }
        }
        return e;
      };
      Cone k;
      k.kind = kind;
      for (int i = 0; i < n; i++) k.A.push_back(fill(0, U.col(i)));
      k.c = fill(B.r, t);
      r.push_back({std::string(zoo::Name(kind)) + (type == 0 ? " arrow" : type == 1 ? " spin" : " spin reversed"), k});
      if (type == 0 && d == 1) {  // the same in other coordinates
        MatrixXd Q = MatrixXd::Identity(order, order) - (2. / order) * MatrixXd::Ones(order, order);
        for (auto& a : k.A) a[0] = (Q * a[0] * Q).eval();
        k.c[0] = (Q * k.c[0] * Q).eval();
        for (auto* e : {&k.c}) (*e)[0] = (.5 * ((*e)[0] + (*e)[0].transpose())).eval();
        for (auto& a : k.A) a[0] = (.5 * (a[0] + a[0].transpose())).eval();
        r.push_back({std::string(zoo::Name(kind)) + " rotated arrow", k});
      }
    }
  }
  return r;
}

vector<Form> Forms(const Half& h) {
  int n = h.a.size();
  vector<Form> r;
  auto vec = [&](int kind, int rows, double fill, const char* name) {
    Cone k;
    k.kind = kind;
    for (int i = 0; i < n; i++) {
      VectorXd v = VectorXd::Zero(rows);
      v(0) = h.a(i);
      k.A.push_back({v});
    }
    VectorXd c = VectorXd::Zero(rows);
    c(0) = h.b;
    if (rows > 1) c(rows - 1) = fill;
    k.c = {c};
    r.push_back({name, k});
  };
  vec(zoo::kLinear, 1, 0, "linear");
  vec(zoo::kLinear, 2, 5, "linear with a slack row");
  vec(zoo::kSOC, 3, 0, "soc");
  vec(zoo::kQuad, 2, 0, "quadratic-cone");
  for (int kind : {(int)zoo::kReal, (int)zoo::kDense, (int)zoo::kComplex, (int)zoo::kQuaternion, (int)zoo::kOctonion})
    for (int order = 1; order <= 2; order++) {
      int d = zoo::Dim(kind);
      Cone k;
      k.kind = kind;
      for (int i = 0; i < n; i++) {
        Elem e = Zero(d, order);
        e[0](order - 1, order - 1) = h.a(i);
        k.A.push_back(e);
      }
      k.c = Zero(d, order);
      k.c[0](order - 1, order - 1) = h.b;
      if (order == 2) k.c[0](0, 0) = 2;
      r.push_back({std::string(zoo::Name(kind)) + " of order " + std::to_string(order), k});
    }
  return r;
}

void Case(Ctx& c, int n, bool deep) {
  // The set.
  Ball B;
  const bool large = n > 4;
  int shape = c.choose(large ? 2 : deep ? 5 : 3);
  B.L = MatrixXd::Identity(n, n);
  B.m = VectorXd::Zero(n);
  B.r = 1;
  if (shape == 1 || shape == 3) {
    for (int i = 0; i < n; i++) {
      B.m(i) = i % 2 ? -.75 : 1.5;
      B.L(i, i) = 1 + .5 * (i % 4);
      if (i) B.L(i, i - 1) = .5;
    }
    B.r = shape == 1 ? .8 : 2.5;
  }
  if (shape == 2) B.r = 4, B.m(n - 1) = 3;
  if (shape == 4) B.r = .3, B.m.setConstant(-2), B.L *= 2;
  B.Linv = B.L.inverse();
  Half h;
  int cut = c.choose(large ? 2 : deep ? 4 : 3);
  h.on = cut > 0;
  h.a = VectorXd::Ones(n);
  if (cut == 1) h.b = h.a.dot(B.m) + .25;
  if (cut == 2) h.a(0) = -1, h.b = h.a.dot(B.m) - .1;
  if (cut == 3) h.a = 3 * VectorXd::Unit(n, n - 1), h.b = h.a.dot(B.m) + .9;
  vector<double> al = deep ? vector<double>{1, -1, 0, 4} : n == 1 ? vector<double>{1, -1, 5} : vector<double>{1, -1};
  VectorXd cost(n);
  if (large) {
    const int pattern = c.choose(c.pick(3, 5));
    for (int i = 0; i < n; i++) cost(i) = pattern == 0 ? (i % 2 ? -1 : 1) : pattern == 1 ? i - .4 * n : pattern == 2 ? i == n - 1 : pattern == 3 ? -1 : i % 3 == 0;
  } else {
    for (int i = 0; i < n; i++) cost(i) = c.among(al);
  }
  c.require(cost.norm() > 0);
  if (n > 2 && !large && !c.thorough) c.require(cost(0) == 1 && cost(1) == -1);
  VectorXd best;
  c.require(Minimise(B, h, cost, &best));

  auto ball = Forms(B);
  int f = c.choose((int)ball.size());
  vector<Form> half;
  int g = -1;
  if (h.on) {
    half = Forms(h);
    g = large ? c.choose(2) * 2 : c.choose((int)half.size());
  }
  // Directly, or with the ball on copies of the variables.
  int copies = c.choose(3);
  bool first = h.on && (c.thorough || !copies) && c.flip();
  static const vector<Mode> all = Modes();
  static const vector<int> which = {0, 2, 3, 5};
  const Mode& mode = all[which[c.choose(c.thorough ? 4 : copies ? 1 : 2)]];

  int vars = copies ? 2 * n : n;
  conex::Program p(vars);
  vector<int> y(n), z(n);
  for (int i = 0; i < n; i++) y[i] = copies == 2 ? n + i : i, z[i] = copies == 1 ? n + i : i;
  if (!copies) z = y;
  if (first) half[g].cone.Add(&p, y);
  ball[f].cone.Add(&p, z);
  if (copies) {
    MatrixXd E(n, 2 * n);
    E << MatrixXd::Identity(n, n), -MatrixXd::Identity(n, n);
    vector<int> yz = y;
    yz.insert(yz.end(), z.begin(), z.end());
    if (copies == 1) p.AddConstraint(conex::EqualityConstraints(E, MatrixXd::Zero(n, 1)), yz);
    else
      for (int i = n - 1; i >= 0; i--) {
        MatrixXd e(1, 2);
        e << 2, -2;
        p.AddConstraint(conex::EqualityConstraints(e, MatrixXd::Zero(1, 1)), {y[i], z[i]});
      }
  }
  if (h.on && !first) half[g].cone.Add(&p, y);
  VectorXd full = VectorXd::Zero(vars);
  for (int i = 0; i < n; i++) full(y[i]) = cost(i);
  p.AddLinearCost(full);
  std::string s = "min " + Str(cost.transpose()) + "y over |L^-1(y-m)|<=" + std::to_string(B.r) + " L=" + Str(B.L) + " m=" + Str(B.m.transpose()) + " as " + ball[f].name + (copies ? " on copies " + std::to_string(copies) : "");
  if (h.on) s += ", " + Str(h.a.transpose()) + "y<=" + std::to_string(h.b) + " as " + half[g].name + (first ? " (first)" : "");
  s += std::string(" mode ") + mode.name + " ";
  c.describe(s);
  // The description itself is judged too: both forms agree with the set.
  srand(1);
  Outcome o = Run(&p, mode.config);
  c.state(HashOf(o).add(o.status.num_iterations).real(o.y(0), 1e-7));
  c.judged();
  c.nontrivial();
  s = Str(o) + " optimum at [" + Str(best.transpose()) + "] " + s;
  c.check(o.solved, "not-solved", s);
  c.check(!o.status.primal_infeasible && !o.status.dual_infeasible, "flag", s);
  c.check(o.y.allFinite(), "finite", s);
  VectorXd x(n);
  for (int i = 0; i < n; i++) {
    x(i) = o.y(y[i]);
    c.check(std::fabs(o.y(y[i]) - o.y(z[i])) < 1e-3, "copy-differs", s);
  }
  c.check((B.Linv * (x - B.m)).norm() < B.r * (1 + 1e-3), "infeasible-point", s);
  if (h.on) c.check(h.a.dot(x) < h.b + 1e-3, "infeasible-point", s);
  double scale = 1 + std::fabs(cost.dot(best));
  c.check(cost.dot(x) < cost.dot(best) + 3e-3 * scale, "suboptimal", s);
  c.check((x - best).norm() < .05 * (1 + best.norm()), "other-point", s);
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (int n = 1; n <= 4; n++)
    v.push_back({"ball-" + std::to_string(n), [n](Ctx& c) { Case(c, n, c.thorough); }, n + 3, n == 4, "ellipsoids and half spaces in " + std::to_string(n) + " variables, in every cone form, with copied variables"});
  for (int n : {5, 6, 7, 8, 9, 12, 17})
    v.push_back({"ball-" + std::to_string(n), [n](Ctx& c) { Case(c, n, false); }, 5, false, "two ellipsoids, cut by a half space or not, in " + std::to_string(n) + " variables, in every cone form, with copied variables"});
  return mc::Main(argc, argv, v);
}
