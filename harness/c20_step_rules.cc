// Barrier-parameter rules: the divergence-bound inverse on every small spectrum,
// the line search on every small linear constraint, and both through a solver
// iteration.
#include <algorithm>

#include "conex/cone_program.h"
#include "conex/divergence.h"
#include "conex/linear_constraint.h"
#include "mc/explore.h"

using mc::Ctx;
using std::vector;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using conex::Ref;

namespace {

const double kInf = std::numeric_limits<double>::infinity();

double Bound(const vector<double>& l, double k) {
  double num = 0, inf = 0;
  for (double x : l) num += (k * x - 1) * (k * x - 1), inf = std::max(inf, std::fabs(k * x - 1));
  return inf < 1 ? num / (1 - inf) : kInf;
}

// Largest k whose bound is at most `limit` (the sublevel sets are intervals),
// or -1; *least is the minimum of the bound.
double LargestWithin(const vector<double>& l, double limit, double* least) {
  double lo = *std::min_element(l.begin(), l.end()), hi = *std::max_element(l.begin(), l.end());
  *least = kInf;
  if (lo <= 0) return -1;
  double a = 0, b = 2 / hi;
  for (int i = 0; i < 200; i++) {
    double c = a + (b - a) * .382, d = a + (b - a) * .618;
    if (Bound(l, c) < Bound(l, d)) b = d;
    else a = c;
  }
  double best = (a + b) / 2;
  *least = Bound(l, best);
  if (*least > limit) return -1;
  double p = best, q = 2 / hi;
  for (int i = 0; i < 200; i++) {
    double m = (p + q) / 2;
    (Bound(l, m) <= limit ? p : q) = m;
  }
  return p;
}

conex::WeightedSlackEigenvalues Summary(const vector<double>& l) {
  conex::WeightedSlackEigenvalues p;
  p.rank = l.size();
  p.trace = p.frobenius_norm_squared = 0;
  for (double x : l) p.trace += x, p.frobenius_norm_squared += x * x;
  p.lambda_min = *std::min_element(l.begin(), l.end());
  p.lambda_max = *std::max_element(l.begin(), l.end());
  return p;
}

void Divergence(Ctx& c, int rank) {
  static const vector<double> al = {-1, 0, 1e-6, .01, .1, .3, .5, .9, 1, 1.5, 2, 3, 10, 100};
  vector<double> l;
  int last = 0;
  for (int i = 0; i < rank; i++) {
    last = c.range(last, al.size() - 1);
    l.push_back(al[last]);
  }
  double limit = c.among(vector<double>{.01, .1, .5, 1, 2, 10}) * rank;
  std::ostringstream o;
  for (double x : l) o << x << " ";
  o << "limit " << limit;
  c.describe(o.str());
  auto p = Summary(l);
  double least, want = LargestWithin(l, limit, &least);
  double k = conex::DivergenceUpperBoundInverse(limit, p);
  o << " returned " << k << " expected " << want << " (least bound " << least << ")";
  c.state(mc::Hash().real(k));
  c.judged();
  // The declared bound function itself.
  for (double t : {.25, .5, 1.}) {
    double kk = l.back() > 0 ? t / l.back() : t;
    double want_b = Bound(l, kk);
    if (std::isfinite(want_b)) {
      double b = conex::DivergenceUpperBound(kk, p);
      c.check(std::fabs(b - want_b) <= 1e-6 * (1 + want_b), "bound", o.str() + " DivergenceUpperBound differs from its definition");
    }
  }
  if (k > 0) {
    c.check(Bound(l, k) <= limit * (1 + 1e-5) + 1e-6, "exceeds", o.str());
    // At the exact minimum rounding decides whether there is a parameter.
    if (std::fabs(least - limit) > 1e-6 * limit) c.check(std::fabs(k - want) <= 1e-4 * want, "not-largest", o.str());
    if (rank > 1 && l[0] < l.back()) c.nontrivial();
  } else {
    // Any negative value means that there is no parameter.
    c.check(k < 0, "failure-value", o.str());
    c.check(want < 0 || least > limit * (1 - 1e-5), "missed", o.str());
  }
}

struct Linear {
  MatrixXd A;
  VectorXd b;
};
Linear ReadLinear(Ctx& c, int n, int m, const vector<double>& al, const vector<double>& bl) {
  Linear x;
  x.A.resize(n, m);
  x.b.resize(n);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < m; j++) x.A(i, j) = c.among(al);
    x.b(i) = c.among(bl);
  }
  return x;
}

// {k : |d0 + k delta|_inf <= bound}
struct Interval {
  double lo = -kInf, hi = kInf;
  bool empty = false;
};
Interval Exact(const VectorXd& d0, const VectorXd& delta, double bound) {
  Interval r;
  for (int i = 0; i < d0.size(); i++) {
    if (delta(i) == 0) {
      if (std::fabs(d0(i)) > bound) r.empty = true;
      continue;
    }
    double p = (bound - d0(i)) / delta(i), q = (-bound - d0(i)) / delta(i);
    r.lo = std::max(r.lo, std::min(p, q));
    r.hi = std::min(r.hi, std::max(p, q));
  }
  if (r.lo > r.hi) r.empty = true;
  return r;
}

template <class T>
void LineSearchOf(Ctx& c, T* con, const Linear& x, const vector<double>& yl, bool steps) {
  int n = x.A.rows(), m = x.A.cols();
  VectorXd mem = VectorXd::Constant(SizeOf(*con->workspace()) + 16, 7);
  Initialize(con->workspace(), mem.data());
  SetIdentity(con);
  VectorXd W = VectorXd::Ones(n);
  VectorXd y0(m), y1(m);
  if (steps) {
    // One ordinary step first, so that the weights differ from one.
    VectorXd y = VectorXd::Constant(m, c.among(vector<double>{0, .5}));
    conex::StepOptions opt;
    opt.affine = false;
    opt.e_weight = 1;
    opt.c_weight = c.among(vector<double>{0, .5});
    opt.step_size = .5;
    conex::StepInfo info;
    Ref ym(y.data(), m, 1);
    PrepareStep(con, opt, ym, &info);
    TakeStep(con, opt);
    W = ((x.A * y - opt.c_weight * x.b).array() + 1) * .5;
    W = W.array().exp();
  }
  for (int i = 0; i < m; i++) y0(i) = c.among(yl);
  for (int i = 0; i < m; i++) y1(i) = c.among(yl);
  conex::LineSearchParameters p;
  p.c0_weight = c.among(vector<double>{0, 1});
  p.c1_weight = c.among(vector<double>{1, .5});
  p.dinf_upper_bound = c.among(vector<double>{1, .5, 2});
  Ref r0(y0.data(), m, 1), r1(y1.data(), m, 1);
  conex::LineSearchOutput out;
  bool failure = PerformLineSearch(con, p, r0, r1, &out);
  VectorXd d0 = (W.array() * (x.A * y0 - p.c0_weight * x.b).array() + 1).matrix();
  VectorXd d1 = (W.array() * (x.A * y1 - p.c1_weight * x.b).array() + 1).matrix();
  Interval want = Exact(d0, d1 - d0, p.dinf_upper_bound);
  std::ostringstream o;
  o << "A=[" << x.A << "] b=[" << x.b.transpose() << "] W=[" << W.transpose() << "] y0=[" << y0.transpose() << "] y1=[" << y1.transpose() << "] weights "
    << p.c0_weight << " " << p.c1_weight << " bound " << p.dinf_upper_bound << " -> failure " << failure << " [" << out.lower_bound << ", " << out.upper_bound
    << "], exact " << (want.empty ? "empty " : "") << "[" << want.lo << ", " << want.hi << "]";
  c.describe(o.str());
  c.state(mc::Hash().real(out.lower_bound).real(out.upper_bound).add(failure));
  c.judged();
  // Degenerate cases decided by rounding are not judged.
  double gap = want.hi - want.lo;
  if (std::isfinite(gap) && std::fabs(gap) < 1e-9) return;
  for (int i = 0; i < n; i++) {
    double dl = std::fabs(d1(i) - d0(i));
    if (dl > 0 && dl < 1e-9) return;
    // With unit weights the arithmetic is exact.
    if (dl == 0 && W(i) != 1 && std::fabs(std::fabs(d0(i)) - p.dinf_upper_bound) < 1e-9) return;
  }
  // A finite parameter inside the returned bounds satisfies the norm bound.
  if (!failure && out.lower_bound <= out.upper_bound) {
    for (double k : {out.lower_bound, out.upper_bound, .5 * out.lower_bound + .5 * out.upper_bound}) {
      if (!std::isfinite(k) || std::fabs(k) > 1e100) continue;
      double v = (d0 + k * (d1 - d0)).cwiseAbs().maxCoeff();
      c.check(v <= p.dinf_upper_bound + 1e-8 * (1 + std::fabs(k)), "norm-bound", o.str() + " norm " + std::to_string(v) + " at " + std::to_string(k));
    }
    if (!want.empty) {
      auto same = [](double a, double b) { return (std::fabs(a) > 1e100 && std::fabs(b) > 1e100) || std::fabs(a - b) <= 1e-8 * (1 + std::fabs(a)); };
      c.check(same(out.upper_bound, want.hi) && same(out.lower_bound, want.lo), "interval", o.str());
      c.nontrivial();
    }
  } else {
    c.check(want.empty, "missed", o.str());
  }
}

void LineSearch(Ctx& c, int n, int m, bool steps) {
  int kind = m == n ? c.choose(3) : 0;
  if (kind == 0) {
    Linear x = ReadLinear(c, n, m, {1, 0, -1, 2}, {0, 1, -1});
    conex::LinearConstraint con(x.A, MatrixXd(x.b));
    LineSearchOf(c, &con, x, {0, 1, -1}, steps);
  } else {
    Linear x;
    x.b.resize(n);
    for (int i = 0; i < n; i++) x.b(i) = c.among(vector<double>{0, 1, -1});
    VectorXd b = x.b;
    x.A = MatrixXd::Identity(n, n);
    if (kind == 1) {
      conex::UpperBound con(b);
      LineSearchOf(c, &con, x, {0, 1, -1}, steps);
    } else {
      x.A *= -1;
      x.b *= -1;
      conex::LowerBound con(b);
      LineSearchOf(c, &con, x, {0, 1, -1}, steps);
    }
  }
}

// One iteration of the solver: the recorded barrier parameter obeys the rule.
void Iteration(Ctx& c, int m, bool line_search) {
  // Two constraints with distinct variables, so that both are consulted.
  int n1 = c.range(1, 2), n2 = c.range(1, 2);
  Linear x1 = ReadLinear(c, n1, m, {1, 0, -1}, {1, 0, 2}), x2 = ReadLinear(c, n2, m, {1, -1}, {1, 3});
  VectorXd cost(m);
  for (int i = 0; i < m; i++) cost(i) = c.among(vector<double>{0, 1, -2});
  MatrixXd A(n1 + n2, m);
  A << x1.A, x2.A;
  VectorXd b(n1 + n2);
  b << x1.b, x2.b;
  MatrixXd G = A.transpose() * A;
  c.require(std::fabs(G.determinant()) > .5);
  double limit = c.among(vector<double>{1, .25, 4});
  conex::SolverConfiguration config;
  config.max_iterations = 1;
  config.final_centering_steps = 0;
  config.enable_rescaling = 0;
  config.enable_line_search = line_search;
  config.dinf_upper_bound = limit;
  config.divergence_upper_bound = limit;
  config.inv_sqrt_mu_max = 1e9;
  config.maximum_mu = 1e12;
  conex::Program prog(m);
  prog.AddConstraint(conex::LinearConstraint(x1.A, MatrixXd(x1.b)));
  prog.AddConstraint(conex::LinearConstraint(x2.A, MatrixXd(x2.b)));
  prog.AddLinearCost(cost);
  VectorXd y = VectorXd::Zero(m);
  Solve(prog, config, y.data());
  double k = prog.stats->sqrt_inv_mu[0];
  std::ostringstream o;
  o << "A=[" << A << "] b=[" << b.transpose() << "] cost=[" << cost.transpose() << "] limit " << limit << " parameter " << k;
  c.describe(o.str());
  c.state(mc::Hash().real(k, 1e-5));
  c.judged();
  VectorXd e = VectorXd::Ones(n1 + n2), r = A.transpose() * b, AW = A.transpose() * e;
  if (line_search) {
    VectorXd y0 = G.ldlt().solve(-2 * AW), y1 = G.ldlt().solve(r - cost - 2 * AW);
    VectorXd d0 = A * y0 + e, d1 = A * y1 - b + e;
    VectorXd delta = d1 - d0;
    for (int i = 0; i < delta.size(); i++)
      if (std::fabs(delta(i)) < 1e-9) delta(i) = 0;
    Interval want = Exact(d0, delta, limit + 1e-9);
    // Rounding decides where rows that do not move violate the bound.
    bool stuck = false;
    for (int i = 0; i < delta.size(); i++) stuck |= delta(i) == 0 && std::fabs(d0(i)) > limit;
    if (!stuck && want.lo - want.hi > 1e-6) {
      // No parameter satisfies the bound: the least one allowed is kept.
      c.check(k <= 1.001e-6, "solve-norm-bound", [&] { return o.str() + " although no parameter keeps the norm within the limit"; });
      c.nontrivial();
    }
    if (want.empty || want.hi <= 1e-3 || !std::isfinite(want.hi)) return;
    // Rows that do not move and sit on the bound are decided by rounding.
    for (int i = 0; i < delta.size(); i++)
      if (delta(i) == 0 && std::fabs(std::fabs(d0(i)) - limit) < 1e-6) return;
    if (want.hi - want.lo < 1e-6) return;
    double v = (d0 + k * delta).cwiseAbs().maxCoeff();
    o << " line-search interval [" << want.lo << ", " << want.hi << "] norm " << v;
    c.check(v <= limit + 1e-6, "solve-norm-bound", o.str());
    c.check(std::fabs(k - want.hi) < 1e-5 * (1 + k), "solve-line-search", o.str());
    c.nontrivial();
  } else {
    VectorXd yy = G.ldlt().solve(r + cost);
    VectorXd s = b - A * yy;
    vector<double> l(s.data(), s.data() + s.size());
    double least, want = LargestWithin(l, limit * l.size(), &least);
    if (want < 0 || want < 1e-3 || want > 1e8) return;
    if (least > limit * l.size() * (1 - 1e-6)) return;
    o << " slack [" << s.transpose() << "] expected " << want << " bound " << Bound(l, k) << " limit " << limit * l.size();
    c.check(Bound(l, k) <= limit * l.size() * (1 + 1e-5), "solve-divergence-exceeds", o.str());
    c.check(std::fabs(k - want) < 1e-4 * want, "solve-divergence", o.str());
    c.nontrivial();
  }
}

// Every iteration of a run: the weights follow from the parameters recorded
// before, and each parameter obeys the rule for those weights.
void Trace(Ctx& c, int m, bool line_search) {
  int n1 = c.range(1, 2), n2 = c.range(1, m);
  c.require(m == 1 || n1 + n2 <= c.pick(2, 3));
  Linear x1 = ReadLinear(c, n1, m, {1, 0, -1}, {1, 2}), x2 = ReadLinear(c, n2, m, {1, -1, .5}, {1, 3});
  VectorXd cost(m);
  for (int i = 0; i < m; i++) cost(i) = c.among(vector<double>{1, -2});
  const int n = n1 + n2 + 2 * m;
  MatrixXd A(n, m);
  VectorXd b(n);
  const VectorXd bound = VectorXd::LinSpaced(m, 2, 4);
  A << x1.A, x2.A, MatrixXd::Identity(m, m), -MatrixXd::Identity(m, m);
  b << x1.b, x2.b, bound, bound;
  conex::SolverConfiguration config;
  const double limit = c.among(vector<double>{1, .3, 3});
  config.enable_rescaling = c.flip();
  config.enable_line_search = line_search;
  config.dinf_upper_bound = config.divergence_upper_bound = limit;
  config.max_iterations = 25;
  config.initial_centering_steps_coldstart = c.choose(3);
  config.final_centering_steps = c.choose(2) * 3;
  config.inv_sqrt_mu_max = 100;
  config.maximum_mu = 1e6;
  config.kkt_error_tolerance = 1e30;
  conex::Program prog(m);
  prog.AddConstraint(conex::LinearConstraint(x1.A, MatrixXd(x1.b)));
  vector<int> vars;
  for (int i = 0; i < m; i++) vars.push_back(m - 1 - i);
  prog.AddConstraint(conex::LinearConstraint(MatrixXd(x2.A.rowwise().reverse()), MatrixXd(x2.b)), vars);
  prog.AddConstraint(conex::UpperBound(bound));
  prog.AddConstraint(conex::LowerBound(VectorXd(-bound)));
  prog.AddLinearCost(cost);
  VectorXd y = VectorXd::Zero(m);
  const bool solved = Solve(prog, config, y.data());
  const int iterations = prog.stats->num_iter;
  std::ostringstream o;
  o << "A=[" << A << "] b=[" << b.transpose() << "] cost=[" << cost.transpose() << "] limit " << limit << " rescaling " << config.enable_rescaling << " initial centering "
    << config.initial_centering_steps_coldstart << " final centering " << config.final_centering_steps;
  c.describe(o.str());
  VectorXd W = VectorXd::Ones(n), e = W;
  double bs = 1, cs = 1, last = 0, max = config.inv_sqrt_mu_max;
  const double min = 1 / std::sqrt(1e-15 + config.maximum_mu);
  mc::Hash h;
  c.check(iterations >= 1 && iterations <= config.max_iterations, "trace-iterations", o.str());
  VectorXd yy;
  for (int i = 0; i < iterations; i++) {
    const double k = prog.stats->sqrt_inv_mu[i];
    h.real(k, 1e-5);
    const VectorXd W2 = W.cwiseProduct(W), AQc = A.transpose() * W2.cwiseProduct(b), AW = A.transpose() * W;
    const MatrixXd G = A.transpose() * W2.asDiagonal() * A;
    if (i == 0 && config.enable_rescaling) {
      bs = 1 / (1 + cost.norm()), cs = 1 / (1 + AQc.norm());
      max /= std::sqrt(bs * cs);
    }
    auto f = G.ldlt();
    const VectorXd target = AQc * cs - cost * bs;
    auto where = [&] { return o.str() + " iteration " + std::to_string(i) + " parameter " + std::to_string(k) + " before " + std::to_string(last) + " W=[" + [&] { std::ostringstream w; w << W.transpose(); return w.str(); }() + "] "; };
    const bool final_centering = last >= max || i >= config.max_iterations - config.final_centering_steps;
    const bool update = i == 0 || !(i < config.initial_centering_steps_coldstart || final_centering);
    auto same = [](double a, double b) { return std::fabs(a - b) <= 1e-4 * std::fabs(b); };
    auto clamp = [&](double x) { return std::min(std::max(x, min), max); };
    c.judged();
    if (!update) {
      c.check(same(k, clamp(last)), "trace-centering", [&] { return where() + "in a centering step"; });
    } else if (line_search) {
      const VectorXd y0 = f.solve(-2 * AW), y1 = f.solve(target - 2 * AW);
      const VectorXd d0 = W.cwiseProduct(A * y0) + e;
      VectorXd delta = W.cwiseProduct(A * y1 - cs * b) + e - d0;
      bool doubtful = false, stuck = false;
      for (int j = 0; j < n; j++)
        if (std::fabs(delta(j)) < 1e-9) {
          doubtful |= std::fabs(std::fabs(d0(j)) - limit) < 1e-6;
          stuck |= std::fabs(d0(j)) > limit;
          delta(j) = 0;
        }
      const Interval want = Exact(d0, delta, limit);
      if (doubtful || stuck || std::fabs(want.hi - want.lo) < 1e-6 * (1 + std::fabs(want.hi))) c.count("doubtful");
      else if (want.empty) {
        c.check(k <= std::max(last, min) * (1 + 1e-6), "trace-norm-bound", [&] { return where() + "although no parameter keeps the norm within the limit"; });
        c.count("no_parameter");
      } else if (want.hi > 1e-6) {
        c.check(same(k, clamp(want.hi)), "trace-line-search", [&] { return where() + "interval [" + std::to_string(want.lo) + ", " + std::to_string(want.hi) + "]"; });
        c.nontrivial();
      }
    } else {
      const VectorXd s = W.cwiseProduct(b * cs - A * f.solve(AQc * cs + cost * bs));
      const vector<double> l(s.data(), s.data() + n);
      double least;
      const double want = LargestWithin(l, limit * n, &least);
      if (std::fabs(least - limit * n) < 1e-5 * limit * n) c.count("doubtful");
      else if (want > 0) {
        c.check(same(k, clamp(want)), "trace-divergence", [&] { return where() + "largest parameter within the limit " + std::to_string(want); });
        c.nontrivial();
      } else c.count("no_parameter");
    }
    // The step the solver takes with that parameter.
    yy = f.solve(k * target - 2 * AW);
    VectorXd d = W.cwiseProduct(A * yy - k * cs * b) + e;
    const double norm = d.cwiseAbs().maxCoeff();
    W = W.array() * (d * std::min(1., 2 / (norm * norm))).array().exp();
    last = k;
    if (W.maxCoeff() > 1e6 || W.minCoeff() < 1e-6 || !W.allFinite()) {
      c.count("left_range");
      c.state(h);
      return;
    }
  }
  c.state(h);
  if (solved) c.check((y - yy / (last * cs)).norm() <= 1e-5 * (1 + y.norm()), "trace-solution", [&] { return o.str() + " y=[" + std::to_string(y(0)) + " ..] instead of " + std::to_string(yy(0) / (last * cs)); });
  c.count(solved ? "solved" : "not_solved");
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (int r = 1; r <= 6; r++)
    v.push_back({"divergence-rank-" + std::to_string(r), [r](Ctx& c) { Divergence(c, r); }, 2, r > 4, "all spectra of " + std::to_string(r) + " eigenvalues from an alphabet of 14, six limits"});
  v.push_back({"line-search-1x1", [](Ctx& c) { LineSearch(c, 1, 1, true); }, 3, false, "1 row, 1 variable, after a step"});
  v.push_back({"line-search-2x1", [](Ctx& c) { LineSearch(c, 2, 1, true); }, 3, false, "2 rows, 1 variable, after a step"});
  v.push_back({"line-search-2x2", [](Ctx& c) { LineSearch(c, 2, 2, false); }, 3, false, "2 rows, 2 variables"});
  v.push_back({"line-search-3x1", [](Ctx& c) { LineSearch(c, 3, 1, true); }, 3, false, "3 rows, 1 variable"});
  v.push_back({"line-search-3x2", [](Ctx& c) { LineSearch(c, 3, 2, false); }, 3, true, "3 rows, 2 variables"});
  for (int ls = 0; ls < 2; ls++)
    for (int m = 1; m <= 2; m++)
      v.push_back({std::string(ls ? "solver-line-search-" : "solver-divergence-") + std::to_string(m), [m, ls](Ctx& c) { Iteration(c, m, ls); }, 3, false,
                   "one solver iteration, two linear constraints, " + std::to_string(m) + " variables"});
  for (int ls = 0; ls < 2; ls++)
    for (int m = 1; m <= 2; m++)
      v.push_back({std::string(ls ? "trace-line-search-" : "trace-divergence-") + std::to_string(m), [m, ls](Ctx& c) { Trace(c, m, ls); }, 4, false,
                   "every iteration of runs with four linear constraints in " + std::to_string(m) + " variables, replayed on a model of the weights"});
  return mc::Main(argc, argv, v);
}
