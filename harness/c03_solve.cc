// Factor and solve of the assembled system against the system itself, for every
// sparsity pattern, solver mode and short history within the bounds.
#include <Eigen/Dense>
#include "harness/kkt_common.h"

using namespace kkt;

namespace {

// Small integers: diagonal dominance makes every block positive definite.
void FillDefinite(Item* it, Numbers* num) {
  int k = it->vars.size();
  auto small = [&](int m) { return double(((long long)(num->next()) % m + m) % m); };
  if (it->eq) {
    it->A.resize(it->eq, k);
    it->b.resize(it->eq, 1);
    for (int r = 0; r < it->eq; r++) {
      for (int j = 0; j < k; j++) it->A(r, j) = 1 + small(7) / 4;
      if (r < k) it->A(r, r) += 5;
      it->b(r, 0) = small(9) - 4;
    }
    return;
  }
  if (!it->block) it->block = std::make_shared<Block>();
  Block& b = *it->block;
  b.G.resize(k, k);
  b.AW.setZero(k);
  b.AQc.setZero(k);
  for (int i = 0; i < k; i++)
    for (int j = 0; j < i; j++) b.G(i, j) = b.G(j, i) = small(9) / 4 - 1;
  for (int i = 0; i < k; i++) b.G(i, i) = 4 + 2 * k + small(5);
}

struct Ratio {
  double worst = 0;
};

void Solves(Ctx& c, conex::SupernodalKKTSolver& solver, const MatrixXd& K, double tol, double tol_in_place, const std::string& when) {
  int N = K.rows();
  for (int j = 0; j <= N; j++) {
    VectorXd b = VectorXd::Zero(N);
    if (j < N) b(j) = 1;
    else
      for (int i = 0; i < N; i++) b(i) = i % 2 ? -1.5 - i : 2.25 + i;
    VectorXd x = solver.Solve(b);
    double r = (K * x - b).lpNorm<Eigen::Infinity>();
    if (!(r <= tol * (1 + b.lpNorm<Eigen::Infinity>()))) {
      std::ostringstream o;
      o << when << "Solve: residual " << r << " for right-hand side " << j << " of " << Show(K);
      c.fail("solve", o.str());
    }
    MatrixXd y = b;
    VectorXd mem(N + 8);
    double* p = mem.data();
    while (reinterpret_cast<uintptr_t>(p) % 64) p++;
    Eigen::Map<MatrixXd, Eigen::Aligned> z(p, N, 1);
    z = y;
    solver.SolveInPlace(&z);
    r = (K * z - b).lpNorm<Eigen::Infinity>();
    if (!(r <= tol_in_place * (1 + b.lpNorm<Eigen::Infinity>()))) {
      std::ostringstream o;
      o << when << "SolveInPlace: residual " << r << " for right-hand side " << j << " of " << Show(K);
      c.fail("solve-in-place", o.str());
    }
    c.judged(2);
  }
}

const char* kMode[] = {"LLT", "LDLT", "QR"};

void RunSystem(Ctx& c, System s, int history, bool all_modes) {
  int n = s.n, rows = 0;
  for (auto& it : s.items) rows += it.eq;
  c.require(Covers(s));
  Numbers num;
  for (auto& it : s.items) FillDefinite(&it, &num);
  MatrixXd K;
  VectorXd a, b;
  double w, q;
  s.Dense(&K, &a, &b, &w, &q);
  if (rows) {
    // The system is solvable when the costs are definite on all variables and
    // the equality rows are independent.
    MatrixXd Q = K.topLeftCorner(n, n);
    c.require(Eigen::LLT<MatrixXd>(Q).info() == Eigen::Success);
    for (int i = 0; i < n; i++) c.require(Q(i, i) > 0);
    MatrixXd A = K.bottomLeftCorner(rows, n);
    Eigen::JacobiSVD<MatrixXd> svd(A);
    c.require(rows <= n && svd.singularValues()(rows - 1) > .2);
  }
  int mode = all_modes ? c.choose(3) : 0;
  int refine = all_modes ? c.choose(3) : 0;
  c.describe(s.str() + kMode[mode] + " refine " + std::to_string(refine));
  if (Overlaps(s)) c.nontrivial();
  conex::Program p(s.n);
  for (auto& it : s.items) AddTo(&p, it);
  conex::Initialize(p, conex::SolverConfiguration());
  p.solver->SetSolverMode(mode);
  p.solver->SetIterativeRefinementIterations(refine);
  p.solver->Assemble();
  c.check(p.solver->Factor(), "factor", "factorization of a nonsingular system failed");
  // The LDLT factorization replaces a zero pivot, which can occur when several
  // equality constraints meet, by a small one.  That costs accuracy that only
  // refinement recovers (conex/test/solver_failures.cc documents it).
  int groups = 0;
  for (auto& it : s.items) groups += it.eq > 0;
  auto tol = [&]() { return groups >= 2 && mode != 2 ? 1e-2 : 1e-9; };
  auto tol_in_place = [&]() { return refine ? 1e-9 : tol(); };
  Solves(c, *p.solver, K, tol(), tol_in_place(), "");
  mc::Hash h = HashOf(K);
  h.add(mode).add(refine);
  c.state(h);
  std::string when;
  for (int d = 0; d < history; d++) {
    int op = c.choose(4);
    if (op == 0) {
      when += "same data again; ";
    } else if (op == 1) {
      when += "new data; ";
      for (auto& it : s.items)
        if (!it.eq) FillDefinite(&it, &num);
      s.Dense(&K, &a, &b, &w, &q);
    } else if (op == 2) {
      // A block that makes the system fail, then valid data again.
      when += "failed factorization; ";
      auto negate = [&]() {
        for (auto& it : s.items)
          if (!it.eq) it.block->G *= -1;
      };
      negate();
      p.solver->Assemble();
      bool ok = p.solver->Factor();
      if (!rows && mode != 2) c.check(!ok, "factor-indefinite", "factorization of a negative definite matrix succeeded");
      negate();
    } else {
      when += "switch mode; ";
      mode = (mode + 1) % 3;
      p.solver->SetSolverMode(mode);
    }
    p.solver->Assemble();
    c.check(p.solver->Factor(), "factor", "after " + when + "factorization of a nonsingular system failed");
    Solves(c, *p.solver, K, tol(), tol_in_place(), "after " + when);
    mc::Hash h2 = HashOf(K);
    h2.add(mode).add(d);
    c.state(h2);
  }
}

void Run(Ctx& c, int n, int k, const Sets& alphabet, int max_eq, int history, bool all_modes) {
  System s;
  s.n = n;
  for (int i = 0; i < k; i++) {
    Item it;
    it.vars = c.among(alphabet);
    if (max_eq) it.eq = c.choose(max_eq + 1);
    c.require(it.eq <= (int)it.vars.size());
    s.items.push_back(it);
  }
  RunSystem(c, s, history, all_modes);
}

// Systems that are not positive definite: a Cholesky factorization reports it.
void Indefinite(Ctx& c, int n, int k, const Sets& alphabet) {
  System s;
  s.n = n;
  for (int i = 0; i < k; i++) {
    Item it;
    it.vars = c.among(alphabet);
    s.items.push_back(it);
  }
  c.require(Covers(s));
  Numbers num;
  for (auto& it : s.items) FillDefinite(&it, &num);
  MatrixXd K;
  VectorXd a, b;
  double w, q;
  // One direction of one block is made negative enough to matter.
  int which = c.choose(k);
  Item& it = s.items[which];
  int var = c.choose((int)it.vars.size());
  int amount = c.choose(3);
  s.Dense(&K, &a, &b, &w, &q);
  it.block->G(var, var) -= K(it.vars[var], it.vars[var]) + (amount == 0 ? 0.5 : amount == 1 ? 3.0 : -1e-3);
  s.Dense(&K, &a, &b, &w, &q);
  double lmin = Eigen::SelfAdjointEigenSolver<MatrixXd>(K, Eigen::EigenvaluesOnly).eigenvalues()(0);
  c.require(std::fabs(lmin) > 1e-8);
  c.describe(s.str() + "variable " + std::to_string(it.vars[var]) + " smallest eigenvalue " + std::to_string(lmin));
  if (Overlaps(s)) c.nontrivial();
  conex::Program p(s.n);
  for (auto& x : s.items) AddTo(&p, x);
  conex::Initialize(p, conex::SolverConfiguration());
  p.solver->Assemble();
  bool ok = p.solver->Factor();
  c.check(ok == (lmin > 0), "definiteness", std::string("Cholesky reported ") + (ok ? "success" : "failure") + " with smallest eigenvalue " + std::to_string(lmin));
  c.state(HashOf(K).add(ok));
  c.judged();
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"modes-3x2", [](Ctx& c) { Run(c, 3, 2, Tuples(3), 2, c.pick(2, 3), true); }, 2, false,
               "3 variables, 2 constraints, ordered tuples, 0-2 equality rows, 3 modes, 0-2 refinements, histories of 2 (thorough 3) operations"});
  v.push_back({"modes-3x3", [](Ctx& c) { Run(c, 3, 3, Tuples(3), 2, 0, true); }, 2, false,
               "3 variables, 3 constraints, ordered tuples, 0-2 equality rows, 3 modes, 0-2 refinements"});
  v.push_back({"modes-4x3", [](Ctx& c) { Run(c, 4, 3, SubsetOrders(4, 2), 2, 0, true); }, 2, false,
               "4 variables, 3 constraints, subsets in two orders, 0-2 equality rows, 3 modes, 0-2 refinements"});
  v.push_back({"sets-5x3", [](Ctx& c) { Run(c, 5, 3, SubsetOrders(5, 2), 0, 0, false); }, 2, false, "5 variables, 3 constraints, subsets in two orders, Cholesky"});
  v.push_back({"indefinite-4x3", [](Ctx& c) { Indefinite(c, 4, 3, SubsetOrders(4, 1)); }, 2, false,
               "4 variables, 3 constraints, every subset, one diagonal entry made negative or nearly so"});
  v.push_back({"sets-4x4-eq", [](Ctx& c) { Run(c, 4, 4, SubsetOrders(4, 1), 1, 0, false); }, 2, true, "4 variables, 4 constraints, subsets, 0-1 equality rows"});
  v.push_back({"sets-5x4", [](Ctx& c) { Run(c, 5, 4, SubsetOrders(5, 1), 0, 0, false); }, 2, true, "5 variables, 4 constraints, subsets, Cholesky"});
  v.push_back({"sets-6x3", [](Ctx& c) { Run(c, 6, 3, SubsetOrders(6, 2), 0, 0, false); }, 2, true, "6 variables, 3 constraints, subsets in two orders, Cholesky"});
  v.push_back({"sets-5x3-eq", [](Ctx& c) { Run(c, 5, 3, SubsetOrders(5, 1), 2, 0, true); }, 2, true, "5 variables, 3 constraints, subsets, 0-2 equality rows, all modes"});
  v.push_back({"graphs-5", [](Ctx& c) { RunSystem(c, GraphSystem(c, 5, false), 0, false); }, 2, false,
               "every graph on 5 variables, one constraint per edge, both orientations and constraint orders, Cholesky"});
  v.push_back({"graphs-4-eq", [](Ctx& c) { RunSystem(c, GraphSystem(c, 4, true), 1, true); }, 2, false,
               "every graph on 4 variables, none or one edge doubled by an equality, all modes, one further operation"});
  v.push_back({"trees-6", [](Ctx& c) { RunSystem(c, TreeSystem(c, 6, true), 0, c.thorough); }, 2, false,
               "every tree on 6 variables, constraints on its edges or neighbourhoods, none or one doubled by an equality, Cholesky (thorough: all modes)"});
  v.push_back({"bands", [](Ctx& c) { RunSystem(c, BandSystem(c, c.range(5, c.pick(11, 14)), 5, 2), 0, c.thorough); }, 2, false,
               "windows of 2-5 variables on paths and rings of 5-11 (thorough: 14) variables, every stride of the numbering and the constraint order, 0-2 equality rows, Cholesky (thorough: all modes)"});
  v.push_back({"graphs-5-eq", [](Ctx& c) { RunSystem(c, GraphSystem(c, 5, true), 0, true); }, 2, true,
               "every graph on 5 variables, none or one edge doubled by an equality, all modes"});
  v.push_back({"graphs-6", [](Ctx& c) { RunSystem(c, GraphSystem(c, 6, false), 0, false); }, 2, false, "every graph on 6 variables, Cholesky"});
  v.push_back({"trees-7", [](Ctx& c) { RunSystem(c, TreeSystem(c, 7, true), 0, false); }, 2, false, "every tree on 7 variables, Cholesky"});
  v.push_back({"trees-8", [](Ctx& c) { RunSystem(c, TreeSystem(c, 8, true), 0, false); }, 2, true, "every tree on 8 variables, Cholesky"});
  v.push_back({"clique-trees", [](Ctx& c) { RunSystem(c, LargeSystem(c, false, 1), 0, c.thorough); }, 2, false,
               "trees of 2-8 (thorough 11) cliques of 2-9 (12) variables: 5 shapes, 3 overlaps, 3 positions, 3 numberings, 3 orders, none or one equality row, Cholesky (thorough: all modes)"});
  v.push_back({"grids", [](Ctx& c) { RunSystem(c, LargeSystem(c, true, 1), 0, true); }, 2, false,
               "edges or cells of grids and tori up to 4x5 (thorough 5x6), 3 numberings, 3 orders, none or one equality row, all modes"});
  return mc::Main(argc, argv, v);
}
