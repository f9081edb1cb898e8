// Sparse triangular factorizations on their own: every elimination pattern of
// small clique families, against dense factorizations of the same matrix.
#include <algorithm>
#include <numeric>

#include <Eigen/Dense>

#include "conex/RLDLT.h"
#include "conex/block_triangular_operations.h"
#include "conex/supernodal_solver.h"
#include "harness/families.h"
#include "mc/explore.h"

using Eigen::MatrixXd;
using Eigen::VectorXd;
using mc::Ctx;
using std::vector;
using Sparse = conex::SparseTriangularMatrix;
using T = conex::TriangularMatrixOperations;
using B = conex::BlockTriangularOperations;
using Sets = vector<vector<int>>;

namespace {

std::string Str(const Sets& v) {
  std::string s;
  for (auto& x : v) {
    s += "{";
    for (size_t i = 0; i < x.size(); i++) s += (i ? "," : "") + std::to_string(x[i]);
    s += "}";
  }
  return s;
}

std::string Str(const MatrixXd& x) {
  std::ostringstream o;
  o.precision(9);
  o << "[";
  for (int i = 0; i < x.rows(); i++)
    for (int j = 0; j < x.cols(); j++) o << (j ? " " : i ? "; " : "") << x(i, j);
  o << "]";
  return o.str();
}

// The lower triangle an elimination pattern stores, with the given diagonal.
MatrixXd Values(const conex::MatrixData& d, int seed, const VectorXd& diagonal) {
  MatrixXd A = MatrixXd::Zero(d.N, d.N);
  for (size_t e = 0; e < d.cliques.size(); e++)
    for (int b = 0; b < d.supernode_size[e]; b++)
      for (size_t a = b + 1; a < d.cliques[e].size(); a++) {
        const int r = d.cliques[e][a], c = d.cliques[e][b];
        A(r, c) = A(c, r) = ((7 * r + 3 * c + 5 * seed + r * c) % 9 - 4) * .25;
      }
  A.diagonal() = diagonal;
  return A;
}

void Store(const MatrixXd& A, Sparse* m) {
  for (size_t e = 0; e < m->path.size(); e++) {
    const int n = m->supernode_size[e];
    for (int b = 0; b < n; b++)
      for (size_t a = 0; a < m->path[e].size(); a++) {
        const double v = A(m->path[e][a], m->path[e][b]);
        if ((int)a < n) m->supernodes[e](a, b) = v;
        else m->separator[e](b, a - n) = v;
      }
  }
}

double Worst(const MatrixXd& x) { return x.size() ? x.cwiseAbs().maxCoeff() : 0; }
MatrixXd Lower(const MatrixXd& x) { return x.triangularView<Eigen::Lower>(); }

struct Case {
  Ctx& c;
  conex::MatrixData d;
  std::string name;
  bool empty = false;  // some supernode is empty

  MatrixXd Read(const Sparse& m) { return Lower(T::ToDense(m)); }

  void Near(const MatrixXd& got, const MatrixXd& want, double tol, const char* key, const std::string& what) {
    const bool ok = got.rows() == want.rows() && got.cols() == want.cols() && Worst(got - want) <= tol * (1 + Worst(want)) && got.allFinite();
    c.check(ok, key, [&] { return name + ": " + what + " is " + Str(got) + " instead of " + Str(want); });
    c.judged();
  }

  VectorXd Right(int j) {
    VectorXd b(d.N);
    for (int i = 0; i < d.N; i++) b(i) = j < d.N ? i == j : 1.5 * i - 2 + (i % 3);
    return b;
  }

  void Cholesky(Sparse* m, const MatrixXd& A, bool all) {
    Store(A, m);
    Near(Read(*m), Lower(A), 0, "to-dense", "the stored matrix");
    Sparse copy(*m);
    Eigen::LLT<MatrixXd> dense(A);
    const double least = Eigen::SelfAdjointEigenSolver<MatrixXd>(A).eigenvalues().minCoeff();
    c.require(std::fabs(least) > 1e-10);  // Rounding decides singular matrices.
    const bool definite = least > 0;
    const bool ok = B::BlockCholeskyInPlace(&m->workspace_);
    c.check(ok == definite, "definite", [&] { return name + ": Cholesky of " + Str(A) + (ok ? " succeeded" : " failed"); });
    c.judged();
    Near(Read(copy), Lower(A), 0, "copy", "the copy, after its original was factored,");
    c.count(definite ? "definite" : "indefinite");
    if (!definite) return;
    c.nontrivial();
    const MatrixXd L = dense.matrixL();
    Near(Read(*m), L, 1e-12, "cholesky", "the block Cholesky factor of " + Str(A));
    if (all) {
      T::CholeskyInPlace(&copy);
      Near(Read(copy), L, 1e-12, "column-cholesky", "the column Cholesky factor of " + Str(A));
    }
    for (int j = 0; j <= d.N; j++) {
      const VectorXd b = Right(j);
      const VectorXd y = L.triangularView<Eigen::Lower>().solve(b), z = L.transpose().triangularView<Eigen::Upper>().solve(b);
      VectorXd x = b;
      B::ApplyBlockInverseInPlace(m->workspace_, &x);
      Near(x, y, 1e-11, "inverse", "inv(L) b for " + Str(A) + " b=" + Str(b));
      x = b;
      B::ApplyBlockInverseOfTransposeInPlace(m->workspace_, &x);
      Near(x, z, 1e-11, "inverse-transpose", "inv(L') b for " + Str(A) + " b=" + Str(b));
      x = b;
      B::SolveInPlaceCholesky(m->workspace_, &x);
      Near(A * x, b, 1e-10, "solve", "A times the solution, A=" + Str(A));
      if (all) {
        Near(T::ApplyInverse(m, b), y, 1e-11, "column-inverse", "ApplyInverse for " + Str(A) + " b=" + Str(b));
        Near(T::ApplyInverseOfTranspose(m, b), z, 1e-11, "column-inverse-transpose", "ApplyInverseOfTranspose for " + Str(A) + " b=" + Str(b));
      }
    }
  }

  void Indefinite(Sparse* m, const MatrixXd& A) {
    Store(A, m);
    vector<Eigen::RLDLT<Eigen::Ref<MatrixXd>>> f;
    const bool ok = B::BlockLDLTInPlace(&m->workspace_, &f);
    c.check(ok, "regularized", [&] { return name + ": the LDLT factorization regularized " + Str(A); });
    int negative = 0, seen = 0;
    for (size_t e = 0; e < f.size(); e++)
      for (int i = 0; i < d.supernode_size[e]; i++) seen++, negative += f[e].vectorD()(i) < 0;
    const VectorXd ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(A).eigenvalues();
    c.check(seen == d.N && negative == (ev.array() < 0).count(), "inertia", [&] { return name + ": " + std::to_string(negative) + " negative pivots for eigenvalues " + Str(ev.transpose()) + " of " + Str(A); });
    c.judged(2);
    c.nontrivial();
    for (int j = 0; j <= d.N; j++) {
      const VectorXd b = Right(j);
      VectorXd x = b, y = b;
      B::SolveInPlaceLDLT(m->workspace_, f, &x);
      Near(A * x, b, 1e-10, "solve-ldlt", "A times the LDLT solution, A=" + Str(A));
      B::ApplyBlockInverseOfMD(m->workspace_, f, &y);
      B::ApplyBlockInverseOfMTranspose(m->workspace_, f, &y);
      Near(y, x, 0, "halves", "the product of both halves of the LDLT solution");
    }
  }
};

void Matrices(Ctx& c, const Sets& cliques, int root, bool all_signs = true) {
  std::set<int> used;
  for (auto& q : cliques) used.insert(q.begin(), q.end());
  c.require((int)used.size() == *used.rbegin() + 1);
  Case s{c, conex::GetData(cliques, root), Str(cliques) + " root " + std::to_string(root)};
  for (int n : s.d.supernode_size) s.empty |= !n;
  const int N = s.d.N;
  Sparse m(s.d);
  const int kind = c.choose(4);
  c.describe(s.name);
  VectorXd diagonal(N);
  for (int i = 0; i < N; i++) diagonal(i) = N + 1 + (i * 5) % 3;
  if (kind == 0) {
    // Definite, twice in the same memory with other numbers.
    s.Cholesky(&m, Values(s.d, 0, diagonal), true);
    s.Cholesky(&m, Values(s.d, 2, diagonal * .75), true);
  } else if (kind == 1) {
    // One diagonal entry makes it indefinite; definite again afterwards.
    diagonal(c.choose(N)) = c.among(vector<double>{0, -1, -7});
    s.Cholesky(&m, Values(s.d, 1, diagonal), false);
    for (int i = 0; i < N; i++) diagonal(i) = N + 2;
    s.Cholesky(&m, Values(s.d, 1, diagonal), false);
  } else if (kind == 3) {
    // A zero on the diagonal of a block of order two or more.
    const int p = c.choose(N);
    int at = 0;
    for (int n : s.d.supernode_size) {
      c.require(!(at == p && n == 1));
      at += n;
    }
    diagonal(p) = 0;
    MatrixXd A = Values(s.d, 0, diagonal);
    at = 0;
    for (int n : s.d.supernode_size) {
      if (at <= p && p < at + n)
        for (int i = at; i < at + n; i++)
          if (i != p) A(i, p) = A(p, i) = 3;
      at += n;
    }
    s.Indefinite(&m, A);
  } else {
    const int pattern = all_signs ? 0 : 2 + c.choose(4);
    for (int i = 0; i < N; i++)
      if (all_signs ? c.flip() : i % pattern == 1) diagonal(i) = -diagonal(i);
    s.Indefinite(&m, Values(s.d, 0, diagonal));
    s.Indefinite(&m, Values(s.d, 3, diagonal.reverse()));
  }
  c.state(mc::Hash().add(s.name).add(kind).add((long long)s.empty));
}

vector<int> Members(int mask) {
  vector<int> v;
  for (int i = 0; mask >> i; i++)
    if (mask >> i & 1) v.push_back(i);
  return v;
}

void Families(Ctx& c, int most, int vars) {
  const int k = c.range(1, most);
  Sets cliques;
  for (int i = 0; i < k; i++) cliques.push_back(Members(1 + c.choose((1 << vars) - 1)));
  const int root = c.choose(k);
  Matrices(c, cliques, root);
}

// Cliques of size two: the edges of every labelled tree, in two orders.
void Trees(Ctx& c, int n) {
  vector<int> code(n - 2), degree(n, 1);
  for (auto& x : code) x = c.choose(n), degree[x]++;
  Sets cliques;
  for (int x : code)
    for (int i = 0; i < n; i++)
      if (degree[i] == 1) {
        cliques.push_back({std::min(i, x), std::max(i, x)});
        degree[i]--, degree[x]--;
        break;
      }
  vector<int> rest;
  for (int i = 0; i < n; i++)
    if (degree[i] == 1) rest.push_back(i);
  cliques.push_back(rest);
  if (c.flip()) std::reverse(cliques.begin(), cliques.end());
  Matrices(c, cliques, c.choose(n - 1));
}

// Bands and cycles: elimination with fill-in.
void Bands(Ctx& c) {
  const int n = c.range(3, c.pick(8, 10)), width = c.range(1, 3), cyclic = c.flip(), stride = c.range(1, 3);
  c.require(width < n && std::gcd(stride, n) == 1);
  Sets cliques;
  for (int i = 0; i + (cyclic ? 0 : width) < n; i++) {
    std::set<int> q;
    for (int j = 0; j <= width; j++) q.insert((i + j) * stride % n);
    cliques.push_back(vector<int>(q.begin(), q.end()));
  }
  Matrices(c, cliques, c.choose(cliques.size()));
}

void Large(Ctx& c, bool grid) {
  auto f = grid ? families::Grid(c, c.thorough) : families::CliqueTree(c, c.thorough);
  const int k = f.cliques.size(), root = c.choose(3);
  c.require(k > root && (grid || f.n <= c.pick(14, 30)));
  Matrices(c, f.cliques, root == 0 ? 0 : root == 1 ? k - 1 : k / 2, false);
}

// Dense LDLT with regularization: every small symmetric matrix.
void Dense(Ctx& c, int n, const vector<double>& entries) {
  MatrixXd A(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = c.among(entries);
  c.describe(Str(A));
  const std::string name = Str(A);
  Eigen::RLDLT<MatrixXd> f(A);
  MatrixXd memory = A;
  Eigen::Ref<MatrixXd> view(memory);
  Eigen::RLDLT<Eigen::Ref<MatrixXd>> in_place(view);
  c.check((Lower(memory) - Lower(f.matrixRLDLT())).isZero(0), "in-place", name + ": the factorization in place differs");
  const MatrixXd L = f.matrixL();
  const VectorXd D = f.vectorD(), ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(A).eigenvalues();
  const double growth = 1 + Worst(L.cwiseAbs() * D.cwiseAbs().asDiagonal() * L.transpose().cwiseAbs());
  // A tiny pivot stands for a zero one.
  const double tol = 1e-13 * growth + (f.regularization_used() || n == 1 ? 2e-9 * n : 0);
  const MatrixXd R = f.reconstructedMatrix();
  c.check(Worst(R - A) <= tol, "reconstruct", [&] { return name + ": L D L' is " + Str(R); });
  MatrixXd P = f.transpositionsP() * MatrixXd(MatrixXd::Identity(n, n));
  c.check(Worst(P.transpose() * L * D.asDiagonal() * L.transpose() * P - A) <= tol, "parts", [&] { return name + ": P' L D L' P is wrong with L=" + Str(L) + " D=" + Str(D.transpose()); });
  c.judged(3);
  c.check(f.isPositive() || ev(0) < 1e-8, "sign", name + ": not positive");
  c.check(f.isNegative() || ev(n - 1) > -1e-8, "sign", name + ": not negative");
  c.judged(2);
  c.count(f.regularization_used() ? "regularized" : "regular");
  c.state(mc::Hash().add(name));
  if (ev(0) > 1e-8 || ev(n - 1) < -1e-8) c.check(!f.regularization_used(), "definite-regularized", name + ": a definite matrix was regularized");
  if (f.regularization_used() || D.cwiseAbs().minCoeff() < 1e-8) {
    // Only a matrix with a vanishing pivot of its diagonal may be.
    c.judged();
    return;
  }
  c.nontrivial();
  c.check((D.array() < 0).count() == (ev.array() < 0).count(), "inertia", [&] { return name + ": pivots " + Str(D.transpose()) + " eigenvalues " + Str(ev.transpose()); });
  const double condition = growth * growth;
  for (int j = 0; j <= n; j++) {
    VectorXd b(n);
    for (int i = 0; i < n; i++) b(i) = j < n ? i == j : i - 1.5;
    const VectorXd x = f.solve(b), y = in_place.solve(b);
    VectorXd z = b;
    f.solveInPlace(z);
    c.check(Worst(A * x - b) < 1e-11 * condition && (x - y).isZero(0) && (x - z).isZero(0), "solve", [&] { return name + ": solving for " + Str(b.transpose()) + " gives " + Str(x.transpose()); });
    c.judged();
  }
  // Updates by one vector.
  VectorXd w(n);
  for (int i = 0; i < n; i++) w(i) = (i % 2 ? -1 : 1) * (1 + .5 * i);
  for (double sigma : {1., .25}) {
    const VectorXd before = D;
    Eigen::RLDLT<MatrixXd> g = f;
    g.rankUpdate(w, sigma);
    const MatrixXd want = A + sigma * w * w.transpose();
    // Defined while every pivot of the updated matrix is away from zero.
    const MatrixXd W = P * want * P.transpose();
    double least = 1e9;
    MatrixXd S = W;
    for (int k = 0; k < n && least > 1e-6; k++) {
      least = std::min(least, std::fabs(S(k, k)));
      if (least > 1e-6) S.bottomRightCorner(n - k - 1, n - k - 1) -= (S.col(k).tail(n - k - 1) * S.row(k).tail(n - k - 1) / S(k, k)).eval();
    }
    if (least <= 1e-2) continue;
    const MatrixXd got = g.reconstructedMatrix();
    c.check(Worst(got - want) < 1e-9 * condition, "update", [&] { return name + ": updated by " + Str(w.transpose()) + " times " + std::to_string(sigma) + " is " + Str(got); });
    c.judged();
  }
}

// The set operations on sorted lists, and relabelling.
void Lists(Ctx& c, int n) {
  const int a = c.choose(1 << n), b = c.choose(1 << n);
  const auto x = Members(a), y = Members(b);
  vector<int> both = {99};
  conex::IntersectionOfSorted(x, y, &both);
  c.describe(Str(Sets{x, y}));
  c.check(both == Members(a & b), "intersection", Str(Sets{x, y, both}));
  const auto either = conex::UnionOfSorted(x, y);
  c.check(either == Members(a | b), "union", Str(Sets{x, y, either}));
  vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  for (int r = c.choose(6); r > 0; r--) std::next_permutation(p.begin(), p.end());
  Sets path = {x, y}, want = path;
  for (auto& q : want)
    for (auto& v : q) v = p[v];
  auto got = conex::Permute(path, p);
  c.check(got == want && path == (Sets{x, y}), "permute", Str(got));
  conex::Sort(&got);
  for (auto& q : want) std::sort(q.begin(), q.end());
  c.check(got == want, "sort", Str(got));
  c.judged(4);
  if (a & b) c.nontrivial();
  c.state(mc::Hash().add(Str(got)));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"families-3x4", [](Ctx& c) { Families(c, 3, 4); }, 2, false, "every sequence of 1-3 cliques on up to 4 variables, every root; definite, indefinite (every diagonal position) and every pattern of diagonal signs"});
  v.push_back({"families-2x5", [](Ctx& c) { Families(c, 2, 5); }, 2, false, "every sequence of 1-2 cliques on up to 5 variables, as above"});
  v.push_back({"families-3x5", [](Ctx& c) { Families(c, 3, 5); }, 2, true, "every sequence of 1-3 cliques on up to 5 variables, as above"});
  v.push_back({"families-4x4", [](Ctx& c) { Families(c, 4, 4); }, 2, true, "every sequence of 1-4 cliques on up to 4 variables, as above"});
  v.push_back({"trees-5", [](Ctx& c) { Trees(c, 5); }, 2, false, "the edges of all labelled trees on 5 vertices, every root"});
  v.push_back({"trees-6", [](Ctx& c) { Trees(c, 6); }, 2, true, "the edges of all labelled trees on 6 vertices, every root"});
  v.push_back({"bands", [](Ctx& c) { Bands(c); }, 3, false, "bands and cycles of width 1-3 on 3-8 (10) variables, relabelled by strides, every root"});
  v.push_back({"clique-trees", [](Ctx& c) { Large(c, false); }, 3, false,
               "trees of 2-8 (thorough 11) cliques on up to 14 (30) variables: 5 shapes, 3 overlaps, 3 positions, 3 numberings, 3 orders, 3 roots; 4 patterns of signs"});
  v.push_back({"grids", [](Ctx& c) { Large(c, true); }, 3, false, "edges or cells of grids and tori up to 4x5 (thorough 5x6), 3 numberings, 3 orders, 3 roots; 4 patterns of signs"});
  v.push_back({"dense-1-3", [](Ctx& c) { Dense(c, 1 + c.choose(3), {0, 1, -1, 2, -3}); }, 2, false, "every symmetric matrix of order 1-3 with entries 0, 1, -1, 2, -3"});
  v.push_back({"dense-4", [](Ctx& c) { Dense(c, 4, {0, 1, -2}); }, 3, false, "every symmetric matrix of order 4 with entries 0, 1, -2"});
  v.push_back({"dense-4-wide", [](Ctx& c) { Dense(c, 4, {0, 1, -1, 2}); }, 3, true, "every symmetric matrix of order 4 with entries 0, 1, -1, 2"});
  v.push_back({"lists", [](Ctx& c) { Lists(c, 5); }, 1, false, "all pairs of subsets of 5 elements, 6 permutations"});
  return mc::Main(argc, argv, v);
}
