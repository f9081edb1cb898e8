// Chordality test, perfect-order test and elimination ordering on every graph
// within the bounds, against the definitions.
#include <algorithm>
#include <numeric>

#include "conex/elimination_ordering.h"
#include "mc/explore.h"

using mc::Ctx;
using std::vector;
using conex::Matrix;

namespace {

struct Graph {
  int n;
  vector<vector<int>> a;
};

// Definition: eliminating in the order 0..n-1, the later neighbours of every
// vertex are pairwise adjacent.
bool PerfectByDefinition(const Graph& g) {
  for (int i = 0; i < g.n; i++)
    for (int j = i + 1; j < g.n; j++)
      for (int k = j + 1; k < g.n; k++)
        if (g.a[i][j] && g.a[i][k] && !g.a[j][k]) return false;
  return true;
}

// Definition: every cycle of four or more vertices has a chord.  Equivalently
// (Dirac) one can repeatedly remove a vertex whose neighbours form a clique.
bool ChordalByRemoval(const Graph& g) {
  vector<int> alive(g.n, 1);
  for (int left = g.n; left > 0; left--) {
    int found = -1;
    for (int v = 0; v < g.n && found < 0; v++) {
      if (!alive[v]) continue;
      bool ok = true;
      for (int j = 0; j < g.n && ok; j++)
        for (int k = j + 1; k < g.n && ok; k++)
          if (j != v && k != v && alive[j] && alive[k] && g.a[v][j] && g.a[v][k] && !g.a[j][k]) ok = false;
      if (ok) found = v;
    }
    if (found < 0) return false;
    alive[found] = 0;
  }
  return true;
}

// The cycle definition itself, by enumeration of induced cycles.
bool InducedCycleFrom(const Graph& g, vector<int>& path) {
  int s = path[0], e = path.back();
  for (int v = s + 1; v < g.n; v++) {
    if (!g.a[e][v] || std::find(path.begin(), path.end(), v) != path.end()) continue;
    bool chord = false, closes = g.a[v][s] && path.size() >= 2;
    for (size_t i = 1; i + 1 < path.size(); i++) chord |= g.a[v][path[i]];
    if (chord) continue;
    if (closes) {
      if (path.size() >= 3) return true;
      continue;
    }
    path.push_back(v);
    if (InducedCycleFrom(g, path)) return true;
    path.pop_back();
  }
  return false;
}
bool ChordalByCycles(const Graph& g) {
  for (int s = 0; s < g.n; s++) {
    vector<int> path = {s};
    if (InducedCycleFrom(g, path)) return false;
  }
  return true;
}

Matrix Dense(const Graph& g, double diagonal, double weight) {
  Matrix m(g.n, g.n);
  for (int i = 0; i < g.n; i++)
    for (int j = 0; j < g.n; j++) m(i, j) = i == j ? diagonal : g.a[i][j] * weight;
  return m;
}

void Run(Ctx& c, int n, bool orders) {
  Graph g{n, vector<vector<int>>(n, vector<int>(n, 0))};
  std::string s;
  int edges = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++) {
      g.a[i][j] = g.a[j][i] = c.choose(2);
      if (g.a[i][j]) {
        s += std::to_string(j) + "-" + std::to_string(i) + " ";
        edges++;
      }
    }
  int diagonal = c.choose(2);
  c.describe(std::to_string(n) + " vertices, edges " + s + "diagonal " + std::to_string(diagonal));
  bool chordal = ChordalByRemoval(g);
  if (n <= 6) c.check(chordal == ChordalByCycles(g), "oracle", "the two definitions of chordal disagree");
  if (edges >= 4) c.nontrivial();
  Matrix m = Dense(g, diagonal, 1);
  bool got = conex::IsChordal(m);
  c.check(got == chordal, "chordal", std::string("IsChordal says ") + (got ? "yes" : "no"));
  bool perfect = conex::IsPerfectlyOrdered(m);
  c.check(perfect == PerfectByDefinition(g), "perfect", std::string("IsPerfectlyOrdered says ") + (perfect ? "yes" : "no"));
  if (edges) {
    bool weighted = conex::IsPerfectlyOrdered(Dense(g, diagonal * 3, -2.5));
    c.check(weighted == perfect, "perfect-weights", "IsPerfectlyOrdered depends on the values of the nonzeros");
  }
  if (edges) {
    // The nonzero pattern is the graph: magnitudes and signs do not matter for
    // the ordering (IsChordal expects an adjacency matrix of zeros and ones).
    for (int pattern = 0; pattern < 3; pattern++) {
      Matrix w = Dense(g, diagonal * 3, -2.5);
      for (int i = 0; pattern && i < n; i++)
        for (int j = 0; j < i; j++) w(i, j) = w(j, i) = w(i, j) * ((i + j + pattern) % 2 ? -1 : .25);
      if (!chordal) continue;
      auto Pw = conex::EliminationOrdering(w);
      Graph qw = g;
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) qw.a[i][j] = g.a[Pw.indices()[i]][Pw.indices()[j]];
      c.check(PerfectByDefinition(qw), "elimination-weights", "the elimination ordering of a weighted chordal graph has fill-in");
    }
  }
  auto P = conex::EliminationOrdering(m);
  vector<int> seen(n, 0), order;
  for (int i = 0; i < n; i++) {
    int v = P.indices()[i];
    c.check(v >= 0 && v < n && !seen[v], "permutation", "the elimination ordering is not a permutation");
    seen[v] = 1;
    order.push_back(v);
  }
  Graph q = g;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) q.a[i][j] = g.a[order[i]][order[j]];
  if (chordal) {
    c.check(PerfectByDefinition(q), "elimination", "the elimination ordering of a chordal graph has fill-in");
    Matrix permuted = P.transpose() * m * P;
    c.check(conex::IsPerfectlyOrdered(permuted), "elimination-self", "IsPerfectlyOrdered rejects the computed ordering of a chordal graph");
  }
  vector<int> path = {-5};
  bool got2 = conex::IsChordal(m, &path);
  c.check(got2 == chordal, "chordal-path", "IsChordal with a path argument differs");
  // Vertices of maximum row sum.
  Eigen::VectorXd md = conex::MaximumDegreeVertices(m);
  vector<int> expect, have(md.data(), md.data() + md.size());
  Eigen::VectorXd sums = m.rowwise().sum();
  for (int i = 0; i < n; i++)
    if (sums(i) == sums.maxCoeff()) expect.push_back(i);
  if (have != expect) {
    std::string t = "MaximumDegreeVertices returns";
    for (int x : have) t += " " + std::to_string(x);
    t += ", the maximum is attained at";
    for (int x : expect) t += " " + std::to_string(x);
    c.report("max-degree", t);
  }
  mc::Hash h;
  h.add(order).add(chordal).add(perfect);
  for (auto& r : g.a) h.add(r);
  c.state(h);
  c.judged(6);
  if (!chordal) c.count("not_chordal");
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (int n = 1; n <= 7; n++)
    v.push_back({"graphs-" + std::to_string(n), [n](Ctx& c) { Run(c, n, true); }, n >= 5 ? 6 : 1, n == 7,
                 "every labelled graph on " + std::to_string(n) + " vertices, with and without ones on the diagonal"});
  return mc::Main(argc, argv, v);
}
