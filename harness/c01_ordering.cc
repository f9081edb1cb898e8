// Clique elimination orderings: every family of cliques, root and leaf hint
// within the bounds, against the definition of a valid supernodal elimination.
#include <algorithm>
#include <numeric>

#include "conex/clique_ordering.h"
#include "conex/supernodal_solver.h"
#include "conex/tree_utils.h"
#include "harness/families.h"
#include "mc/explore.h"

using mc::Ctx;
using std::vector;
using Sets = vector<vector<int>>;

namespace {

std::string Str(const vector<int>& v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "}";
}
std::string Str(const Sets& v) {
  std::string s;
  for (auto& x : v) s += Str(x) + " ";
  return s;
}

bool Has(const vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }

void JudgeStructure(Ctx& c, const Sets& cliques, const vector<int>& order, const Sets& sn, const Sets& sep,
                    const std::string& where) {
  size_t k = cliques.size();
  c.check(order.size() == k && sn.size() == k && sep.size() == k, "sizes", where + "output sizes differ from number of cliques");
  vector<int> pos(k, -1);
  for (size_t i = 0; i < k; i++) {
    c.check(order[i] >= 0 && order[i] < (int)k && pos[order[i]] < 0, "order-permutation",
            where + "elimination order is not a permutation: " + Str(order));
    pos[order[i]] = i;
  }
  int nv = 0;
  for (auto& q : cliques)
    for (int v : q) nv = std::max(nv, v + 1);
  vector<int> owner(nv, -1);
  for (size_t i = 0; i < k; i++) {
    for (int v : sn[i]) {
      c.check(v >= 0 && v < nv, "supernode-range", where + "supernode holds an unknown variable");
      c.check(owner[v] < 0, "supernodes-disjoint", where + "variable " + std::to_string(v) + " is in two supernodes");
      owner[v] = i;
    }
    c.check(std::is_sorted(sn[i].begin(), sn[i].end()) && std::is_sorted(sep[i].begin(), sep[i].end()),
            "sorted", where + "supernode or separator not sorted");
    for (size_t j = 1; j < sep[i].size(); j++)
      c.check(sep[i][j] != sep[i][j - 1], "separator-duplicate", where + "separator repeats a variable");
  }
  vector<int> used(nv, 0);
  for (auto& q : cliques)
    for (int v : q) used[v] = 1;
  for (int v = 0; v < nv; v++)
    c.check(used[v] == (owner[v] >= 0), "supernodes-cover", where + "supernodes do not partition the variables: " + std::to_string(v));
  for (size_t i = 0; i < k; i++) {
    for (int v : cliques[i])
      c.check(Has(sn[i], v) || Has(sep[i], v), "clique-covered",
              where + "variable " + std::to_string(v) + " of clique " + std::to_string(i) + " is in neither supernode nor separator");
    for (int v : sep[i]) {
      c.check(v >= 0 && v < nv && owner[v] >= 0, "separator-range", where + "separator holds an unknown variable");
      c.check(pos[owner[v]] > pos[i], "separator-later",
              where + "separator variable " + std::to_string(v) + " of clique " + std::to_string(i) + " is eliminated before it");
    }
    // The update of eliminating supernode i must have a place to go: whenever
    // the supernode is not empty, every pair of its separator variables is
    // stored by the supernode that is eliminated first.
    for (int a : sep[i])
      for (int b : sep[i]) {
        int f = pos[owner[a]] <= pos[owner[b]] ? owner[a] : owner[b];
        c.check((Has(sn[f], a) || Has(sep[f], a)) && (Has(sn[f], b) || Has(sep[f], b)), "running-intersection",
                where + "separator pair (" + std::to_string(a) + "," + std::to_string(b) + ") of clique " + std::to_string(i) +
                    " is not stored by supernode " + std::to_string(f));
      }
  }
}

// The permuted representation used for storage.
void JudgeData(Ctx& c, const Sets& cliques, const conex::MatrixData& d) {
  int nv = 0;
  vector<int> used;
  for (auto& q : cliques)
    for (int v : q) nv = std::max(nv, v + 1);
  used.assign(nv, 0);
  for (auto& q : cliques)
    for (int v : q) used[v] = 1;
  int covered = std::accumulate(used.begin(), used.end(), 0);
  c.check(d.N == covered, "data-N", "number of columns is not the number of variables");
  size_t k = cliques.size();
  c.check(d.clique_order.size() == k && d.cliques.size() == k && d.supernode_size.size() == k, "data-sizes", "sizes");
  int start = 0;
  for (size_t e = 0; e < k; e++) {
    const auto& q = d.cliques[e];
    const auto& sn = d.supernodes_original_labels[e];
    const auto& sep = d.separators_original_labels[e];
    c.check(q.size() == sn.size() + sep.size() && d.supernode_size[e] == (int)sn.size(), "data-block", "block sizes");
    for (int i = 0; i < d.supernode_size[e]; i++) {
      c.check(q[i] == start + i, "data-contiguous", "columns of a supernode are not consecutive");
      c.check(d.permutation_inverse.at(q[i]) == sn[i] && d.permutation.at(sn[i]) == q[i], "data-permutation",
              "permutation and its inverse disagree");
    }
    for (size_t i = 0; i < sep.size(); i++) {
      int r = q[d.supernode_size[e] + i];
      c.check(r >= start + d.supernode_size[e], "data-lower", "separator row above the diagonal block");
      c.check(d.permutation.at(sep[i]) == r, "data-separator", "separator labels disagree");
      if (i) c.check(q[d.supernode_size[e] + i - 1] < r, "data-separator-order", "separator rows not increasing");
    }
    start += d.supernode_size[e];
  }
}

vector<int> SubsetOf(int mask) {
  vector<int> s;
  for (int i = 0; i < 30; i++)
    if (mask >> i & 1) s.push_back(i);
  return s;
}

void RunFamily(Ctx& c, const Sets& cliques, int root, const vector<int>& leaf) {
  c.describe("cliques " + Str(cliques) + " root " + std::to_string(root) + " leaf " + Str(leaf));
  int overlaps = 0;
  for (size_t i = 0; i < cliques.size(); i++)
    for (size_t j = 0; j < i; j++)
      for (int v : cliques[i]) overlaps += Has(cliques[j], v);
  if (overlaps) c.nontrivial();
  Sets sn, sep;
  vector<int> order;
  if (leaf.empty())
    conex::PickCliqueOrder(cliques, root, &order, &sn, &sep);
  else
    conex::PickCliqueOrder(cliques, leaf, root, &order, &sn, &sep);
  JudgeStructure(c, cliques, order, sn, sep, "");
  if (root >= 0) c.check(order.back() == root, "root-last", "the requested root clique is not eliminated last");
  conex::MatrixData d = leaf.empty() ? conex::GetData(cliques, root) : conex::GetData(cliques, leaf, root);
  JudgeData(c, cliques, d);
  mc::Hash h;
  h.add(order);
  for (auto& x : sn) h.add(x);
  for (auto& x : sep) h.add(x);
  c.state(h);
  c.judged(2);
}

// All sequences of k nonempty subsets of n variables.
void Families(Ctx& c, int n, int k, bool leaf_hints) {
  Sets cliques;
  for (int i = 0; i < k; i++) cliques.push_back(SubsetOf(1 + c.choose((1 << n) - 1)));
  int root = c.choose(k + 1) - 1;
  vector<int> leaf;
  if (leaf_hints && c.flip())
    for (int i = 0; i < k; i++) leaf.push_back(c.choose(2));
  RunFamily(c, cliques, root, leaf);
}

// Cliques are the edges of a graph (long chains, cycles, stars): the families
// with the most fill-in.
void Graphs(Ctx& c, int n, int kmin, bool reverse) {
  Sets cliques;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
      if (c.flip()) cliques.push_back({i, j});
  c.require((int)cliques.size() >= kmin);
  if (reverse && c.flip()) std::reverse(cliques.begin(), cliques.end());
  int root = c.choose((int)cliques.size() + 1) - 1;
  vector<int> leaf;
  if (c.flip()) {
    // The solver's own use: one clique may not be a leaf.
    int b = c.choose((int)cliques.size());
    for (size_t i = 0; i < cliques.size(); i++) leaf.push_back((int)i != b);
  }
  RunFamily(c, cliques, root, leaf);
}

void Large(Ctx& c, bool grid) {
  auto f = grid ? families::Grid(c, c.thorough) : families::CliqueTree(c, c.thorough);
  for (auto& q : f.cliques) std::sort(q.begin(), q.end());
  int root = c.choose((int)f.cliques.size() + 1) - 1;
  vector<int> leaf;
  if (c.flip()) {
    int b = c.choose((int)f.cliques.size());
    for (size_t i = 0; i < f.cliques.size(); i++) leaf.push_back((int)i != b);
  }
  RunFamily(c, f.cliques, root, leaf);
}

// Every labelled rooted tree whose parents have smaller labels, every pair.
void Trees(Ctx& c, int nmax) {
  int n = c.range(1, nmax);
  vector<int> parent(n), depth(n);
  for (int i = 1; i < n; i++) {
    parent[i] = c.choose(i);
    depth[i] = depth[parent[i]] + 1;
  }
  c.nontrivial();
  c.describe("parents " + Str(parent));
  // All labelings would only rename; two labelings guard against dependence
  // on parents being smaller.
  for (int rev = 0; rev < 2; rev++) {
    vector<int> p(n), d(n);
    auto L = [&](int i) { return rev ? n - 1 - i : i; };
    for (int i = 0; i < n; i++) {
      p[L(i)] = L(parent[i]);
      d[L(i)] = depth[i];
    }
    for (int x = 0; x < n; x++)
      for (int y = 0; y < n; y++) {
        vector<int> path = conex::PathInTree(x, y, p, d);
        // Reference: ancestors.
        vector<int> ax, ay;
        for (int v = x;; v = p[v]) { ax.push_back(v); if (v == p[v]) break; }
        for (int v = y;; v = p[v]) { ay.push_back(v); if (v == p[v]) break; }
        int lca = -1;
        for (int v : ax)
          if (Has(ay, v)) { lca = v; break; }
        std::set<int> want;
        for (int v : ax) { want.insert(v); if (v == lca) break; }
        for (int v : ay) { want.insert(v); if (v == lca) break; }
        c.check(std::set<int>(path.begin(), path.end()) == want && path.size() == want.size(), "path-in-tree",
                "path from " + std::to_string(x) + " to " + std::to_string(y) + " is " + Str(path));
        c.check(path.back() == lca, "path-apex", "path does not end in the node closest to the root");
        c.judged();
        c.state(mc::Hash().add(path).add(p));
      }
  }
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> s;
  auto fam = [&](int n, int k, bool leaf, bool deep) {
    s.push_back({"families_n" + std::to_string(n) + "_k" + std::to_string(k) + (leaf ? "_leaf" : ""),
                 [=](Ctx& c) { Families(c, n, k, leaf); }, 2, deep,
                 "all sequences of " + std::to_string(k) + " nonempty cliques over " + std::to_string(n) + " variables x all roots" +
                     (leaf ? " x all leaf hints" : "")});
  };
  fam(3, 1, true, false);
  fam(3, 2, true, false);
  fam(4, 2, true, false);
  fam(3, 3, true, false);
  fam(4, 3, true, false);
  fam(3, 4, true, false);
  fam(5, 3, true, false);
  fam(4, 4, false, false);
  fam(3, 5, false, false);
  fam(4, 4, true, true);
  fam(6, 3, true, true);
  fam(5, 4, false, true);
  fam(3, 5, true, true);
  fam(4, 5, false, true);
  fam(3, 6, false, true);
  s.push_back({"graphs_n5", [](Ctx& c) { Graphs(c, 5, 1, true); }, 4, false,
               "every graph on 5 vertices, edges as cliques (two orders) x roots x position of one non-leaf"});
  s.push_back({"graphs_n6", [](Ctx& c) { Graphs(c, 6, 1, false); }, 6, true,
               "every graph on 6 vertices, edges as cliques x roots x position of one non-leaf"});
  s.push_back({"trees", [](Ctx& c) { Trees(c, c.pick(7, 8)); }, 3, false, "every rooted tree with <= 7 (8) nodes, every pair of nodes"});
  s.push_back({"clique-trees", [](Ctx& c) { Large(c, false); }, 4, false,
               "trees of 2-8 (thorough 11) cliques of 2-9 (12) variables: 5 shapes, 3 overlaps, 3 positions, 3 numberings, 3 orders x roots x position of one non-leaf"});
  s.push_back({"grids", [](Ctx& c) { Large(c, true); }, 4, false,
               "edges or cells of grids and tori up to 4x5 (thorough 5x6), 3 numberings, 3 orders x roots x position of one non-leaf"});
  return mc::Main(argc, argv, s);
}
