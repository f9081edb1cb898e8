// Larger families of cliques: clique trees of several shapes and grids, with
// the variables numbered and the cliques ordered in several ways.
#pragma once
#include <algorithm>
#include <numeric>
#include <set>
#include <string>
#include <vector>

#include "mc/explore.h"

namespace families {

struct Family {
  int n = 0;
  std::vector<std::vector<int>> cliques;  // in no particular order inside
  std::string name;
};

inline int Coprime(int n, int which) {
  if (which == 0 || n < 3) return 1;
  if (which == 1) return n - 1;
  for (int k = n / 2 + 1; k < n; k++)
    if (std::gcd(k, n) == 1 && k != n - 1) return k;
  return 1;
}

inline void Arrange(mc::Ctx& c, Family* f, int labels, int orders) {
  const int label = c.choose(labels), order = c.choose(orders), k = f->cliques.size();
  const int s = Coprime(f->n, label), t = Coprime(k, order);
  std::vector<std::vector<int>> r;
  for (int i = 0; i < k; i++) {
    auto q = f->cliques[i * t % k];
    for (int& x : q) x = x * s % f->n;
    r.push_back(q);
  }
  f->cliques = r;
  f->name += " numbering " + std::to_string(s) + " order " + std::to_string(t);
}

inline Family CliqueTree(mc::Ctx& c, bool deep) {
  static const std::vector<int> nodes_q{2, 3, 5, 8}, nodes_d{2, 3, 4, 5, 6, 7, 8, 11}, sizes_q{2, 3, 5, 9}, sizes_d{2, 3, 4, 5, 6, 7, 9, 12};
  Family f;
  const int nodes = c.among(deep ? nodes_d : nodes_q), size = c.among(deep ? sizes_d : sizes_q), shape = c.choose(5);
  int overlap = c.choose(3), from = c.choose(3);
  c.require(!(overlap > 0 && size == 2) && !(overlap == 2 && size == 3));
  overlap = overlap == 0 ? 1 : overlap == 1 ? 2 : size - 1;
  f.name = "clique tree of " + std::to_string(nodes) + " cliques of " + std::to_string(size) + ", shape " + std::to_string(shape) + ", overlap " + std::to_string(overlap) + " from " + std::to_string(from);
  for (int i = 0; i < nodes; i++) {
    std::vector<int> q;
    if (i) {
      const int parent = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : shape == 3 ? (i % 2 ? i - 1 : std::max(0, i - 2)) : i * 5 % i;
      const auto& p = f.cliques[parent];
      for (int j = 0; j < overlap; j++) q.push_back(p[from == 0 ? j : from == 1 ? p.size() - 1 - j : (j * 2 + i) % p.size()]);
      std::set<int> distinct(q.begin(), q.end());
      q.assign(distinct.begin(), distinct.end());
    }
    while ((int)q.size() < size) q.push_back(f.n++);
    f.cliques.push_back(q);
  }
  Arrange(c, &f, 3, 3);
  return f;
}

// Edges or cells of a grid: much fill-in.
inline Family Grid(mc::Ctx& c, bool deep) {
  Family f;
  const int a = c.range(2, deep ? 5 : 4), b = c.range(a, deep ? 6 : 5), cells = c.flip(), torus = c.flip();
  c.require(!torus || a > 2);
  f.n = a * b;
  f.name = std::string(cells ? "cells" : "edges") + " of the " + std::to_string(a) + "x" + std::to_string(b) + (torus ? " torus" : " grid");
  auto at = [&](int i, int j) { return i % a * b + j % b; };
  for (int i = 0; i < a; i++)
    for (int j = 0; j < b; j++) {
      const bool down = torus || i + 1 < a, right = torus || j + 1 < b;
      if (cells) {
        if (down && right) f.cliques.push_back({at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1)});
      } else {
        if (down) f.cliques.push_back({at(i, j), at(i + 1, j)});
        if (right) f.cliques.push_back({at(i, j), at(i, j + 1)});
      }
    }
  Arrange(c, &f, 3, 3);
  return f;
}

}  // namespace families
