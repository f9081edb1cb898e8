// Small linear programs shared by the checks of linear programming properties.
#pragma once
#include "harness/solve_common.h"

namespace sc {

struct Row {
  VectorXd a;
  double b;
};

// Candidate rows in m variables (first the box, then slanted ones).
inline vector<Row> RowAlphabet(int m, bool deep) {
  vector<Row> r;
  auto add = [&](std::initializer_list<double> a, double b) {
    VectorXd v(m);
    int i = 0;
    for (double x : a) v(i++) = x;
    r.push_back({v, b});
  };
  if (m == 1) {
    for (double b : {1., 0., -1., 2., 3., .5}) add({1}, b), add({-1}, b);
    add({2}, 1), add({-.1}, 1), add({10}, 4), add({0}, 1), add({0}, -1);
  } else if (m == 2) {
    add({1, 0}, 1), add({-1, 0}, 1), add({0, 1}, 1), add({0, -1}, 1);
    add({1, 1}, 1), add({1, -1}, 0), add({-1, -1}, 1), add({-1, 2}, 2), add({-1, 0}, -2), add({-1, -1}, -3), add({0, -1}, 0);
    if (deep) add({3, 1}, 2), add({0, 0}, 1), add({-1, 1}, -2), add({.1, -.1}, 1);
  } else {
    add({1, 0, 0}, 1), add({-1, 0, 0}, 1), add({0, 1, 0}, 1), add({0, -1, 0}, 1), add({0, 0, 1}, 1), add({0, 0, -1}, 1);
    add({1, 1, 1}, 1), add({-1, -1, -1}, 0), add({1, -1, 0}, 1), add({0, 1, -2}, 1), add({-1, -1, -1}, -5);
  }
  return r;
}

// A subset (in increasing order, so that every set is met once) of the
// alphabet, split into `groups` constraint objects.
struct LPCase {
  LP lp;
  vector<int> rows;
  vector<int> split;  // rows per constraint object
};

inline LPCase ReadLP(Ctx& c, int m, int min_rows, int max_rows, const vector<double>& costs, bool deep, bool splits) {
  auto al = RowAlphabet(m, deep);
  LPCase k;
  int n = c.range(min_rows, max_rows), last = 0;
  k.lp.A.resize(n, m);
  k.lp.b.resize(n);
  for (int i = 0; i < n; i++) {
    c.require(last < (int)al.size());
    int j = c.range(last, (int)al.size() - 1);
    last = j + 1;
    k.rows.push_back(j);
    k.lp.A.row(i) = al[j].a.transpose();
    k.lp.b(i) = al[j].b;
  }
  k.lp.c.resize(m);
  for (int i = 0; i < m; i++) k.lp.c(i) = c.among(costs);
  k.lp.E.resize(0, m);
  k.lp.d.resize(0);
  switch (splits && n > 1 ? c.choose(3) : 0) {
    case 0: k.split = {n}; break;
    case 1: k.split = {1, n - 1}; break;
    default: break;  // one constraint per row, over the variables it mentions
  }
  return k;
}

inline void AddRows(conex::Program* p, const LPCase& k) {
  int at = 0;
  if (k.split.empty()) {
    for (int i = 0; i < k.lp.A.rows(); i++) {
      vector<int> vars;
      for (int j = (int)k.lp.A.cols() - 1; j >= 0; j--)
        if (k.lp.A(i, j) != 0) vars.push_back(j);
      if (vars.empty()) vars = {0};
      MatrixXd row(1, vars.size());
      for (size_t j = 0; j < vars.size(); j++) row(0, j) = k.lp.A(i, vars[j]);
      p->AddConstraint(conex::LinearConstraint(row, MatrixXd(k.lp.b.segment(i, 1))), vars);
    }
  }
  for (int s : k.split) {
    p->AddConstraint(conex::LinearConstraint(MatrixXd(k.lp.A.middleRows(at, s)), MatrixXd(k.lp.b.segment(at, s))));
    at += s;
  }
}

struct Mode {
  const char* name;
  conex::SolverConfiguration config;
};
inline vector<Mode> Modes() {
  vector<Mode> v;
  conex::SolverConfiguration d;
  d.max_iterations = 100;
  v.push_back({"default", d});
  auto e = d;
  e.enable_line_search = 1;
  v.push_back({"line-search", e});
  e = d;
  e.enable_rescaling = 0;
  v.push_back({"no-rescaling", e});
  e = d;
  e.kkt_solver = 2;
  v.push_back({"qr", e});
  e = d;
  e.enable_line_search = 1;
  e.enable_rescaling = 0;
  e.iterative_refinement_iterations = 2;
  v.push_back({"line-search-refined-no-rescaling", e});
  e = d;
  e.inv_sqrt_mu_max = 300;
  e.initial_centering_steps_coldstart = 2;
  e.prepare_dual_variables = 1;
  v.push_back({"coarse-centered-duals", e});
  return v;
}

}  // namespace sc
