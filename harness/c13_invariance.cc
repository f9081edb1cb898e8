// The order of constraints, the labels of variables, their order within a
// constraint, the partition of rows into constraints and zero columns do not
// matter: the central path is the same, so the answer is.
#include "harness/session.h"

using namespace session;

namespace {

const int kQCost = 1 << 12;

struct Piece {
  Cone cone;       // of any kind, equations included
  vector<int> vars;
  MatrixXd Q;      // not empty: a quadratic cost
};

struct Puzzle {
  std::string name;
  int m = 4;
  vector<Piece> pieces;
  VectorXd cost;
  bool solvable = true, line_search = false, quadratic = false, equations = false;
  double tolerance = 1e-5;  // of the answer
};

Piece Linear(vector<int> vars, MatrixXd A, VectorXd c, int kind = zoo::kLinear) {
  Piece p;
  p.cone.kind = kind;
  p.vars = vars;
  for (int i = 0; i < A.cols(); i++) p.cone.A.push_back({A.col(i)});
  p.cone.c = {c};
  return p;
}
Piece Quadratic(vector<int> vars, MatrixXd Q) {
  Piece p;
  p.cone.kind = kQCost;
  p.vars = vars;
  p.Q = Q;
  return p;
}
Piece Round(int kind, vector<int> vars, double r) {
  Part d = Disk(kind, r);
  Piece p;
  p.cone = d.cone;
  p.vars = vars;
  return p;
}
MatrixXd M(int r, int c, std::initializer_list<double> v) {
  MatrixXd m(r, c);
  int i = 0;
  for (double x : v) m(i / c, i % c) = x, i++;
  return m;
}
VectorXd V(std::initializer_list<double> v) {
  VectorXd x(v.size());
  int i = 0;
  for (double e : v) x(i++) = e;
  return x;
}

const vector<Puzzle>& Puzzles() {
  static vector<Puzzle> all = [] {
    vector<Puzzle> v;
    auto add = [&](const std::string& name, vector<Piece> pieces) -> Puzzle& {
      Puzzle p;
      p.name = name;
      p.pieces = pieces;
      p.cost = V({1, -.5, .75, -2});
      p.line_search = true;
      for (auto& x : pieces) {
        if (x.cone.kind == kQCost) p.quadratic = true;
        else if (x.cone.kind == zoo::kEquality) p.equations = true;
        else if (x.cone.kind != zoo::kLinear) p.line_search = false;
      }
      v.push_back(p);
      return v.back();
    };
    MatrixXd pair = M(4, 2, {1, 0, -1, .25, .5, -1, 0, 1}), three = M(3, 2, {1, 1, -1, 0, .5, -1});
    VectorXd four = V({1, 1.5, 1, 2});
    MatrixXd single = M(2, 1, {1, -1});
    VectorXd one = V({1, 2});
    Piece a = Linear({0, 1}, pair, four), b = Linear({1, 2}, pair, four), c = Linear({2, 3}, pair, four), box3 = Linear({3}, single, one), box0 = Linear({0}, single, one);
    add("lp-chain", {a, b, c, box3});
    add("lp-cycle", {a, b, c, Linear({3, 0}, three, V({2, 1, 1}))});
    add("lp-star", {Linear({0, 1}, pair, four), Linear({0, 2}, pair, four), Linear({0, 3}, pair, four), box0});
    Piece sum = Linear({0, 2}, M(1, 2, {1, 2}), V({.25}), zoo::kEquality), twice = Linear({1, 3, 0}, M(2, 3, {1, -1, 0, 0, 1, 1}), V({.1, .2}), zoo::kEquality);
    add("lp-equations", {a, c, sum, twice}).tolerance = 2e-4;
    add("lp-dual-equations", {a, b, c, Linear({3}, M(1, 1, {1}), V({.5}), zoo::kEquality)}).tolerance = 2e-4;
    add("qp", {a, Quadratic({1, 2}, M(2, 2, {2, .5, .5, 1})), Linear({2, 3}, pair, four), Quadratic({3}, M(1, 1, {1.5}))});
    add("qp-equation", {a, c, Quadratic({0, 3}, M(2, 2, {1, 0, 0, 2})), sum}).tolerance = 2e-4;
    add("soc", {Round(zoo::kSOC, {0, 1}, 1), Round(zoo::kSOC, {1, 2}, 1.25), Round(zoo::kSOC, {2, 3}, 1), box3});
    add("quadratic-cone", {Round(zoo::kQuad, {0, 1}, 1), Round(zoo::kQuad, {2, 1}, 1.25), b, Round(zoo::kSOC, {0, 3}, 1.5)});
    add("lmi", {Round(zoo::kReal, {0, 1}, 1), Round(zoo::kDense, {1, 2}, 1.25), Round(zoo::kDense, {3, 2}, 1), box0});
    add("hermitian", {Round(zoo::kComplex, {0, 1}, 1), Round(zoo::kQuaternion, {1, 2}, 1.25), Round(zoo::kReal, {2, 3}, 1), box0});
    add("mixed", {Round(zoo::kSOC, {0, 1}, 1), Round(zoo::kComplex, {3, 1}, 1.25), c, Round(zoo::kDense, {2, 0}, 1)});
    add("mixed-equation", {Round(zoo::kSOC, {0, 1}, 1), Round(zoo::kDense, {2, 3}, 1.25), sum, c}).tolerance = 2e-4;
    add("infeasible", {a, b, c, Linear({3, 0}, M(3, 2, {1, 1, -1, -1, 0, 1}), V({-1, .5, 1}))}).solvable = false;
    add("unbounded", {a, b, Linear({2, 3}, M(2, 2, {1, 0, -1, 0}), V({1, 1})), Linear({3}, M(1, 1, {1}), V({1}))}).solvable = false;
    v.back().cost = V({1, -.5, .75, 1});
    return v;
  }();
  return all;
}

bool AddTo(conex::Program* p, const Piece& x) {
  if (x.cone.kind == kQCost) return p->AddQuadraticCost(x.Q, x.vars) == CONEX_SUCCESS;
  return x.cone.Add(p, x.vars) == CONEX_SUCCESS;
}

Outcome SolvePieces(const Puzzle& z, const vector<Piece>& pieces, const VectorXd& cost, const conex::SolverConfiguration& k, vector<VectorXd>* duals) {
  conex::Program p(z.m);
  for (auto& x : pieces)
    if (!AddTo(&p, x)) {}
  p.AddLinearCost(cost);
  srand(7);
  return Run(&p, k);
}

struct Style {
  const char* name;
  bool line_search_only;
  void (*set)(conex::SolverConfiguration*);
};
const Style kStyles[] = {
    {"default", false, [](conex::SolverConfiguration*) {}},
    {"line search", true, [](conex::SolverConfiguration* k) { k->enable_line_search = 1, k->enable_rescaling = 0; }},
    {"qr", false, [](conex::SolverConfiguration* k) { k->kkt_solver = 2; }},
    {"unscaled, refined", false, [](conex::SolverConfiguration* k) { k->enable_rescaling = 0, k->iterative_refinement_iterations = 1; }},
};

conex::SolverConfiguration ConfigOf(const Puzzle& z, int style) {
  conex::SolverConfiguration k;
  k.max_iterations = 60;
  if (z.quadratic) k.enable_line_search = 1, k.enable_rescaling = 0;
  kStyles[style].set(&k);
  return k;
}

// The untransformed answer.
const Outcome& Reference(const Puzzle& z, int style) {
  static std::map<std::pair<const void*, int>, Outcome> known;
  auto key = std::make_pair((const void*)&z, style);
  auto it = known.find(key);
  if (it == known.end()) it = known.emplace(key, SolvePieces(z, z.pieces, z.cost, ConfigOf(z, style), nullptr)).first;
  return it->second;
}

vector<int> Permutation(Ctx& c, int n) {
  vector<int> left(n), p;
  for (int i = 0; i < n; i++) left[i] = i;
  while (!left.empty()) {
    int i = c.choose(left.size());
    p.push_back(left[i]);
    left.erase(left.begin() + i);
  }
  return p;
}

std::string List(const vector<int>& v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + std::to_string(v[i]);
  return s + ")";
}

// The variables of the piece in another order.
Piece Reordered(const Piece& x, const vector<int>& order) {
  Piece y = x;
  for (size_t i = 0; i < order.size(); i++) {
    y.vars[i] = x.vars[order[i]];
    if (x.cone.kind == kQCost) {
      for (size_t j = 0; j < order.size(); j++) y.Q(i, j) = x.Q(order[i], order[j]);
    } else y.cone.A[i] = x.cone.A[order[i]];
  }
  return y;
}

Piece Padded(const Piece& x, const vector<int>& extra, bool front) {
  Piece y = x;
  for (int e : extra) {
    int at = front ? 0 : y.vars.size();
    y.vars.insert(y.vars.begin() + at, e);
    if (x.cone.kind == kQCost) {
      MatrixXd Q = MatrixXd::Zero(y.Q.rows() + 1, y.Q.rows() + 1);
      Q.block(front, front, y.Q.rows(), y.Q.rows()) = y.Q;
      y.Q = Q;
    } else {
      Elem zero = x.cone.c;
      for (auto& m : zero) m.setZero();
      y.cone.A.insert(y.cone.A.begin() + at, zero);
    }
  }
  return y;
}

Piece Rows(const Piece& x, const vector<int>& rows) {
  Piece y = x;
  auto take = [&](MatrixXd* m) {
    MatrixXd t(rows.size(), 1);
    for (size_t i = 0; i < rows.size(); i++) t(i) = (*m)(rows[i]);
    *m = t;
  };
  for (auto& a : y.cone.A) take(&a[0]);
  take(&y.cone.c[0]);
  return y;
}

enum Change { kOrder = 1, kLabels = 2, kWithin = 4, kPad = 8, kSplit = 16 };

void Case(Ctx& c, const Puzzle& z, int changes, int styles) {
  int style = 0;
  {
    vector<int> usable;
    for (int s = 0; s < styles; s++)
      if (!kStyles[s].line_search_only || z.line_search)
        if (!(s == 3 && z.equations)) usable.push_back(s);
    style = c.among(usable);
  }
  std::string tale = z.name + ", " + kStyles[style].name;
  vector<Piece> pieces;
  if (changes & kSplit) {
    for (size_t k = 0; k < z.pieces.size(); k++) {
      auto& x = z.pieces[k];
      if (x.cone.kind == kQCost) {
        int how = c.choose(3);  // whole, halves, or a diagonal part and the rest
        if (how == 0) pieces.push_back(x);
        else {
          Piece a = x, b = x;
          if (how == 1) a.Q *= .5, b.Q *= .5;
          else a.Q = MatrixXd(x.Q.diagonal().asDiagonal()) * .25, b.Q = x.Q - a.Q;
          pieces.push_back(a);
          pieces.push_back(b);
          tale += ", cost " + std::to_string(k) + " split";
        }
        continue;
      }
      if (!(x.cone.kind & (zoo::kLinear | zoo::kEquality))) {
        pieces.push_back(x);
        continue;
      }
      // Every partition of its rows.
      vector<vector<int>> blocks;
      for (int r = 0; r < x.cone.rows(); r++) {
        int b = c.choose(blocks.size() + 1);
        if (b == (int)blocks.size()) blocks.push_back({});
        blocks[b].push_back(r);
      }
      tale += ", rows";
      for (auto& b : blocks) {
        pieces.push_back(Rows(x, b));
        tale += List(b);
      }
    }
  } else pieces = z.pieces;
  if (changes & kWithin)
    for (auto& x : pieces) {
      auto order = Permutation(c, x.vars.size());
      x = Reordered(x, order);
      tale += ", columns" + List(order);
    }
  if (changes & kPad) {
    bool front = c.flip();
    for (auto& x : pieces) {
      vector<int> extra;
      for (int v = 0; v < z.m; v++)
        if (std::find(x.vars.begin(), x.vars.end(), v) == x.vars.end() && c.flip()) extra.push_back(v);
      x = Padded(x, extra, front);
      if (!extra.empty()) tale += ", zero columns" + List(extra) + (front ? " first" : " last");
    }
  }
  VectorXd cost = z.cost;
  vector<int> label(z.m);
  for (int i = 0; i < z.m; i++) label[i] = i;
  if (changes & kLabels) {
    label = Permutation(c, z.m);
    for (auto& x : pieces)
      for (auto& v : x.vars) v = label[v];
    for (int i = 0; i < z.m; i++) cost(label[i]) = z.cost(i);
    tale += ", labels" + List(label);
  }
  if (changes & kOrder) {
    vector<int> order;
    if (pieces.size() <= 4) order = Permutation(c, pieces.size());
    else {
      // Rotations and the reversal.
      int n = pieces.size(), how = c.choose(n + 1);
      for (int i = 0; i < n; i++) order.push_back(how == n ? n - 1 - i : (i + how) % n);
    }
    vector<Piece> q;
    for (int i : order) q.push_back(pieces[i]);
    pieces = q;
    tale += ", order" + List(order);
  }
  c.describe(tale);
  const Outcome& want = Reference(z, style);
  Outcome got = SolvePieces(z, pieces, cost, ConfigOf(z, style), nullptr);
  VectorXd y = got.y;
  for (int i = 0; i < z.m; i++) y(i) = got.y(label[i]);
  c.check(want.solved == z.solvable, "reference", z.name + ": the program itself is " + Str(want));
  c.check(got.solved == want.solved, "status", std::string("reported ") + (got.solved ? "solved" : "not solved"));
  c.check(got.status.primal_infeasible == want.status.primal_infeasible && got.status.dual_infeasible == want.status.dual_infeasible, "flags", "infeasibility flags differ");
  if (want.solved) {
    double error = (y - want.y).cwiseAbs().maxCoeff(), value = std::fabs(z.cost.dot(y - want.y));
    std::ostringstream s;
    s.precision(9);
    s << "answer [" << y.transpose() << "] instead of [" << want.y.transpose() << "]";
    c.check(error <= z.tolerance, "answer", s.str());
    double scale = std::pow(10, std::ceil(std::log10(error + 1e-18)));
    if (scale > 1e-8) c.count("differences_below_" + std::to_string(scale));
  }
  c.judged(4);
  if (pieces.size() != z.pieces.size() || changes) c.nontrivial();
  mc::Hash h;
  for (auto& x : pieces) h.add(x.vars).add(x.cone.kind);
  c.state(h.add(style));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  for (auto& z : Puzzles()) {
    auto add = [&](const char* name, int changes, int styles, bool thorough, const char* bounds) {
      v.push_back({std::string(name) + "-" + z.name, [&z, changes, styles](Ctx& c) { Case(c, z, changes, styles); }, 4, thorough, bounds});
    };
    add("relabel", kOrder | kLabels, 4, false, "every order of the constraints and every labelling of the variables, four configurations");
    add("columns", kOrder | kWithin, 2, false, "every order of the constraints and of the variables within each");
    add("pad", kPad, 2, false, "every set of zero columns in every constraint");
    add("split", kSplit, 2, false, "every partition of the rows of every linear constraint into constraints");
    add("pad-relabel", kPad | kLabels, 1, true, "zero columns and labels");
    add("split-order", kSplit | kOrder, 1, true, "partitions and orders");
    add("all", kOrder | kLabels | kWithin, 1, true, "orders, labels and columns");
  }
  return mc::Main(argc, argv, v);
}
