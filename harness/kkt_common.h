// A constraint whose block of the system is prescribed, so that the assembled
// system has a known value, and helpers to enumerate systems of them.
#pragma once
#include <algorithm>
#include <memory>

#include "conex/cone_program.h"
#include "harness/families.h"
#include "mc/explore.h"

namespace kkt {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using mc::Ctx;
using std::vector;
using Sets = vector<vector<int>>;

struct Block {
  MatrixXd G;
  VectorXd AW, AQc;
  double wc = 0, cqc = 0;
};

struct GivenWorkspace {
  Eigen::Map<MatrixXd, Eigen::Aligned> W{NULL, 0, 0};
  friend int SizeOf(const GivenWorkspace&) { return 0; }
  friend void Initialize(GivenWorkspace*, double*) {}
  friend void print(const GivenWorkspace&) {}
};

class Given {
 public:
  explicit Given(std::shared_ptr<Block> b) : b_(b) {}
  std::shared_ptr<Block> b_;
  GivenWorkspace w_;
  GivenWorkspace* workspace() { return &w_; }
  int number_of_variables() { return b_->G.rows(); }
  friend int Rank(const Given&) { return 1; }
  friend void SetIdentity(Given*) {}
  friend void PrepareStep(Given*, const conex::StepOptions&, const conex::Ref&, conex::StepInfo*) {}
  friend bool TakeStep(Given*, const conex::StepOptions&) { return true; }
  friend void GetWeightedSlackEigenvalues(Given*, const conex::Ref&, double, conex::WeightedSlackEigenvalues*) {}
  friend void ConstructSchurComplementSystem(Given* o, bool initialize, conex::SchurComplementSystem* s) {
    if (initialize) {
      s->G = o->b_->G;
      s->AW = o->b_->AW;
      s->AQc = o->b_->AQc;
      s->inner_product_of_w_and_c = o->b_->wc;
      s->inner_product_of_c_and_Qc = o->b_->cqc;
    } else {
      s->G += o->b_->G;
      s->AW += o->b_->AW;
      s->AQc += o->b_->AQc;
      s->inner_product_of_w_and_c += o->b_->wc;
      s->inner_product_of_c_and_Qc += o->b_->cqc;
    }
  }
};

inline std::string Str(const vector<int>& v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + ")";
}

// Numbers that make every sum of distinct contributions distinct enough for an
// exchanged, dropped or repeated contribution to show, and exact in a double.
struct Numbers {
  long long s = 12345;
  double next() {
    s = (s * 6364136223846793005LL + 1442695040888963407LL) & 0x7fffffffffffffffLL;
    return double((s >> 33) % 2000003) - 1000001;
  }
};

struct Item {
  vector<int> vars;
  int eq = 0;  // number of equality rows, 0: ordinary constraint
  std::shared_ptr<Block> block;
  MatrixXd A, b;
};

struct System {
  int n = 0;
  vector<Item> items;
  int size() const {
    int s = n;
    for (auto& i : items) s += i.eq;
    return s;
  }
  std::string str() const {
    std::string s = "n=" + std::to_string(n) + " ";
    for (auto& i : items) s += (i.eq ? "eq" + std::to_string(i.eq) : std::string()) + Str(i.vars) + " ";
    return s;
  }
  // The oracle: dense sum of the scattered blocks.
  void Dense(MatrixXd* K, VectorXd* AW, VectorXd* AQc, double* wc, double* cqc) const {
    int N = size(), d = n;
    *K = MatrixXd::Zero(N, N);
    *AW = VectorXd::Zero(N);
    *AQc = VectorXd::Zero(N);
    *wc = *cqc = 0;
    for (auto& it : items) {
      int k = it.vars.size();
      if (it.eq) {
        for (int r = 0; r < it.eq; r++) {
          for (int j = 0; j < k; j++) {
            (*K)(d + r, it.vars[j]) += it.A(r, j);
            (*K)(it.vars[j], d + r) += it.A(r, j);
          }
          (*AQc)(d + r) += it.b(r, 0);
        }
        d += it.eq;
      } else {
        for (int i = 0; i < k; i++) {
          for (int j = 0; j < k; j++) (*K)(it.vars[i], it.vars[j]) += it.block->G(i, j);
          (*AW)(it.vars[i]) += it.block->AW(i);
          (*AQc)(it.vars[i]) += it.block->AQc(i);
        }
        *wc += it.block->wc;
        *cqc += it.block->cqc;
      }
    }
  }
};

inline void Fill(Item* it, Numbers* num) {
  int k = it->vars.size();
  if (it->eq) {
    it->A.resize(it->eq, k);
    it->b.resize(it->eq, 1);
    for (int r = 0; r < it->eq; r++) {
      for (int j = 0; j < k; j++) it->A(r, j) = num->next();
      it->b(r, 0) = num->next();
    }
    return;
  }
  if (!it->block) it->block = std::make_shared<Block>();
  Block& b = *it->block;
  b.G.resize(k, k);
  b.AW.resize(k);
  b.AQc.resize(k);
  for (int i = 0; i < k; i++) {
    for (int j = 0; j <= i; j++) b.G(i, j) = b.G(j, i) = num->next();
    b.AW(i) = num->next();
    b.AQc(i) = num->next();
  }
  b.wc = num->next();
  b.cqc = num->next();
}

inline void AddTo(conex::Program* p, const Item& it) {
  if (it.eq)
    p->AddConstraint(conex::EqualityConstraints(it.A, it.b), it.vars);
  else
    p->AddConstraint(Given(it.block), it.vars);
}

inline bool Covers(const System& s) {
  vector<int> u(s.n, 0);
  for (auto& i : s.items)
    for (int v : i.vars) u[v] = 1;
  return std::count(u.begin(), u.end(), 0) == 0;
}

// All ordered tuples of distinct variables of 0..n-1, nonempty, simplest first.
inline const Sets& Tuples(int n) {
  static std::map<int, Sets> cache;
  Sets& out = cache[n];
  if (!out.empty()) return out;
  Sets level = {{}};
  for (int len = 1; len <= n; len++) {
    Sets next;
    for (auto& t : level)
      for (int v = 0; v < n; v++)
        if (std::find(t.begin(), t.end(), v) == t.end()) {
          auto u = t;
          u.push_back(v);
          next.push_back(u);
        }
    out.insert(out.end(), next.begin(), next.end());
    level = next;
  }
  return out;
}
// Nonempty subsets; each ascending, and (two or more elements) descending and
// rotated once.
inline const Sets& SubsetOrders(int n, int kinds) {
  static std::map<int, Sets> cache;
  Sets& out = cache[n * 4 + kinds];
  if (!out.empty()) return out;
  for (int m = 1; m < (1 << n); m++) {
    vector<int> s;
    for (int i = 0; i < n; i++)
      if (m >> i & 1) s.push_back(i);
    out.push_back(s);
    if (kinds > 1 && s.size() > 1) out.push_back(vector<int>(s.rbegin(), s.rend()));
    if (kinds > 2 && s.size() > 2) {
      auto r = s;
      std::rotate(r.begin(), r.begin() + 1, r.end());
      out.push_back(r);
    }
  }
  std::stable_sort(out.begin(), out.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
  return out;
}

inline int Overlaps(const System& s) {
  int o = 0;
  for (size_t i = 0; i < s.items.size(); i++)
    for (size_t j = 0; j < i; j++)
      for (int v : s.items[i].vars) o += std::count(s.items[j].vars.begin(), s.items[j].vars.end(), v);
  return o;
}

inline mc::Hash HashOf(const MatrixXd& m) {
  mc::Hash h;
  h.add(m.rows());
  h.raw(m.data(), sizeof(double) * m.size());
  return h;
}

inline std::string Show(const MatrixXd& m) {
  std::ostringstream o;
  o << "[";
  for (int i = 0; i < m.rows(); i++) {
    o << (i ? "; " : "");
    for (int j = 0; j < m.cols(); j++) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}

// Larger structures.

// Every graph on n vertices: an edge is a constraint on its two variables, an
// isolated vertex one on its variable.  orient: the edges' variable order.
inline System GraphSystem(Ctx& c, int n, bool with_equality) {
  System s;
  s.n = n;
  int edges = n * (n - 1) / 2;
  int mask = c.choose(1 << edges);
  int reversed = c.choose(2), last_first = c.choose(2);
  vector<int> degree(n, 0);
  int e = 0;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++, e++)
      if (mask >> e & 1) {
        Item it;
        it.vars = reversed ? vector<int>{j, i} : vector<int>{i, j};
        s.items.push_back(it);
        degree[i]++, degree[j]++;
      }
  for (int i = 0; i < n; i++)
    if (!degree[i]) {
      Item it;
      it.vars = {i};
      s.items.push_back(it);
    }
  if (last_first) std::reverse(s.items.begin(), s.items.end());
  if (with_equality) {
    int at = c.choose(1 + (int)s.items.size());
    if (at) {
      Item it = s.items[at - 1];
      it.eq = 1;
      s.items.insert(s.items.begin() + at, it);
    }
  }
  return s;
}

// Every labelled tree on n vertices, from its Pruefer sequence; edges, or the
// neighbourhood of every vertex.
inline System TreeSystem(Ctx& c, int n, bool with_equality) {
  System s;
  s.n = n;
  vector<int> seq(n - 2), degree(n, 1);
  for (int& x : seq) x = c.choose(n), degree[x]++;
  int kind = c.choose(2);
  vector<vector<int>> nb(n);
  auto join = [&](int a, int b) {
    nb[a].push_back(b), nb[b].push_back(a);
    degree[a]--, degree[b]--;
    if (kind == 0) {
      Item it;
      it.vars = {a, b};
      s.items.push_back(it);
    }
  };
  for (int x : seq)
    for (int l = 0; l < n; l++)
      if (degree[l] == 1) {
        join(l, x);
        break;
      }
  int u = -1;
  for (int l = 0; l < n; l++)
    if (degree[l] == 1) {
      if (u >= 0) {
        join(u, l);
        break;
      }
      u = l;
    }
  if (kind == 1)
    for (int v = 0; v < n; v++) {
      Item it;
      it.vars = nb[v];
      it.vars.push_back(v);
      s.items.push_back(it);
    }
  if (with_equality) {
    int at = c.choose(1 + (int)s.items.size());
    if (at) {
      Item it = s.items[at - 1];
      it.eq = 1;
      s.items.push_back(it);
    }
  }
  return s;
}

// Windows of consecutive variables on a path or a ring, the variables numbered
// and the constraints ordered by a stride.
inline System BandSystem(Ctx& c, int n, int max_width, int max_eq) {
  System s;
  s.n = n;
  int width = 2 + c.choose(max_width - 1);
  bool ring = c.flip();
  int step = 1 + c.choose(std::max(1, width - 1));  // how far windows move
  auto stride = [&]() {
    int k = 1 + c.choose(n - 1);
    int a = n, b = k;
    while (b) std::swap(a %= b, b);
    c.require(a == 1);
    return k;
  };
  int label = stride(), order = stride();
  vector<Item> windows;
  for (int i = 0; i < n; i += step) {
    if (!ring && i + 1 >= n) break;
    Item it;
    for (int j = 0; j < width; j++) {
      if (!ring && i + j >= n) break;
      it.vars.push_back((i + j) % n * label % n);
    }
    windows.push_back(it);
  }
  vector<int> done(windows.size(), 0);
  for (int t = 0; t < n; t++) {
    int i = t * order % n;
    if (i < (int)windows.size() && !done[i]) done[i] = 1, s.items.push_back(windows[i]);
  }
  if (max_eq) {
    int rows = c.choose(max_eq + 1);
    if (rows) {
      Item it = s.items[c.choose((int)s.items.size())];
      it.eq = rows;
      s.items.insert(s.items.begin() + (c.flip() ? s.items.size() : 0), it);
    }
  }
  return s;
}

inline System LargeSystem(Ctx& c, bool grid, int max_eq) {
  auto f = grid ? families::Grid(c, c.thorough) : families::CliqueTree(c, c.thorough);
  System s;
  s.n = f.n;
  for (auto& q : f.cliques) {
    Item it;
    it.vars = q;
    s.items.push_back(it);
  }
  if (max_eq) {
    int rows = c.choose(max_eq + 1);
    if (rows) {
      Item it = s.items[s.items.size() / 2];
      it.eq = rows;
      s.items.insert(s.items.begin() + (c.flip() ? s.items.size() : 0), it);
    }
  }
  return s;
}
}  // namespace kkt
