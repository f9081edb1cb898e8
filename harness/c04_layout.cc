// Memory layout: every workspace kind at every small size, every short list of
// constraints in a program (own or caller-supplied memory, every history of
// initialisations), every sequence of operations on a constraint between
// guarded neighbours, and the factor of every small clique family.
#include "harness/zoo.h"

#include "conex/linear_workspace.h"
#include "conex/supernodal_solver.h"
#include "conex/workspace_soc.h"

using namespace zoo;

namespace {

#ifdef __SANITIZE_ADDRESS__
const bool kSanitized = true;
#else
const bool kSanitized = false;
#endif

struct Range {
  const double* p;
  long n;
  std::string name;
  bool aligned;
};
using Ranges = vector<Range>;

template <class M>
void AddMap(Ranges* r, const M& m, const char* name) {
  r->push_back({m.data(), (long)m.size(), name, true});
}
void AddPtr(Ranges* r, const double* p, long n, const char* name) { r->push_back({p, n, name, false}); }

// Only the arrays a workspace has; storage of its own (a MatrixXd) is not in
// shared memory.
template <class M>
struct IsMap : std::false_type {};
template <class P, int A, class S>
struct IsMap<Eigen::Map<P, A, S>> : std::true_type {};

#define FIELD(f)                                                                                   \
  template <class T>                                                                               \
  auto Field_##f(Ranges* r, const T& o, int) -> std::enable_if_t<IsMap<std::decay_t<decltype(o.f)>>::value> { \
    AddMap(r, o.f, #f);                                                                            \
  }                                                                                                \
  template <class T>                                                                               \
  void Field_##f(Ranges*, const T&, long) {}
FIELD(W)
FIELD(temp_1)
FIELD(temp_2)
FIELD(weighted_constraints)
FIELD(W1)
FIELD(temp1_1)
FIELD(temp2_1)
FIELD(temp3_1)
#undef FIELD
template <class T>
auto Field_W0(Ranges* r, const T& o, int) -> decltype((void)*o.W0) {
  AddPtr(r, o.W0, 1, "W0");
}
template <class T>
void Field_W0(Ranges*, const T&, long) {}

template <class T>
Ranges Arrays(const T& o) {
  Ranges r;
  Field_W(&r, o, 0), Field_temp_1(&r, o, 0), Field_temp_2(&r, o, 0), Field_weighted_constraints(&r, o, 0);
  Field_W1(&r, o, 0), Field_temp1_1(&r, o, 0), Field_temp2_1(&r, o, 0), Field_temp3_1(&r, o, 0);
  Field_W0(&r, o, 0);
  return r;
}
Ranges Arrays(const conex::WorkspaceSchurComplement& o) {
  Ranges r;
  AddMap(&r, o.AW, "AW"), AddMap(&r, o.AQc, "AQc");
  if (!o.residual_only_) AddMap(&r, o.G, "G");
  return r;
}
Ranges Arrays(const conex::WorkspaceStats& o) {
  Ranges r;
  AddPtr(&r, o.sqrt_inv_mu, o.max_iter_, "sqrt_inv_mu");
  AddPtr(&r, o.norm_inf_d, o.max_iter_, "norm_inf_d");
  AddPtr(&r, o.c_scaling_, 1, "c_scaling");
  AddPtr(&r, o.b_scaling_, 1, "b_scaling");
  return r;
}

void JudgeLayout(Ctx& c, const Ranges& r, const double* base, long size, const std::string& what) {
  std::less<const double*> lt;
  for (size_t i = 0; i < r.size(); i++) {
    if (!r[i].n) continue;
    std::string who = what + ": " + r[i].name;
    c.check(!lt(r[i].p, base) && !lt(base + size, r[i].p + r[i].n), "outside",
            who + " at " + std::to_string(r[i].p - base) + "+" + std::to_string(r[i].n) + " leaves the declared size " + std::to_string(size));
    if (r[i].aligned) c.check(reinterpret_cast<uintptr_t>(r[i].p) % 16 == 0, "unaligned", who + " is not aligned");
    for (size_t j = 0; j < i; j++)
      if (r[j].n)
        c.check(!lt(r[i].p, r[j].p + r[j].n) || !lt(r[j].p, r[i].p + r[i].n), "overlap", who + " overlaps " + r[j].name);
    c.judged();
  }
}

// ---------------------------------------------------------------- one kind

template <class W>
void JudgeKind(Ctx& c, W&& w, const vector<std::pair<std::string, long>>& want, const std::string& what) {
  int size = SizeOf(w);
  c.check(size >= 0, "size", what + ": negative size");
  vector<double> raw(4 * (size + 64));
  double* base = raw.data();
  while (reinterpret_cast<uintptr_t>(base) % 64) base++;
  for (int off : {0, 4, size + 8 - size % 4}) {
    Initialize(&w, base + off);
    c.check(SizeOf(w) == size, "size-changes", what + ": the size changes when the workspace is initialised");
    auto r = Arrays(w);
    JudgeLayout(c, r, base + off, size, what);
    for (auto& x : want)
      for (auto& a : r)
        if (a.name == x.first) c.check(a.n == x.second, "extent", what + ": " + a.name + " has " + std::to_string(a.n) + " instead of " + std::to_string(x.second) + " entries");
    mc::Hash h;
    h.add(what);
    for (auto& a : r) h.add(a.p - (base + off)).add(a.n);
    c.state(h);
  }
}

void Kinds(Ctx& c) {
  int kind = c.choose(7);
  int n = c.choose(c.pick(26, 80));
  int N = n * n;
  std::string s = std::to_string(n);
  if (n > 1) c.nontrivial();
  switch (kind) {
    case 0: {
      int m = c.choose(c.pick(26, 80));
      c.describe("linear n=" + s + " m=" + std::to_string(m));
      JudgeKind(c, conex::WorkspaceLinear(n, m), {{"W", n}, {"temp_1", n}, {"temp_2", n}, {"weighted_constraints", n * m}}, "WorkspaceLinear(" + s + "," + std::to_string(m) + ")");
      break;
    }
    case 1:
      c.describe("psd n=" + s);
      JudgeKind(c, conex::WorkspaceDensePSD(n), {{"W", N}, {"temp_1", N}, {"temp_2", N}}, "WorkspaceDensePSD(" + s + ")");
      break;
    case 2:
      c.describe("hermitian n=" + s);
      JudgeKind(c, conex::WorkspaceDenseHermitian(n), {{"W", N}, {"temp_1", N}, {"temp_2", N}}, "WorkspaceDenseHermitian(" + s + ")");
      break;
    case 3:
      c.describe("soc n=" + s);
      JudgeKind(c, conex::WorkspaceSOC(n), {{"W1", n}, {"temp1_1", n}, {"temp2_1", n}, {"temp3_1", n}}, "WorkspaceSOC(" + s + ")");
      break;
    case 4: {
      conex::WorkspaceSchurComplement w(n);
      w.residual_only_ = c.flip();
      c.describe("schur n=" + s + " residual_only=" + std::to_string(w.residual_only_));
      JudgeKind(c, w, {{"AW", n}, {"AQc", n}, {"G", N}}, "WorkspaceSchurComplement(" + s + "," + std::to_string(w.residual_only_) + ")");
      break;
    }
    case 5:
      c.describe("stats n=" + s);
      JudgeKind(c, conex::WorkspaceStats(n), {}, "WorkspaceStats(" + s + ")");
      break;
    case 6: {
      // Built directly on given memory.
      bool psd = c.flip();
      c.describe(std::string(psd ? "psd" : "hermitian") + " on given memory n=" + s);
      vector<double> raw(4 * N + 96);
      double* base = raw.data();
      while (reinterpret_cast<uintptr_t>(base) % 64) base++;
      auto judge = [&](auto&& w, const std::string& what) {
        c.check(SizeOf(w) == std::decay_t<decltype(w)>::size_of(n), "size", what + ": wrong size");
        JudgeLayout(c, Arrays(w), base, SizeOf(w), what);
      };
      if (psd) judge(conex::WorkspaceDensePSD(n, base), "WorkspaceDensePSD(" + s + ",data)");
      else judge(conex::WorkspaceDenseHermitian(n, base), "WorkspaceDenseHermitian(" + s + ",data)");
    }
  }
}

// ---------------------------------------------------------------- programs

const int kCost = 1 << 14, kLower = 1 << 15;

struct Spec {
  int kind, n;  // n: rows, order
  std::string str() const { return (kind == kCost ? "quadratic-cost" : kind == kLower ? "lower-bound" : kind == kEpigraph ? "epigraph" : Name(kind)) + std::to_string(n); }
};

// Deterministic data of any size, strictly feasible at the origin.
Cone Make(const Spec& s, int m) {
  Cone x;
  x.kind = s.kind;
  int n = s.n;
  if (s.kind & (kLinear | kEquality)) {
    for (int i = 0; i < m; i++) {
      MatrixXd a(n, 1);
      for (int r = 0; r < n; r++) a(r) = (r * 3 + i * 5 + 1) % 5 - 2 + (r == i ? 4 : 0);
      x.A.push_back({a});
    }
    MatrixXd b(n, 1);
    for (int r = 0; r < n; r++) b(r) = s.kind == kEquality ? 0 : 2 + r % 3;
    x.c = {b};
  } else if (s.kind & (kSOC | kQuad)) {
    for (int i = 0; i < m; i++) {
      MatrixXd a(n + 1, 1);
      for (int r = 0; r <= n; r++) a(r) = (r * 2 + i * 3 + 1) % 4 - 1.5 + (r == i + 1 ? 3 : 0);
      x.A.push_back({a});
    }
    MatrixXd b(n + 1, 1);
    b.setConstant(.25);
    b(0) = n + 3;
    x.c = {b};
    if (s.kind == kQuad && n > 1) x.Q = MatrixXd::Identity(n, n) + .25 * MatrixXd::Ones(n, n);
  } else {
    int d = Dim(s.kind);
    for (int i = 0; i <= m; i++) {
      Elem e(d, MatrixXd::Zero(n, n));
      for (int r = 0; r < n; r++)
        for (int q = 0; q < r; q++)
          for (int k = 0; k < d; k++) {
            double v = ((r * 3 + q * 5 + k * 7 + i * 2) % 5 - 2) * (i == m ? .1 : 1);
            e[k](r, q) += v;
            e[k](q, r) += k ? -v : v;
          }
      for (int r = 0; r < n; r++) e[0](r, r) = i == m ? 4 : (r + i) % 3 - 1 + (r == i ? 3 : 0);
      if (i == m) x.c = e;
      else x.A.push_back(e);
    }
  }
  return x;
}

struct World {
  conex::Program* p = nullptr;
  int m = 0;
  vector<Spec> specs;
  vector<std::function<Ranges()>> arrays;

  template <class T>
  void Put(T&& x, const vector<int>& vars) {
    using D = std::decay_t<T>;
    p->AddConstraint(std::forward<T>(x), vars);
    D* o = std::any_cast<D>(&p->kkt_system_manager_.eqs.back().obj);
    // Hermitian constraints point W to a matrix of their own after a solve.
    bool own = specs.back().kind & kHermitian;
    arrays.push_back([o, own, this] {
      auto r = Arrays(*o->workspace());
      const double* base = p->workspace_data_->data();
      std::less<const double*> lt;
      if (own)
        for (auto& x : r)
          if (x.name == "W" && (lt(x.p, base) || !lt(x.p, base + p->workspace_data_->size()))) x.n = 0;
      return r;
    });
  }
  void Add(const Spec& s, const vector<int>& vars) {
    specs.push_back(s);
    if (s.kind == kCost) {
      p->AddQuadraticCost(MatrixXd::Identity(vars.size(), vars.size()), vars);
      arrays.push_back([] { return Ranges(); });
    } else if (s.kind == kLower) {
      Put(conex::LowerBound(VectorXd::Constant(vars.size(), -2)), vars);
    } else if (s.kind == kEpigraph) {
      Put(conex::QuadraticEpigraph(MatrixXd::Identity(vars.size() - 1, vars.size() - 1)), vars);
    } else {
      Make(s, vars.size()).With([&](auto&& x) { Put(std::move(x), vars); });
    }
  }
};

// Where each workspace of the program is declared to be.
struct Slots {
  vector<std::pair<long, long>> at;
  long total = 0;
};
Slots Declared(conex::Program& p) {
  Slots s;
  for (auto& w : p.workspaces) {
    long n = SizeOf(w);
    s.at.push_back({s.total, n});
    s.total += n;
  }
  return s;
}

void JudgeProgram(Ctx& c, World& w, const std::string& what) {
  auto& p = *w.p;
  auto slots = Declared(p);
  const double* base = p.workspace_data_->data();
  c.check(slots.total == SizeOf(p.workspaces), "size", what + ": the size of the list is not the sum of its members");
  c.check(slots.total <= p.workspace_data_->size(), "memory-too-small", what + ": memory has " + std::to_string(p.workspace_data_->size()) + " of " + std::to_string(slots.total) + " entries");
  c.check(slots.at.size() == 2 * w.arrays.size() + 2, "members", what + ": unexpected number of workspaces");
  Ranges all;
  size_t k = 0;
  auto one = [&](Ranges r, const std::string& name) {
    for (auto& x : r) x.name = name + "." + x.name;
    JudgeLayout(c, r, base + slots.at[k].first, slots.at[k].second, what);
    all.insert(all.end(), r.begin(), r.end());
    k++;
  };
  size_t i = 0;
  for (auto& e : p.kkt_system_manager_.eqs) {
    one(w.arrays[i](), w.specs[i].str() + "#" + std::to_string(i));
    // A block that is assembled in place points into the factor instead.
    auto r = Arrays(e.supernodal_assembler.submatrix_data_);
    std::less<const double*> lt;
    for (auto& x : r)
      if (x.name == "G" && (lt(x.p, base) || !lt(x.p, base + p.workspace_data_->size()))) x.n = 0;
    one(r, "schur#" + std::to_string(i));
    i++;
  }
  one(Arrays(*p.stats), "stats");
  one(Arrays(p.sys), "sys");
  JudgeLayout(c, all, base, slots.total, what);
  mc::Hash h;
  for (auto& a : all) h.add(a.p - base).add(a.n);
  c.state(h);
}

vector<Spec> Alphabet(bool deep) {
  vector<Spec> a = {{kLinear, 1}, {kLinear, 3}, {kLinear, 5}, {kDense, 1}, {kDense, 2}, {kDense, 3}, {kReal, 2}, {kComplex, 3}, {kQuaternion, 2}, {kOctonion, 1}, {kOctonion, 3},
                    {kSOC, 0}, {kSOC, 1}, {kSOC, 4}, {kSOC, 5}, {kQuad, 1}, {kQuad, 3}, {kEquality, 1}, {kEquality, 2}, {kCost, 0}, {kLower, 0}, {kEpigraph, 0}};
  if (deep)
    for (Spec s : {Spec{kLinear, 2}, Spec{kLinear, 4}, Spec{kLinear, 9}, Spec{kDense, 5}, Spec{kReal, 1}, Spec{kReal, 3}, Spec{kComplex, 1}, Spec{kQuaternion, 3}, Spec{kOctonion, 2}, Spec{kSOC, 2}, Spec{kSOC, 3}, Spec{kQuad, 0}, Spec{kQuad, 4}})
      a.push_back(s);
  return a;
}

vector<vector<int>> Vars(int m) {
  vector<vector<int>> v = {{0}, {1, 0}, {0, 1, 2}};
  if (m > 3) v.push_back({3, 1, 2, 0, 4});
  return v;
}

void Programs(Ctx& c) {
  int m = 5;
  auto alphabet = Alphabet(c.thorough);
  int count = c.range(1, 2);
  bool deep = c.thorough || (count == 1 && !kSanitized);
  vector<Spec> specs;
  vector<vector<int>> vars;
  auto sets = Vars(m);
  for (int i = 0; i < count; i++) {
    specs.push_back(c.among(alphabet));
    vars.push_back(i < 1 ? c.among(sets) : sets[(i + specs.back().n) % sets.size()]);
    c.require(specs[i].kind != kEpigraph || vars[i].size() > 1);
    c.require(specs[i].kind != kEquality || specs[i].n <= (int)vars[i].size());
  }
  int memory = deep ? c.choose(4) : 2 * c.choose(2);  // own, empty, short, long
  bool quadratic = false, search = true;
  for (auto& s : specs) {
    quadratic |= s.kind == kCost;
    search &= (s.kind & (kLinear | kEquality | kCost | kLower)) != 0;
  }
  std::string tale;
  for (int i = 0; i < count; i++) tale += specs[i].str() + "(" + std::to_string(vars[i].size()) + ") ";
  tale += memory == 0 ? "own memory" : memory == 1 ? "no memory" : memory == 2 ? "short memory" : "long memory";
  VectorXd data;
  if (memory == 2) data = VectorXd::Constant(37, 3.5);
  if (memory == 3) data = VectorXd::Constant(4001, 3.5);
  conex::Program p = memory ? conex::Program(m, &data) : conex::Program(m);
  World w;
  w.p = &p;
  w.m = m;
  w.Add({kLower, 0}, {4, 3, 2, 1, 0});  // every variable has a constraint
  w.Add(specs[0], vars[0]);
  if (count > 1) c.nontrivial();
  // History: initialise with some number of iterations, or solve, or add one
  // more constraint; each is judged.
  int depth = deep || !kSanitized ? 2 : 1;
  int added = 1;
  for (int step = 0; step < depth || added < count; step++) {
    if (added < count && (step >= depth - 1 || c.flip())) {
      w.Add(specs[added], vars[added]);
      added++;
      tale += " +";
      if (step < depth) continue;
    }
    conex::SolverConfiguration k;
    k.max_iterations = kSanitized || !deep ? (step % 2 ? 6 : 4) : (int[]){1, 6, 25}[c.choose(c.pick(2, 3))];
    k.inv_sqrt_mu_max = 10;
    k.prepare_dual_variables = 1;
    k.enable_line_search = search && quadratic;
    k.enable_rescaling = !quadratic;
    int op = c.choose(3);  // initialise, solve cold, solve warm
    tale += (op == 0 ? " init" : op == 1 ? " solve" : " warm") + std::to_string(k.max_iterations);
    c.describe(tale);
    if (op == 0) {
      conex::Initialize(p, k);
    } else {
      if (quadratic && !search) throw mc::Prune();
      VectorXd y = VectorXd::Zero(m), cost = VectorXd::Constant(m, .5);
      k.initialization_mode = op - 1;
      VectorXd before = *p.workspace_data_;
      srand(1);
      conex::Solve(cost, p, k, y.data());
      auto total = Declared(p).total;
      if (before.size() == p.workspace_data_->size())
        for (long i = total; i < before.size(); i++)
          c.check(memcmp(&before(i), &(*p.workspace_data_)(i), 8) == 0, "canary", tale + ": wrote behind its workspace");
    }
    JudgeProgram(c, w, tale);
  }
}

// ---------------------------------------------------------------- operations

struct Observed {
  vector<double> v;
  void add(double x) { v.push_back(x); }
  template <class M>
  void mat(const M& x) {
    for (int j = 0; j < x.cols(); j++)
      for (int i = 0; i < x.rows(); i++) v.push_back(x(i, j));
  }
  bool operator==(const Observed& o) const { return v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), 8 * v.size())); }
};

struct Guarded {
  std::unique_ptr<conex::Program> p;
  VectorXd data;
  World w;
  vector<conex::Constraint*> cons;
  vector<conex::SchurComplementSystem*> sub;
  Slots slots;

  Guarded(const vector<Spec>& specs, const vector<vector<int>>& vars, int m, double fill) {
    data = VectorXd::Constant(6001, fill);
    p.reset(new conex::Program(m, &data));
    w.p = p.get();
    w.m = m;
    for (size_t i = 0; i < specs.size(); i++) w.Add(specs[i], vars[i]);
    p->stats = std::make_unique<conex::WorkspaceStats>(4);
    p->sys.m_ = p->kkt_system_manager_.SizeOfKKTSystem();
    p->sys.residual_only_ = true;
    p->InitializeWorkspace();
    slots = Declared(*p);
    for (auto& e : p->kkt_system_manager_.eqs) {
      cons.push_back(&e.constraint);
      sub.push_back(&e.supernodal_assembler.submatrix_data_);
    }
  }
};

const char* kOps[] = {"identity", "assemble", "accumulate", "slack", "geodesic", "affine", "linesearch", "dual"};

// Runs operation `op` on constraint i; nothing but its workspaces may change.
Observed Run(Ctx& c, Guarded& g, size_t i, int op, const std::string& tale) {
  Observed o;
  VectorXd before = g.data;
  auto* con = g.cons[i];
  auto* sys = g.sub[i];
  int m = con->number_of_variables();
  VectorXd yd(m), y1d(m);
  for (int k = 0; k < m; k++) yd(k) = .25 * (k + 1) - .3, y1d(k) = .2 - .1 * k;
  conex::Ref y(yd.data(), m, 1), y1(y1d.data(), m, 1);
  srand(1);
  bool own = true, sub = false;
  switch (op) {
    case 0: SetIdentity(con); break;
    case 1:
    case 2: {
      sub = true;
      ConstructSchurComplementSystem(con, op == 1, sys);
      int mm = sys->AW.rows();
      for (int a = 0; a < mm; a++) {
        o.add(sys->AW(a)), o.add(sys->AQc(a));
        for (int b = 0; b <= a; b++) o.add(sys->G(a, b));
      }
      o.add(sys->inner_product_of_w_and_c), o.add(sys->inner_product_of_c_and_Qc);
      break;
    }
    case 3: {
      conex::WeightedSlackEigenvalues e;
      GetWeightedSlackEigenvalues(con, y, .75, &e);
      o.add(e.lambda_min), o.add(e.lambda_max), o.add(e.trace), o.add(e.frobenius_norm_squared);
      break;
    }
    case 4:
    case 5: {
      conex::StepOptions s;
      s.affine = op == 5;
      s.inv_sqrt_mu = 1;
      s.c_weight = 1;
      s.e_weight = 1;
      s.step_size = 1;
      conex::StepInfo info;
      PrepareStep(con, s, y, &info);
      o.add(info.normsqrd), o.add(info.norminfd);
      if (op == 4) {
        s.step_size = info.norminfd > 1 ? 1. / info.norminfd : 1;
        TakeStep(con, s);
      }
      break;
    }
    case 6: {
      conex::LineSearchParameters lp;
      lp.c0_weight = 0;
      lp.c1_weight = 1;
      lp.dinf_upper_bound = 1.5;
      conex::LineSearchOutput out;
      PerformLineSearch(con, lp, y, y1, &out);
      o.add(out.upper_bound), o.add(out.lower_bound);
      break;
    }
    case 7: {
      std::vector<double> x(con->dual_variable_size());
      con->get_dual_variable(x.data());
      for (double v : x) o.add(v);
      own = false;
    }
  }
  auto free = [&](long k) {
    auto in = [&](size_t slot) { return k >= g.slots.at[slot].first && k < g.slots.at[slot].first + g.slots.at[slot].second; };
    return (own && in(2 * i)) || (sub && in(2 * i + 1));
  };
  c.check(g.data.size() == before.size(), "memory-moved", tale + ": an operation resized the memory");
  for (long k = 0; k < before.size(); k++)
    if (memcmp(&before(k), &g.data(k), 8) && !free(k))
      c.fail("frame", tale + ": " + kOps[op] + " of constraint " + std::to_string(i) + " wrote entry " + std::to_string(k) + " of another workspace");
  c.judged();
  return o;
}

void Operations(Ctx& c) {
  int m = 5;
  auto alphabet = Alphabet(c.thorough);
  auto sets = Vars(m);
  vector<Spec> specs = {{kLinear, 1}};
  vector<vector<int>> vars = {{0, 1}};
  specs.push_back(c.among(alphabet));
  vars.push_back(c.among(sets));
  c.require(specs[1].kind != kEpigraph || vars[1].size() > 1);
  c.require(specs[1].kind != kEquality || specs[1].n <= (int)vars[1].size());
  specs.push_back({kDense, 2});
  vars.push_back({2, 3});
  double junk = c.flip() ? std::nan("") : 1e30;
  Guarded a(specs, vars, m, .5), b(specs, vars, m, junk);
  std::string tale = specs[1].str() + "(" + std::to_string(vars[1].size()) + ") between two others:";
  for (auto* g : {&a, &b})
    for (size_t i = 0; i < 3; i++)
      if (specs[i].kind != kEquality) SetIdentity(g->cons[i]);
  bool bare = specs[1].kind == kEquality || specs[1].kind == kCost;
  bool search = specs[1].kind & (kLinear | kLower | kCost);
  bool assembled = false;
  int depth = c.pick(kSanitized ? 2 : 4, kSanitized ? 3 : 5);
  for (int s = 0; s < depth; s++) {
    int op = c.choose(8);
    c.require(!bare || op == 1 || op == 2 || (op == 6 && search));
    c.require(op != 6 || search);
    c.require(op != 2 || assembled);
    assembled |= op == 1;
    tale += std::string(" ") + kOps[op];
    c.describe(tale);
    auto x = Run(c, a, 1, op, tale), y = Run(c, b, 1, op, tale);
    if (op == 7 && specs[1].kind == kSOC) continue;  // provides no dual variable
    if (op == 7 && (specs[1].kind & (kQuad | kEpigraph))) continue;
    if (op == 7 && (specs[1].kind & kHermitian)) continue;  // filled at the end of a solve
    if (!(x == y)) {
      std::string d;
      for (size_t k = 0; k < x.v.size() && k < y.v.size(); k++)
        if (memcmp(&x.v[k], &y.v[k], 8)) d += " [" + std::to_string(k) + "] " + std::to_string(x.v[k]) + "/" + std::to_string(y.v[k]);
      c.fail("reads-foreign", tale + ": the result depends on memory that is not the constraint's state:" + d);
    }
    mc::Hash h;
    h.add(specs[1].str()).add(vars[1]);
    for (double v : x.v) h.real(v, 1e-9);
    c.state(h);
  }
  c.nontrivial();
}

// ---------------------------------------------------------------- the factor

void Factor(Ctx& c) {
  int nv = c.pick(4, 5), count = c.range(1, kSanitized ? 3 : 4);
  vector<vector<int>> cliques;
  vector<int> used(nv, 0);
  for (int i = 0; i < count; i++) {
    int mask = 1 + c.choose((1 << nv) - 1);
    vector<int> q;
    for (int v = 0; v < nv; v++)
      if (mask >> v & 1) q.push_back(v), used[v] = 1;
    cliques.push_back(q);
  }
  for (int v = 0; v < nv; v++) c.require(used[v]);
  std::string what;
  for (auto& q : cliques) {
    what += "{";
    for (int v : q) what += std::to_string(v);
    what += "}";
  }
  c.describe(what);
  auto data = conex::GetData(cliques, 0);
  conex::SparseTriangularMatrix mat(data);
  auto judge = [&](conex::SparseTriangularMatrix& M, const std::string& name) {
    auto& w = M.workspace_;
    Ranges r;
    c.check(w.diagonal.size() == w.snodes.size() && w.off_diagonal.size() == w.snodes.size(), "blocks", name + ": wrong number of blocks");
    for (size_t i = 0; i < w.diagonal.size(); i++) {
      AddMap(&r, w.diagonal[i], "diagonal"), AddMap(&r, w.off_diagonal[i], "off-diagonal");
      c.check(w.diagonal[i].rows() == (long)w.snodes[i].size() && w.off_diagonal[i].cols() == (long)w.separators[i].size(), "extent", name + ": a block has the wrong size");
    }
    JudgeLayout(c, r, M.memory_.data(), M.memory_.size(), name);
    c.check(SizeOf(w) <= M.memory_.size(), "memory-too-small", name + ": memory too small");
    std::less<const double*> lt;
    for (size_t i = 0; i < w.seperator_diagonal.size(); i++) {
      std::set<const double*> seen;
      for (auto* p : w.seperator_diagonal[i]) {
        bool inside = false;
        for (size_t b = 0; b < r.size(); b++) inside |= !lt(p, r[b].p) && lt(p, r[b].p + r[b].n);
        c.check(inside, "outside", name + ": an entry of a separator lies in no block");
        c.check(seen.insert(p).second, "overlap", name + ": two entries of a separator share their place");
        c.judged();
      }
    }
  };
  judge(mat, what);
  // A copy has the same values in memory of its own.
  conex::TriangularMatrixOperations::SetConstant(&mat, 3);
  conex::SparseTriangularMatrix copy(mat);
  judge(copy, what + " copied");
  judge(mat, what + " after the copy");
  c.check(copy.memory_.size() == 0 || copy.memory_.data() != mat.memory_.data(), "copy-shares", what + ": a copy shares memory with the original");
  if (!conex::TriangularMatrixOperations::ToDense(copy).isApprox(conex::TriangularMatrixOperations::ToDense(mat))) c.fail("copy-differs", what + ": a copy differs");
  conex::TriangularMatrixOperations::SetConstant(&copy, 5);
  for (size_t i = 0; i < mat.supernodes.size(); i++)
    for (int k = 0; k < mat.supernodes[i].size(); k++) c.check(mat.supernodes[i].data()[k] != 5, "copy-shares", what + ": writing to a copy changes the original");
  mc::Hash h;
  for (auto& d : mat.workspace_.diagonal) h.add(d.rows()).add(d.data() - mat.memory_.data());
  c.state(h);
  if (count > 1) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> s = {
      {"kinds", Kinds, 2, false, "every workspace kind, size and number of variables up to 25 (79), three places in memory, initialised repeatedly"},
      {"programs", Programs, 3, false, "every list of 1-2 constraints of 22 (35) kinds and sizes on four variable sets, own or up to three kinds of caller memory, every history of two initialisations, cold and warm solves and additions with 1, 6 (or 25) iterations (fewer under AddressSanitizer and for pairs)"},
      {"operations", Operations, 3, false, "every constraint of 22 (35) kinds and sizes between two others, all sequences of 4 (5) of eight operations, memory prefilled with junk or NaN"},
      {"factor", Factor, 2, false, "the factor of every family of 1-4 cliques on 4 (5) variables, and its copy"},
  };
  return mc::Main(argc, argv, s);
}
