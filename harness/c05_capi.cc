// The C interface under valid and invalid calls (built with AddressSanitizer):
// every sequence of calls over an alphabet that has, for every function, valid
// arguments and each kind of invalid ones. A reference model says which calls
// succeed; afterwards the program has to answer bit for bit as one that only
// ever saw the accepted calls.
#include "harness/capi.h"

using namespace capi;

namespace {

struct Con {
  int kind, n, d;  // n: rows, order, or number of variables of a quadratic cost
};
const int kQCost = 1 << 12;

struct Model {
  int m = 0;
  vector<Con> cons;
  bool ran = false;
};

struct World {
  Ctx* c;
  void* p;
  Model model;
  vector<std::function<void(void*)>> accepted;
  std::string tale;
  World(Ctx* c) : c(c), p(CONEX_CreateConeProgram()) {}
  ~World() { CONEX_DeleteConeProgram(p); }
};

struct Call {
  std::string name;
  bool valid;
  // Returns whether the call was accepted; `id` receives an identifier or -77.
  std::function<bool(void*, int* id)> run;
  std::function<void(Model*)> effect;
  bool core = false;  // member of the small alphabet
  bool gives_id = false;
  bool query = false;  // nothing to replay
};

#ifdef __SANITIZE_ADDRESS__
const bool kSanitized = true;
#else
const bool kSanitized = false;
#endif

CONEX_SolverConfiguration Config() {
  auto k = Defaults();
  k.max_iterations = kSanitized ? 2 : 5;
  k.prepare_dual_variables = 1;
  return k;
}

bool Quadratic(const Model& m) {
  for (auto& c : m.cons)
    if (c.kind == kQCost) return true;
  return false;
}

CONEX_SolverConfiguration ConfigFor(const Model& m) {
  auto k = Config();
  if (Quadratic(m)) k.enable_line_search = 1, k.enable_rescaling = 0;
  return k;
}

vector<double> Data(int n, double first = .5) {
  vector<double> v(std::max(n, 0));
  for (size_t i = 0; i < v.size(); i++) v[i] = first + .25 * ((i * 3) % 5);
  return v;
}

vector<Call> Alphabet(const Model& model) {
  vector<Call> v;
  const int m = model.m, k = model.cons.size();
  const double inf = std::numeric_limits<double>::infinity();
  auto none = [](Model*) {};
  auto status = [&](std::string name, bool valid, std::function<int(void*)> f, std::function<void(Model*)> effect, bool core = false) {
    v.push_back({name, valid, [f](void* p, int*) { return f(p) == CONEX_SUCCESS; }, effect, core, false, false});
  };
  auto creates = [&](std::string name, bool valid, std::function<int(void*, int*)> f, Con con, bool core = false) {
    v.push_back({name, valid, [f](void* p, int* id) { return f(p, id) == CONEX_SUCCESS; }, [con](Model* q) { q->cons.push_back(con); }, core, true, false});
  };
  auto adds = [&](std::string name, bool valid, std::function<int(void*)> f, Con con, bool core = false) {
    v.push_back({name, valid,
                 [f](void* p, int* id) {
                   int r = f(p);
                   if (r >= 0) *id = r;
                   return r >= 0;
                 },
                 [con](Model* q) { q->cons.push_back(con); }, core, true, false});
  };
  auto S = [](int x) { return std::to_string(x); };

  for (int n : {INT_MIN, -1, 0, 1, 2, 3})
    status("SetNumberOfVariables(" + S(n) + ")", n >= 1 && m == 0 && k == 0, [n](void* p) { return CONEX_SetNumberOfVariables(p, n); }, [n](Model* q) { q->m = n; }, n == 2 || n == 0);
  status("SetNumberOfVariables(null)", false, [](void*) { return CONEX_SetNumberOfVariables(nullptr, 2); }, none);

  for (int d : {INT_MIN, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 16})
    for (int n : {INT_MIN, -1, 0, 1, 2, 3, 4}) {
      bool dim = d == 1 || d == 2 || d == 4 || d == 8;
      if (!dim && n != 2) continue;
      if (n > 2 && d < 8) continue;
      bool valid = dim && n >= 1 && (d != 8 || n <= 3);
      int kind = d == 1 ? zoo::kReal : d == 2 ? zoo::kComplex : d == 4 ? zoo::kQuaternion : zoo::kOctonion;
      creates("NewLinearMatrixInequality(" + S(n) + "," + S(d) + ")", valid, [=](void* p, int* id) { return CONEX_NewLinearMatrixInequality(p, n, d, id); }, {kind, n, d}, (n == 2 && d == 2) || (n == 4 && d == 8) || (n == 0 && d == 1));
    }
  status("NewLinearMatrixInequality(null id)", false, [](void* p) { return CONEX_NewLinearMatrixInequality(p, 2, 2, nullptr); }, none);
  status("NewLinearMatrixInequality(null program)", false, [](void*) { int id; return CONEX_NewLinearMatrixInequality(nullptr, 2, 2, &id); }, none);

  for (int n : {INT_MIN, -1, 0, 1, 2}) creates("NewLinearInequality(" + S(n) + ")", n >= 1, [=](void* p, int* id) { return CONEX_NewLinearInequality(p, n, id); }, {zoo::kLinear, n, 1}, n == 2 || n == 0);
  status("NewLinearInequality(null id)", false, [](void* p) { return CONEX_NewLinearInequality(p, 2, nullptr); }, none);
  status("NewLinearInequality(null program)", false, [](void*) { int id; return CONEX_NewLinearInequality(nullptr, 2, &id); }, none);

  for (int n : {INT_MIN, -1, 0, 1, 2}) creates("NewLorentzConeConstraint(" + S(n) + ")", n >= 1, [=](void* p, int* id) { return CONEX_NewLorentzConeConstraint(p, n, id); }, {zoo::kSOC, n + 1, 1}, n == 2 || n == 0);
  status("NewLorentzConeConstraint(null id)", false, [](void* p) { return CONEX_NewLorentzConeConstraint(p, 2, nullptr); }, none);
  status("NewLorentzConeConstraint(null program)", false, [](void*) { int id; return CONEX_NewLorentzConeConstraint(nullptr, 2, &id); }, none);

  creates("NewQuadraticCost", true, [=](void* p, int* id) { return CONEX_NewQuadraticCost(p, id); }, {kQCost, m, 1}, true);
  status("NewQuadraticCost(null id)", false, [](void* p) { return CONEX_NewQuadraticCost(p, nullptr); }, none, true);
  status("NewQuadraticCost(null program)", false, [](void*) { int id; return CONEX_NewQuadraticCost(nullptr, &id); }, none);

  // Quadratic costs in one call.
  for (int what = 0; what < 6; what++) {
    int r = m, c = m;
    if (what == 1) r = m + 1;
    if (what == 2) c = m + 1;
    if (what == 3) r = c = m + 1;
    if (what == 4) r = c = m - 1;
    if (what == 5) r = -1;
    std::function<void(Model*)> effect = [m](Model* q) { if (m) q->cons.push_back({kQCost, m, 1}); };
    status("AddQuadraticCost(" + S(r) + "x" + S(c) + ")", what == 0,
           [=](void* p) {
             vector<double> q(std::max(0, r) * std::max(0, c), .25);
             for (int i = 0; i < std::min(r, c); i++) q[i + i * r] = 2 + i;
             return CONEX_AddQuadraticCost(p, q.data(), r, c);
           },
           effect, what == 0 || what == 1);
  }

  // Dense linear inequalities: rows, columns, length of the right hand side.
  struct Dims { int r, c, cr; };
  for (Dims d : {Dims{2, m, 2}, Dims{1, m, 1}, Dims{2, m + 1, 2}, Dims{2, m - 1, 2}, Dims{2, m, 1}, Dims{1, m, 2}, Dims{-1, m, -1}, Dims{2, -1, 2}, Dims{2, m, 0}, Dims{2, m, -1}})
    adds("AddDenseLinearConstraint(" + S(d.r) + "x" + S(d.c) + "," + S(d.cr) + ")", d.r >= 1 && d.c == m && d.cr == d.r,
         [=](void* p) {
           vector<double> A = Data(std::max(0, d.r) * std::max(0, d.c)), c = Data(d.cr, 1);
           return CONEX_AddDenseLinearConstraint(p, A.data(), d.r, d.c, c.data(), d.cr);
         },
         {zoo::kLinear, d.r, 1}, (d.r == 2 && d.c == m && d.cr == 2) || (d.r == 2 && d.c == m + 1));

  // Two-sided inequalities. Equations come last.
  struct Rows { int r, c, lb, ub; };
  for (Rows d : {Rows{2, m, 2, 2}, Rows{2, m + 1, 2, 2}, Rows{2, m - 1, 2, 2}, Rows{2, m, 1, 2}, Rows{2, m, 2, 1}, Rows{-1, m, -1, -1}, Rows{2, -1, 2, 2}})
    for (int bounds = 0; bounds < 3; bounds++) {
      bool valid = d.r >= 1 && d.c == m && d.lb == d.r && d.ub == d.r;
      if (!valid && bounds) continue;
      // 0: -1 <= . <= 1, 1: an equation and a bound, 2: no bounds at all
      auto call = [=](void* p) {
        vector<double> A = Data(std::max(0, d.r) * std::max(0, d.c)), lb(std::max(0, d.lb), bounds == 2 ? -inf : -1.), ub(std::max(0, d.ub), bounds == 2 ? inf : 1.);
        if (bounds == 1) lb[0] = ub[0] = .25;
        auto* q = static_cast<conex::Program*>(p);
        int before = q->NumberOfConstraints();
        CONEX_AddLinearInequalities(p, A.data(), d.r, d.c, lb.data(), d.lb, ub.data(), d.ub);
        return q->NumberOfConstraints() > before;
      };
      v.push_back({"AddLinearInequalities(" + S(d.r) + "x" + S(d.c) + "," + S(d.lb) + "," + S(d.ub) + (bounds == 1 ? ",equation" : bounds == 2 ? ",free" : "") + ")", valid && bounds < 2,
                   [=](void* p, int*) { return bool(call(p)); },
                   [=](Model* q) {
                     q->cons.push_back({zoo::kLinear, bounds ? 2 : 4, 1});
                     if (bounds == 1) q->cons.push_back({zoo::kEquality, 1, 1});
                   },
                   m > 0 && bounds < 2 && (valid || d.lb == 1), false, false});
      // Zero variables: rows without coefficients vanish or not; leave it out.
      if (m == 0 && valid) v.pop_back();
    }

  // Matrix inequalities.
  struct Lmi { int r, c, m, cr, cc; };
  for (Lmi d : {Lmi{2, 2, m, 2, 2}, Lmi{1, 1, m, 1, 1}, Lmi{2, 2, m + 1, 2, 2}, Lmi{2, 2, m - 1, 2, 2}, Lmi{2, 1, m, 2, 2}, Lmi{1, 2, m, 2, 2}, Lmi{2, 2, m, 1, 2}, Lmi{2, 2, m, 2, 1}, Lmi{2, 2, m, 1, 1}, Lmi{0, 0, m, 0, 0}, Lmi{-1, -1, m, -1, -1}, Lmi{2, 2, -1, 2, 2}}) {
    auto symmetric = [](vector<double>* a, int n) {
      for (size_t at = 0; at + n * n <= a->size() && n > 1; at += n * n)
        for (int i = 0; i < n; i++)
          for (int j = 0; j < i; j++) (*a)[at + i + j * n] = (*a)[at + j + i * n];
    };
    bool valid = d.r >= 1 && d.c == d.r && d.cr == d.r && d.cc == d.r && d.m == m;
    adds("AddDenseLMIConstraint(" + S(d.r) + "x" + S(d.c) + "," + S(d.m) + "," + S(d.cr) + "x" + S(d.cc) + ")", valid,
         [=](void* p) {
           vector<double> A = Data(std::max(0, d.r) * std::max(0, d.c) * std::max(0, d.m), -.5), c = Data(std::max(0, d.cr) * std::max(0, d.cc), 1);
           if (valid) symmetric(&A, d.r), symmetric(&c, d.r);
           return CONEX_AddDenseLMIConstraint(p, A.data(), d.r, d.c, d.m, c.data(), d.cr, d.cc);
         },
         {zoo::kDense, d.r, 1}, d.r == 2 && d.c == 2 && d.cc == 2 && d.cr == 2 && d.m != m - 1 && d.m >= 0);
    // The same matrices over a list of variables.
    struct Vars { vector<long> v; int n; bool ok; };
    vector<Vars> lists = {{{0}, 1, m >= 1}, {{1, 0}, 2, m >= 2}, {{0, 0}, 2, false}, {{m}, 1, false}, {{-1}, 1, false}, {{0, m}, 2, false}, {{1L << 32}, 1, false}, {{-(1L << 32)}, 1, false}, {{(1L << 32) + 1, 0}, 2, false}, {{0}, 2, false}, {{0, 1}, 1, false}};
    if (d.m != m) continue;
    for (auto& list : lists) {
      bool shape = d.r >= 1 && d.c == d.r && d.cr == d.r && d.cc == d.r;
      if (!shape && list.v != vector<long>{0}) continue;
      if (d.r == 1 && list.v.size() != 1) continue;
      std::string name = "AddSparseLMIConstraint(" + S(d.r) + "x" + S(d.c) + "," + S(list.n) + "," + S(d.cr) + "x" + S(d.cc) + ",{";
      for (long x : list.v) name += std::to_string(x) + " ";
      vector<long> vars = list.v;
      int n = list.n;
      adds(name + "})", shape && list.ok,
           [=](void* p) {
             vector<double> A = Data(std::max(0, d.r) * std::max(0, d.c) * n, -.25), c = Data(std::max(0, d.cr) * std::max(0, d.cc), 1);
             if (shape) symmetric(&A, d.r), symmetric(&c, d.r);
             vector<long> exact(vars);
             return CONEX_AddSparseLMIConstraint(p, A.data(), d.r, d.c, n, c.data(), d.cr, d.cc, exact.data(), exact.size());
           },
           {zoo::kDense, d.r, 1}, shape && d.r == 2 && (list.v == vector<long>{1, 0} || list.v == vector<long>{m}));
    }
  }

  // Updates of every constraint, with each index in and out of range.
  for (int id = 0; id < k; id++) {
    Con con = model.cons[id];
    bool matrix = con.kind & zoo::kHermitian, square = matrix || con.kind == kQCost;
    bool linear = con.kind == zoo::kLinear || con.kind == zoo::kSOC || matrix;
    bool affine = linear || con.kind == kQCost;
    int last = con.n - 1, lastc = square ? last : 0, lastv = m - 1;
    // Without variables a matrix inequality or second-order cone accepts any.
    bool any_variable = m == 0 && (matrix || con.kind == zoo::kSOC);
    struct U { int var, row, col, dim; double value; };
    vector<U> us;
    U ok{std::max(lastv, 0), last, square ? 0 : 0, con.n > 1 ? con.d - 1 : 0, .375};
    us.push_back(ok);
    for (int x : {INT_MIN, -1, m, m + 1, INT_MAX}) {
      U u = ok;
      u.var = x;
      if (!(any_variable && x > 4)) us.push_back(u);
    }
    for (int x : {INT_MIN, -1, con.n, INT_MAX}) {
      U u = ok;
      u.row = x;
      us.push_back(u);
    }
    for (int x : {INT_MIN, -1, lastc + 1, INT_MAX}) {
      U u = ok;
      u.col = x;
      us.push_back(u);
    }
    for (int x : {INT_MIN, -1, con.d, con.d + 1, INT_MAX}) {
      U u = ok;
      u.dim = x;
      us.push_back(u);
    }
    if (matrix)
      for (double x : {0., 1.}) {
        U u = ok;
        u.col = u.row;
        u.dim = con.d - 1;
        u.value = x;
        us.push_back(u);
      }
    int count = 0;
    for (auto u : us) {
      bool inside = u.row >= 0 && u.row < con.n && u.col >= 0 && u.col <= lastc && u.dim >= 0 && u.dim < con.d && !(matrix && u.value && u.row == u.col && u.dim > 0);
      bool variable = u.var >= 0 && (u.var < m || any_variable);
      std::string args = S(id) + "," + std::to_string(u.value) + "," + S(u.row) + "," + S(u.col) + "," + S(u.dim) + ")";
      status("UpdateLinearOperator(variable " + S(u.var) + "," + args, linear && inside && variable, [=](void* p) { return CONEX_UpdateLinearOperator(p, id, u.value, u.var, u.row, u.col, u.dim); }, none, count == 0 || count == 3);
      if (u.var == ok.var) status("UpdateAffineTerm(" + args, affine && inside, [=](void* p) { return CONEX_UpdateAffineTerm(p, id, u.value ? u.value + 1 : 0, u.row, u.col, u.dim); }, none, count == 0);
      if (con.kind == kQCost && u.var == ok.var && u.dim == ok.dim) status("UpdateQuadraticCostMatrix(" + args, inside, [=](void* p) { return CONEX_UpdateQuadraticCostMatrix(p, id, u.value + 1, u.row, u.col); }, none, count == 0);
      count++;
    }
    // Dual variables. Their size is that of the (real part of the) constraint.
    for (int extra : {-1, 0, 1, 2}) {
      v.push_back({"GetDualVariable(" + S(id) + ",size " + (extra < 0 ? "-" : "+") + S(std::abs(extra)) + ")", true,
                   [=](void* p, int*) {
                     int size = CONEX_GetDualVariableSize(p, id);
                     if (size < 0 || size > 64) return false;
                     vector<double> x(std::max(0, size + extra), 4.5);
                     CONEX_GetDualVariable(p, id, x.data(), size + extra, 1);
                     if (extra || !static_cast<conex::Program*>(p)->stats || !static_cast<conex::Program*>(p)->stats->num_iter)
                       for (double e : x)
                         if (e != 4.5) return false;
                     return true;
                   },
                   none, extra == 0 && id == 0, false, true});
    }
  }
  for (int id : {INT_MIN, -1, k, k + 1, INT_MAX}) {
    status("UpdateLinearOperator(constraint " + S(id) + ")", false, [=](void* p) { return CONEX_UpdateLinearOperator(p, id, 1, 0, 0, 0, 0); }, none, id == k);
    status("UpdateAffineTerm(constraint " + S(id) + ")", false, [=](void* p) { return CONEX_UpdateAffineTerm(p, id, 1, 0, 0, 0); }, none, id == -1);
    status("UpdateQuadraticCostMatrix(constraint " + S(id) + ")", false, [=](void* p) { return CONEX_UpdateQuadraticCostMatrix(p, id, 1, 0, 0); }, none);
    // There is nothing to return; no size may be claimed.
    v.push_back({"GetDualVariable(" + S(id) + ")", true,
                 [=](void* p, int*) {
                   vector<double> x(1, 4.5);
                   int size = CONEX_GetDualVariableSize(p, id);
                   CONEX_GetDualVariable(p, id, x.data(), 1, 1);
                   return x[0] == 4.5 && size <= 0;
                 },
                 none, id == k, false, true});
  }
  status("UpdateLinearOperator(null)", false, [](void*) { return CONEX_UpdateLinearOperator(nullptr, 0, 1, 0, 0, 0, 0); }, none);
  status("UpdateAffineTerm(null)", false, [](void*) { return CONEX_UpdateAffineTerm(nullptr, 0, 1, 0, 0, 0); }, none);
  status("UpdateQuadraticCostMatrix(null)", false, [](void*) { return CONEX_UpdateQuadraticCostMatrix(nullptr, 0, 1, 0, 0); }, none);

  // Runs. Only the sizes are right or wrong here; what they return is for the end.
  struct Run { int b, y; bool linear_cost; };
  for (Run r : {Run{m, m, true}, Run{m + 1, m, true}, Run{m - 1, m, true}, Run{m, m + 1, true}, Run{m, m - 1, true}, Run{-1, m, true}, Run{m, -1, true}, Run{0, m, false}, Run{0, m + 1, false}, Run{0, m - 1, false}}) {
    if (m == 0 && r.b == 0 && r.y == 0) continue;
    bool valid = r.y == m && (!r.linear_cost || r.b == m);
    auto k = ConfigFor(model);
    Call call{std::string(r.linear_cost ? "Maximize(" + S(r.b) + "," : "Solve(") + S(r.y) + ")", true,
              [=](void* p, int*) {
                vector<double> b = Data(r.b), y(std::max(0, r.y), 6.5);
                srand(7);
                int solved = r.linear_cost ? CONEX_Maximize(p, b.data(), r.b, &k, y.data(), r.y) : CONEX_Solve(p, &k, y.data(), r.y);
                if (valid) return true;
                for (double e : y)
                  if (e != 6.5) return false;  // written although refused
                return solved == 0;
              },
              none, r.b <= m && r.b >= 0 && r.y >= 0 && r.y <= m, false, !(valid && r.linear_cost)};
    if (valid) call.effect = [](Model* q) { q->ran = true; };
    v.push_back(call);
  }
  {
    CONEX_IterationStats stats;
    v.push_back({"GetIterationStats(null)", true,
                 [](void* p, int*) {
                   CONEX_IterationStats s;
                   CONEX_GetIterationStats(nullptr, &s, 0);
                   CONEX_GetIterationStats(p, nullptr, 0);
                   return true;
                 },
                 none, false, false, true});
    v.push_back({"GetIterationStats(out of range)", true,
                 [](void* p, int*) {
                   for (int i : {INT_MIN, -1000, 1000, INT_MAX}) {
                     CONEX_IterationStats s;
                     s.iteration_number = -5;
                     CONEX_GetIterationStats(p, &s, i);
                     if (s.iteration_number != -5) return false;
                   }
                   return true;
                 },
                 none, true, false, true});
    v.push_back({"SetDefaultOptions(null)", true,
                 [](void*, int*) {
                   CONEX_SetDefaultOptions(nullptr);
                   return true;
                 },
                 none, false, false, true});
  }
  return v;
}

// The alphabet only depends on the model.
const vector<Call>& Cached(const Model& model) {
  static std::map<vector<int>, vector<Call>> cache;
  vector<int> key = {model.m};
  for (auto& c : model.cons) key.insert(key.end(), {c.kind, c.n, c.d});
  auto it = cache.find(key);
  if (it == cache.end()) {
    if (cache.size() > 300) cache.clear();
    it = cache.emplace(key, Alphabet(model)).first;
  }
  return it->second;
}

void Perform(World* w, const Call& call) {
  w->tale += " " + call.name;
  w->c->describe(w->tale);
  int id = -77;
  int before = static_cast<conex::Program*>(w->p)->NumberOfConstraints();
  bool got = call.run(w->p, &id);
  std::string function = call.name.substr(0, call.name.find('('));
  w->c->check(got == call.valid, "status-" + function, call.name + (got ? " was accepted" : " was refused") + (call.query ? " (or touched what it must not)" : ""));
  if (got && call.gives_id) w->c->check(id == (int)w->model.cons.size(), "id-" + function, call.name + " returned identifier " + std::to_string(id) + " for constraint " + std::to_string(w->model.cons.size()));
  if (!got) w->c->check(id == -77, "id-written-" + function, call.name + " was refused but wrote an identifier");
  if (got) {
    call.effect(&w->model);
    if (!call.query) {
      auto f = call.run;
      w->accepted.push_back([f](void* p) {
        int id;
        f(p, &id);
      });
    }
    w->c->count("accepted");
  } else {
    w->c->count("refused");
    w->c->nontrivial();
  }
  int now = static_cast<conex::Program*>(w->p)->NumberOfConstraints();
  w->c->check(now == (int)w->model.cons.size(), "number-" + function, call.name + " leaves " + std::to_string(now) + " constraints instead of " + std::to_string(w->model.cons.size()));
  w->c->check(static_cast<conex::Program*>(w->p)->GetNumberOfVariables() == w->model.m, "variables-" + function, "the number of variables changed");
  w->c->judged(4);
}

struct Answer {
  int solved, iterations;
  vector<double> y;
  vector<vector<double>> duals;
  vector<double> mu;
};

Answer Ask(void* p, const Model& model) {
  Answer a;
  auto k = ConfigFor(model);
  a.y.assign(model.m, 3.25);
  srand(7);
  a.solved = CONEX_Solve(p, &k, a.y.data(), model.m);
  a.iterations = static_cast<conex::Program*>(p)->Status().num_iterations;
  for (size_t i = 0; i < model.cons.size() && a.iterations; i++) {
    int kind = model.cons[i].kind;
    int size = CONEX_GetDualVariableSize(p, i);
    vector<double> x(std::max(0, size), 2.5);
    if (kind & (zoo::kSOC | zoo::kEquality | kQCost)) {
      a.duals.push_back({});  // none are kept
      continue;
    }
    CONEX_GetDualVariable(p, i, x.data(), size, 1);
    a.duals.push_back(x);
  }
  for (int i = 0; i < a.iterations; i++) {
    CONEX_IterationStats s;
    CONEX_GetIterationStats(p, &s, i);
    a.mu.push_back(s.mu);
  }
  return a;
}

bool Same(const vector<double>& a, const vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }

std::string Differs(const Answer& a, const Answer& b) {
  std::ostringstream s;
  s.precision(17);
  if (a.solved != b.solved || a.iterations != b.iterations) s << "solved " << a.solved << " in " << a.iterations << " iterations instead of " << b.solved << " in " << b.iterations;
  else if (!Same(a.y, b.y)) {
    s << "y =";
    for (double x : a.y) s << " " << x;
    s << " instead of";
    for (double x : b.y) s << " " << x;
  } else if (!Same(a.mu, b.mu)) s << "statistics";
  else
    for (size_t i = 0; i < a.duals.size(); i++)
      if (!Same(a.duals[i], b.duals[i])) s << "dual variable " << i;
  return s.str();
}

void Call1(World* w, const std::string& prefix) {
  for (auto& call : Cached(w->model))
    if (call.name == prefix) return Perform(w, Call(call));
  w->c->fail("harness", "no call " + prefix);
}

// Programs to start from.
enum { kEmpty, kVariables, kOne, kMany, kManyRan, kHyper, kQuadratic, kBases };
const char* kBaseNames[] = {"empty", "two variables", "linear, solved", "one of each", "one of each, solved", "hypercomplex", "quadratic cost"};

void Prepare(World* w, int base) {
  w->tale = std::string("[") + kBaseNames[base] + "]";
  if (base == kEmpty) return;
  auto update = [&](int id, double value, int var, int r, int c, int d) {
    auto f = [=](void* p) { CONEX_UpdateLinearOperator(p, id, value, var, r, c, d); };
    f(w->p);
    w->accepted.push_back(f);
  };
  auto affine = [&](int id, double value, int r, int c, int d) {
    auto f = [=](void* p) { CONEX_UpdateAffineTerm(p, id, value, r, c, d); };
    f(w->p);
    w->accepted.push_back(f);
  };
  std::string tale = w->tale;
  Call1(w, "SetNumberOfVariables(2)");
  auto disk = [&](int id, int d) {
    update(id, 1, 0, 0, 0, 0);
    update(id, -1, 0, 1, 1, 0);
    update(id, 1, 1, 1, 0, d - 1);
    affine(id, 2, 0, 0, 0);
    affine(id, 2, 1, 1, 0);
  };
  if (base == kOne || base == kMany || base == kManyRan || base == kQuadratic) {
    Call1(w, "NewLinearInequality(2)");
    update(0, 1, 0, 0, 0, 0);
    update(0, -1, 1, 1, 0, 0);
    affine(0, 1, 0, 0, 0);
    affine(0, 1.5, 1, 0, 0);
  }
  if (base == kMany || base == kManyRan) {
    Call1(w, "NewLinearMatrixInequality(2,1)");
    disk(1, 1);
    Call1(w, "NewLorentzConeConstraint(2)");
    update(2, 1, 0, 1, 0, 0);
    update(2, 1, 1, 2, 0, 0);
    affine(2, 2, 0, 0, 0);
    Call1(w, "AddDenseLMIConstraint(2x2,2,2x2)");
    Call1(w, "AddLinearInequalities(2x2,2,2,equation)");
  }
  if (base == kHyper) {
    Call1(w, "NewLinearMatrixInequality(2,2)");
    disk(0, 2);
    Call1(w, "NewLinearMatrixInequality(2,4)");
    disk(1, 4);
    Call1(w, "NewLinearMatrixInequality(2,8)");
    disk(2, 8);
  }
  if (base == kQuadratic) Call1(w, "NewQuadraticCost"), Call1(w, "UpdateQuadraticCostMatrix(1,0.375000,1,0,0)");
  if (base == kOne || base == kManyRan) Call1(w, "Maximize(2,2)");
  w->tale = tale;
}

// `full` calls of the full alphabet and then `small` of the small one; if `full`
// is negative only the last one is of the full alphabet.
void Sequence(Ctx& c, int base, int full, int small) {
  World w(&c);
  Prepare(&w, base);
  const int length = std::abs(full) + small - (full < 0);
  for (int i = 0; i < length; i++) {
    vector<const Call*> usable;
    for (auto& a : Cached(w.model))
      if ((full < 0 ? i == length - 1 : i < full) || a.core) usable.push_back(&a);
    Perform(&w, Call(*usable[c.choose(usable.size())]));
  }
  // The program it should now be.
  World fresh(&c);
  fresh.model = w.model;
  for (auto& f : w.accepted) f(fresh.p);
  if (w.model.m) {
    // Bounded, so that the answers mean something.
    int m = w.model.m;
    vector<double> A(2 * m * m, 0), one(2 * m, 1);
    for (int i = 0; i < m; i++) A[2 * m * i + 2 * i] = 1, A[2 * m * i + 2 * i + 1] = -1;
    for (World* x : {&w, &fresh}) {
      int id = CONEX_AddDenseLinearConstraint(x->p, A.data(), 2 * m, m, one.data(), 2 * m);
      c.check(id == (int)x->model.cons.size(), "last-id", "the last constraint has identifier " + std::to_string(id) + " instead of " + std::to_string(x->model.cons.size()));
      x->model.cons.push_back({zoo::kLinear, 2 * m, 1});
    }
  }
  Answer a = Ask(w.p, w.model), b = Ask(fresh.p, fresh.model);
  std::string d = Differs(a, b);
  c.check(d.empty(), "answer", "a program that saw only the accepted calls answers differently: " + d);
  c.judged(2);
  mc::Hash h;
  h.add(w.model.m).add(a.solved).add(a.iterations);
  for (auto& con : w.model.cons) h.add(con.kind).add(con.n).add(con.d);
  for (double y : a.y) h.real(y, 1e-6);
  c.state(h);
  if (a.solved) c.count("solved_at_the_end");
}

}  // namespace

int main(int argc, char** argv) {
  static Quiet quiet;
  vector<mc::Scenario> v;
  for (int b = 0; b < kBases; b++) {
    std::string base = kBaseNames[b];
    std::replace(base.begin(), base.end(), ' ', '-');
    if (kSanitized) {
      v.push_back({"one-" + base, [b](Ctx& c) { Sequence(c, b, 1, 0); }, 1, false, "every single call of the full alphabet (AddressSanitizer)"});
      v.push_back({"then-" + base, [b](Ctx& c) { Sequence(c, b, 1, 1); }, 4, true, "every call of the full alphabet followed by every one of the small alphabet (AddressSanitizer)"});
      v.push_back({"twice-" + base, [b](Ctx& c) { Sequence(c, b, 0, 2); }, 4, false, "every pair of calls of the small alphabet (AddressSanitizer)"});
    } else {
      v.push_back({"then-" + base, [b](Ctx& c) { Sequence(c, b, 1, 1); }, 4, false, "every call of the full alphabet followed by every one of the small alphabet"});
      v.push_back({"before-" + base, [b](Ctx& c) { Sequence(c, b, -1, 2); }, 4, false, "every call of the small alphabet followed by every one of the full alphabet"});
      v.push_back({"pairs-" + base, [b](Ctx& c) { Sequence(c, b, 2, 0); }, 4, true, "every pair of calls of the full alphabet"});
      v.push_back({"triples-" + base, [b](Ctx& c) { Sequence(c, b, 0, 3); }, 4, b != kEmpty && b != kVariables && b != kOne, "every triple of calls of the small alphabet"});
    }
  }
  return mc::Main(argc, argv, v);
}
