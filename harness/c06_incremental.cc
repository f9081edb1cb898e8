// A constraint built entry by entry is the constraint built in one shot from
// the resulting data.
//
// Every sequence of updates up to a length (every entry, both triangles, every
// hypercomplex component, values including zero), on top of nothing or of a
// cone entered before, before or after a first run, through the C interface or
// on a native constraint over some of the variables. The model keeps the data;
// the one-shot program is made from it. The Newton systems, steps and runs of
// both programs have to agree bit for bit.
#include "harness/capi.h"

using namespace capi;

namespace {

const int kQCost = 1 << 12;
const int m = 2;

const char* NameOf(int kind) { return kind == kQCost ? "quadratic-cost" : zoo::Name(kind); }

struct Entry {
  int var;  // -1: the affine term
  int r, c, d;
};

vector<Entry> Entries(int kind, int vars, int n) {
  vector<Entry> e;
  if (kind == kQCost) {
    for (int r = 0; r < n; r++)
      for (int c = 0; c < n; c++) e.push_back({-1, r, c, 0});
    return e;
  }
  bool matrix = kind & zoo::kHermitian;
  for (int v = -1; v < vars; v++)
    for (int d = 0; d < zoo::Dim(kind); d++)
      for (int r = 0; r < n; r++)
        for (int c = 0; c < (matrix ? n : 1); c++)
          if (!(d && r == c)) e.push_back({v, r, c, d});
  return e;
}

// The data, updated as documented: matrices stay Hermitian.
struct Store {
  int kind, n;
  Cone cone;
  MatrixXd Q;
  Store(int kind, int vars, int n) : kind(kind), n(n) {
    bool matrix = kind & zoo::kHermitian;
    cone.kind = kind;
    Elem zero(zoo::Dim(kind), MatrixXd::Zero(n, matrix ? n : 1));
    cone.A.assign(vars, zero);
    cone.c = zero;
    Q = MatrixXd::Zero(n, n);
  }
  void Set(const Entry& e, double value) {
    if (kind == kQCost) {
      Q(e.r, e.c) = value;
      return;
    }
    auto& x = e.var < 0 ? cone.c : cone.A[e.var];
    x[e.d](e.r, e.c) = value;
    if (kind & zoo::kHermitian) x[e.d](e.c, e.r) = e.d ? -value : value;
  }
};

struct Observed {
  MatrixXd K, K2;
  VectorXd AW, AQc, AW2;
  double numbers[6];
  Report run;
};

bool Same(const MatrixXd& a, const MatrixXd& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || !memcmp(a.data(), b.data(), 8 * a.size()));
}

Observed Observe(conex::Program* p, bool quadratic) {
  Observed o;
  srand(7);
  conex::SolverConfiguration k;
  if (quadratic) k.enable_line_search = 1, k.enable_rescaling = 0;
  k.max_iterations = 4;
  conex::Initialize(*p, k);
  p->solver->SetSolverMode(0);
  p->solver->SetIterativeRefinementIterations(0);
  auto assemble = [&](MatrixXd* K, VectorXd* AW) {
    p->solver->Assemble();
    conex::AssembleSchurComplementResiduals(&p->kkt_system_manager_, &p->sys);
    *K = p->solver->KKTMatrix();
    *AW = p->sys.AW;
    o.AQc = p->sys.AQc;
  };
  assemble(&o.K, &o.AW);
  o.numbers[0] = p->sys.inner_product_of_w_and_c;
  o.numbers[1] = p->sys.inner_product_of_c_and_Qc;
  conex::StepOptions s;
  s.affine = false;
  s.inv_sqrt_mu = .5;
  s.e_weight = 1;
  s.c_weight = .25;
  s.step_size = .125;
  alignas(64) double data[8] = {.03, -.06};
  Eigen::Map<MatrixXd, Eigen::Aligned> y(data, m, 1);
  conex::StepInfo info;
  conex::PrepareStep(&p->kkt_system_manager_, s, y, &info);
  o.numbers[2] = info.normsqrd;
  o.numbers[3] = info.norminfd;
  conex::TakeStep(&p->constraints_, s);
  assemble(&o.K2, &o.AW2);
  o.numbers[4] = p->sys.inner_product_of_w_and_c;
  o.numbers[5] = p->sys.inner_product_of_c_and_Qc;
  srand(7);
  Outcome r = Run(p, k);
  o.run.solved = r.solved;
  o.run.status = r.status;
  o.run.y = r.y;
  return o;
}

void Compare(Ctx& c, const Observed& a, const Observed& b, const std::string& key) {
  c.check(Same(a.K, b.K), "matrix-" + key, "Newton system " + Str(a.K) + " instead of " + Str(b.K));
  c.check(Same(a.AW, b.AW) && Same(a.AQc, b.AQc), "residual-" + key, "residuals " + Str(a.AW) + Str(a.AQc) + " instead of " + Str(b.AW) + Str(b.AQc));
  for (int i = 0; i < 6; i++) c.check(SameBits(a.numbers[i], b.numbers[i]), "numbers-" + key, "inner product or step norm " + std::to_string(i) + ": " + std::to_string(a.numbers[i]) + " instead of " + std::to_string(b.numbers[i]));
  c.check(Same(a.K2, b.K2) && Same(a.AW2, b.AW2), "stepped-" + key, "Newton system after a step " + Str(a.K2) + " instead of " + Str(b.K2));
  std::string d = a.run.Differs(b.run);
  c.check(d.empty(), "run-" + key, "run: " + d);
  c.judged(10);
}

// A program: a box that makes the Newton system definite, the constraint under
// test, and a cost.
struct Built {
  conex::Program* p;
  std::unique_ptr<conex::Program> own;
  std::unique_ptr<Handle> handle;
  int id = -1;
  bool c_interface;
  vector<int> vars;

  Built(bool c_interface, const vector<int>& vars) : c_interface(c_interface), vars(vars) {
    if (c_interface) {
      handle.reset(new Handle(m));
      p = handle->native();
    } else {
      own.reset(new conex::Program(m));
      p = own.get();
    }
    MatrixXd A(3, m);
    A << 1, 0, 0, -1, -1, 1;
    p->AddConstraint(conex::LinearConstraint(A, MatrixXd::Constant(3, 1, 4)));
    p->AddLinearCost(V2(1, -.5));
  }
  void New(const Store& zero) {
    switch (zero.kind) {
      case zoo::kLinear: CONEX_NewLinearInequality(p, zero.n, &id); break;
      case zoo::kSOC: CONEX_NewLorentzConeConstraint(p, zero.n - 1, &id); break;
      case kQCost: CONEX_NewQuadraticCost(p, &id); break;
      default: CONEX_NewLinearMatrixInequality(p, zero.n, zoo::Dim(zero.kind), &id);
    }
  }
  void OneShot(const Store& s) {
    id = p->NumberOfConstraints();
    if (s.kind == kQCost) p->AddQuadraticCost(s.Q, vars);
    else s.cone.Add(p, vars);
  }
  int Update(const Store& s, const Entry& e, double value) {
    if (c_interface) {
      if (s.kind == kQCost) return CONEX_UpdateQuadraticCostMatrix(p, id, value, e.r, e.c);
      if (e.var < 0) return CONEX_UpdateAffineTerm(p, id, value, e.r, e.c, e.d);
      return CONEX_UpdateLinearOperator(p, id, value, e.var, e.r, e.c, e.d);
    }
    if (e.var < 0) return p->UpdateAffineTermOfConstraint(id, value, e.r, e.c, e.d);
    return p->UpdateLinearOperatorOfConstraint(id, value, e.var, e.r, e.c, e.d);
  }
};

std::string Print(const Entry& e, double value) {
  std::ostringstream s;
  s << " ";
  if (e.var < 0) s << "c";
  else s << "A" << e.var;
  s << "(" << e.r << "," << e.c << (e.d ? ",e" + std::to_string(e.d) : std::string()) << ")=" << value;
  return s.str();
}

// Something feasible to start from.
void Basic(Store* s, vector<std::pair<Entry, double>>* how) {
  auto set = [&](Entry e, double v) { how->push_back({e, v}); };
  int vars = s->cone.A.size(), d = zoo::Dim(s->kind), z = s->n - 1;
  switch (s->kind) {
    case kQCost:
      set({-1, 0, 0, 0}, 2), set({-1, s->n - 1, s->n - 1, 0}, 1.5);
      if (s->n > 1) set({-1, 1, 0, 0}, .25);
      break;
    case zoo::kLinear: set({0, 0, 0, 0}, 1), set({vars - 1, z, 0, 0}, -1), set({-1, 0, 0, 0}, 1), set({-1, z, 0, 0}, 2); break;
    case zoo::kSOC: set({0, 1, 0, 0}, 1), set({vars - 1, 2, 0, 0}, -1), set({-1, 0, 0, 0}, 2); break;
    default: set({0, 0, 0, 0}, 1), set({0, z, z, 0}, -1), set({vars - 1, z, 0, d - 1}, .5), set({-1, 0, 0, 0}, 2), set({-1, z, z, 0}, 1.5);
  }
}

void Sequences(Ctx& c, int kind, int n, int length, int values, bool short_route) {
  // 0: C interface; otherwise native over some of the variables.
  int route = c.choose(short_route ? 1 : 3);
  vector<int> vars = route == 0 ? vector<int>{0, 1} : route == 1 ? vector<int>{1, 0} : vector<int>{1};
  if (kind == kQCost && route) n = vars.size();
  Store store(kind, vars.size(), n);
  Built built(route == 0, vars);
  if (route == 0) built.New(store);
  else built.OneShot(store);
  int base = c.choose(3);  // nothing, entered before, entered before and run
  std::string tale = std::string(NameOf(kind)) + (route == 0 ? " (C)" : route == 1 ? " (native, variables 1 0)" : " (native, variable 1)");
  if (base) {
    vector<std::pair<Entry, double>> how;
    Basic(&store, &how);
    for (auto& h : how) {
      built.Update(store, h.first, h.second);
      store.Set(h.first, h.second);
    }
    tale += base == 2 ? " after a run" : " basic";
    if (base == 2) Observe(built.p, kind == kQCost);
  }
  auto entries = Entries(kind, vars.size(), n);
  const double value[] = {.75, 0, -1.25};
  for (int i = 0; i < length; i++) {
    int e = c.choose(entries.size() + 1);
    if (e == (int)entries.size()) break;
    double v = value[c.choose(values)];
    tale += Print(entries[e], v);
    c.describe(tale);
    int status = built.Update(store, entries[e], v);
    c.check(status == CONEX_SUCCESS, std::string("refused-") + NameOf(kind), "a valid update was refused");
    store.Set(entries[e], v);
    c.nontrivial();
  }
  c.describe(tale);
  Built once(false, vars);
  once.OneShot(store);
  Observed a = Observe(built.p, kind == kQCost), b = Observe(once.p, kind == kQCost);
  Compare(c, a, b, NameOf(kind));
  if (kind == kQCost && route == 0 && store.Q.diagonal().minCoeff() > 0) {
    // The one-shot call of the C interface.
    Built third(true, vars);
    c.check(CONEX_AddQuadraticCost(third.p, store.Q.data(), n, n) == CONEX_SUCCESS, "refused-cost", "AddQuadraticCost refused");
    Compare(c, a, Observe(third.p, true), "quadratic-cost-c");
    c.count("c_one_shot_costs");
  }
  if (kind == zoo::kLinear && route == 0) {
    Built third(true, vars);
    MatrixXd A = store.cone.Stacked(), rhs = store.cone.c[0];
    c.check(CONEX_AddDenseLinearConstraint(third.p, A.data(), n, m, rhs.data(), n) == 1, "refused-linear", "AddDenseLinearConstraint refused");
    Compare(c, a, Observe(third.p, false), "linear-c");
    c.count("c_one_shot_linear");
  }
  mc::Hash h;
  for (int i = 0; i < b.K.size(); i++) h.real(b.K.data()[i], 1e-9);
  for (int i = 0; i < m; i++) h.real(b.run.y(i), 1e-9).real(b.AQc(i), 1e-9);
  c.state(h);
}

// Complete data entered in every order, with entries first set to something else.
void Orders(Ctx& c, int kind, int n) {
  vector<int> vars = {0, 1};
  Store store(kind, 2, n);
  Built built(true, vars);
  built.New(store);
  vector<Entry> entries;
  for (auto& e : Entries(kind, 2, n))
    if (!(kind & zoo::kHermitian) || e.r >= e.c) entries.push_back(e);
  // Up to seven entries take part, the others come last.
  size_t part = std::min<size_t>(entries.size(), c.thorough ? 7 : 6);
  int stride = c.choose(3) + 1;
  std::rotate(entries.begin(), entries.begin() + (stride * 5) % entries.size(), entries.end());
  vector<int> left;
  for (size_t i = 0; i < part; i++) left.push_back(i);
  int garbage = c.choose(4);
  std::string tale = std::string(NameOf(kind)) + " in the order";
  auto set = [&](const Entry& e, double v) {
    tale += Print(e, v);
    built.Update(store, e, v);
    store.Set(e, v);
  };
  auto value = [&](const Entry& e) { return e.var < 0 ? (e.r == e.c ? 2. : .25) : .5 - .75 * ((e.var + e.r + 2 * e.c + e.d) % 3); };
  if (garbage & 1)
    for (auto& e : entries) set(e, -9);
  while (!left.empty()) {
    int i = c.choose(left.size());
    Entry e = entries[left[i]];
    left.erase(left.begin() + i);
    if (garbage & 2) set(e, 9);
    set(e, value(e));
  }
  for (size_t i = part; i < entries.size(); i++) set(entries[i], value(entries[i]));
  c.describe(tale);
  c.nontrivial();
  Built once(false, vars);
  once.OneShot(store);
  Compare(c, Observe(built.p, kind == kQCost), Observe(once.p, kind == kQCost), std::string("order-") + NameOf(kind));
  c.state(mc::Hash().add(kind).add(stride));
}

}  // namespace

int main(int argc, char** argv) {
  static Quiet quiet;
  vector<mc::Scenario> v;
  struct K { int kind, n, quick, deep, values; };
  for (K k : {K{zoo::kLinear, 2, 3, 4, 3}, K{zoo::kSOC, 3, 3, 4, 3}, K{kQCost, 2, 4, 5, 3}, K{zoo::kReal, 2, 2, 3, 3}, K{zoo::kComplex, 2, 2, 3, 3}, K{zoo::kQuaternion, 2, 2, 3, 2}, K{zoo::kOctonion, 2, 1, 2, 3}, K{zoo::kLinear, 1, 4, 5, 3}, K{zoo::kReal, 3, 2, 3, 2}, K{zoo::kComplex, 3, 2, 3, 2}, K{zoo::kOctonion, 3, 1, 1, 2}, K{zoo::kReal, 1, 4, 5, 3}}) {
    std::string name = std::string(NameOf(k.kind)) + "-" + std::to_string(k.n);
    v.push_back({"updates-" + name, [k](Ctx& c) { Sequences(c, k.kind, k.n, c.thorough ? k.deep : k.quick, k.values, false); }, 4, false,
                 "every sequence of up to " + std::to_string(k.quick) + " updates (" + std::to_string(k.deep) + " in thorough)"});
  }
  // Pairs for the octonions, on order two.
  v.push_back({"pairs-octonion", [](Ctx& c) { Sequences(c, zoo::kOctonion, 2, 2, 2, true); }, 4, false, "every pair of updates through the C interface"});
  for (K k : {K{zoo::kLinear, 2, 0, 0, 0}, K{zoo::kSOC, 3, 0, 0, 0}, K{zoo::kReal, 2, 0, 0, 0}, K{zoo::kComplex, 2, 0, 0, 0}, K{zoo::kQuaternion, 2, 0, 0, 0}, K{kQCost, 2, 0, 0, 0}})
    v.push_back({std::string("orders-") + NameOf(k.kind), [k](Ctx& c) { Orders(c, k.kind, k.n); }, 4, false, "every order of six entries (seven in thorough), overwriting or not"});
  return mc::Main(argc, argv, v);
}
