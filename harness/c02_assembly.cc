// The assembled system against the dense sum of the blocks, for every overlap
// pattern and variable order within the bounds, and after every short history.
#include "conex/clique_ordering.h"
#include "harness/kkt_common.h"

using namespace kkt;

namespace {

void Judge(Ctx& c, conex::Program* p, const System& s, const std::string& when) {
  MatrixXd K;
  VectorXd AW, AQc;
  double wc, cqc;
  s.Dense(&K, &AW, &AQc, &wc, &cqc);
  MatrixXd got = p->solver->KKTMatrix();
  c.check(got.rows() == K.rows() && got.cols() == K.cols(), "size", when + "system has the wrong size: " + std::to_string(got.rows()));
  if (got != K) {
    for (int i = 0; i < K.rows(); i++)
      for (int j = 0; j < K.cols(); j++)
        if (got(i, j) != K(i, j)) {
          std::ostringstream o;
          o << when << "entry (" << i << "," << j << ") is " << got(i, j) << ", the blocks sum to " << K(i, j);
          c.fail("matrix", o.str());
        }
  }
  conex::AssembleSchurComplementResiduals(&p->kkt_system_manager_, &p->sys);
  c.check(p->sys.AW == AW, "AW", when + "AW residual is not the sum of the blocks " + Show(p->sys.AW) + " vs " + Show(AW));
  c.check(p->sys.AQc == AQc, "AQc", when + "AQc residual is not the sum of the blocks " + Show(p->sys.AQc) + " vs " + Show(AQc));
  c.check(p->sys.inner_product_of_w_and_c == wc, "wc", when + "inner product of w and c");
  c.check(p->sys.inner_product_of_c_and_Qc == cqc, "cqc", when + "inner product of c and Qc");
  c.state(HashOf(got));
  c.judged(5);
}

conex::SolverConfiguration Config() { return conex::SolverConfiguration(); }

void RunSystem(Ctx& c, System& s, int history) {
  c.require(Covers(s));
  c.describe(s.str());
  if (Overlaps(s)) c.nontrivial();
  Numbers num;
  for (auto& it : s.items) Fill(&it, &num);
  conex::Program p(s.n);
  for (auto& it : s.items) AddTo(&p, it);
  conex::Initialize(p, Config());
  p.solver->Assemble();
  Judge(c, &p, s, "");
  {
    int N = s.size();
    VectorXd AW(N), AQc(N), eAW, eAQc;
    MatrixXd K;
    double wc, ewc, ecqc;
    p.solver->Assemble(&AW, &AQc, &wc);
    s.Dense(&K, &eAW, &eAQc, &ewc, &ecqc);
    c.check(AW == eAW && AQc == eAQc && wc == ewc, "assemble-vectors", "Assemble(AW, AQc, wc) is not the sum of the blocks");
    Judge(c, &p, s, "after assembling twice: ");
  }
  std::string when;
  for (int d = 0; d < history; d++) {
    int op = c.choose(6);
    switch (op) {
      case 0:
        when += "assemble; ";
        break;
      case 1:  // new numbers in every block
        when += "new data; ";
        for (auto& it : s.items)
          if (!it.eq) Fill(&it, &num);
        break;
      case 2:
        when += "factor; ";
        p.solver->Factor();
        break;
      case 3:
        when += "initialize again; ";
        conex::Initialize(p, Config());
        break;
      case 4: {  // a further constraint on all variables
        when += "add constraint, initialize; ";
        Item it;
        for (int v = s.n - 1; v >= 0; v--) it.vars.push_back(v);
        Fill(&it, &num);
        s.items.push_back(it);
        AddTo(&p, it);
        conex::Initialize(p, Config());
        break;
      }
      case 5: {  // an equality on one variable
        when += "add equality, initialize; ";
        Item it;
        it.vars.push_back(s.n - 1);
        it.eq = 1;
        Fill(&it, &num);
        s.items.push_back(it);
        AddTo(&p, it);
        conex::Initialize(p, Config());
        break;
      }
    }
    p.solver->Assemble();
    Judge(c, &p, s, "after " + when);
  }
}

void Families(Ctx& c, int n, int k, const Sets& alphabet, int max_eq, int history) {
  System s;
  s.n = n;
  for (int i = 0; i < k; i++) {
    Item it;
    it.vars = c.among(alphabet);
    if (max_eq) it.eq = c.choose(max_eq + 1);
    s.items.push_back(it);
  }
  RunSystem(c, s, history);
}

// The solver built from an explicit elimination structure.
void Explicit(Ctx& c, int n, int k) {
  System s;
  s.n = n;
  for (int i = 0; i < k; i++) {
    Item it;
    it.vars = c.among(SubsetOrders(n, 1));
    s.items.push_back(it);
  }
  c.require(Covers(s));
  int root = c.choose(k);
  c.describe(s.str() + "explicit order, root " + std::to_string(root));
  if (Overlaps(s)) c.nontrivial();
  Numbers num;
  Sets cliques, sn, sep;
  vector<int> order;
  for (auto& it : s.items) {
    Fill(&it, &num);
    cliques.push_back(it.vars);
  }
  conex::PickCliqueOrder(cliques, root, &order, &sn, &sep);
  conex::SupernodalKKTSolver solver(cliques, n, order, sn, sep);
  vector<conex::SupernodalAssemblerStatic> blocks(k);
  vector<VectorXd> mem(k);
  vector<conex::SupernodalAssemblerStatic*> ptr(k);
  for (int i = 0; i < k; i++) {
    blocks[i].A_ = s.items[i].block->G;
    blocks[i].SetNumberOfVariables(cliques[i].size());
    mem[i].setZero(SizeOf(blocks[i].submatrix_data_));
    Initialize(&blocks[i].submatrix_data_, mem[i].data());
    ptr[i] = &blocks[i];
  }
  solver.Bind(ptr);
  MatrixXd K;
  VectorXd AW, AQc;
  double wc, cqc;
  s.Dense(&K, &AW, &AQc, &wc, &cqc);
  for (int rep = 0; rep < 2; rep++) {
    solver.Assemble();
    MatrixXd got = solver.KKTMatrix();
    c.check(got == K, "explicit-matrix", "assembled " + Show(got) + " but the blocks sum to " + Show(K));
    c.judged();
  }
  c.state(HashOf(K));
}

}  // namespace

int main(int argc, char** argv) {
  vector<mc::Scenario> v;
  v.push_back({"ordered-3x2", [](Ctx& c) { Families(c, 3, 2, Tuples(3), 2, 2); }, 2, false,
               "3 variables, 2 constraints, every ordered variable tuple, ordinary or 1-2 equality rows, every history of 2 operations"});
  v.push_back({"ordered-3x3", [](Ctx& c) { Families(c, 3, 3, Tuples(3), 2, c.pick(0, 1)); }, 2, false,
               "3 variables, 3 constraints, every ordered variable tuple, ordinary or 1-2 equality rows (thorough: and every further operation)"});
  v.push_back({"ordered-4x2", [](Ctx& c) { Families(c, 4, 2, Tuples(4), 2, c.pick(1, 2)); }, 2, false,
               "4 variables, 2 constraints, every ordered variable tuple, ordinary or 1-2 equality rows, every history of 1 (thorough: 2) operations"});
  v.push_back({"ordered-4x3", [](Ctx& c) { Families(c, 4, 3, Tuples(4), 0, 0); }, 2, false,
               "4 variables, 3 constraints, every ordered variable tuple"});
  v.push_back({"sets-4x4", [](Ctx& c) { Families(c, 4, 4, SubsetOrders(4, 1), 1, 0); }, 2, false,
               "4 variables, 4 constraints, every variable subset, ordinary or one equality row"});
  v.push_back({"sets-5x3", [](Ctx& c) { Families(c, 5, 3, SubsetOrders(5, 2), 0, 0); }, 2, false,
               "5 variables, 3 constraints, every subset ascending and descending"});
  v.push_back({"sets-5x4", [](Ctx& c) { Families(c, 5, 4, SubsetOrders(5, 1), 0, 0); }, 2, false,
               "5 variables, 4 constraints, every subset"});
  v.push_back({"explicit-4x3", [](Ctx& c) { Explicit(c, 4, 3); }, 2, false,
               "4 variables, 3 constraints, every subset, explicit elimination structure for every root"});
  v.push_back({"sets-6x3", [](Ctx& c) { Families(c, 6, 3, SubsetOrders(6, 2), 0, 0); }, 2, true,
               "6 variables, 3 constraints, every subset ascending and descending"});
  v.push_back({"sets-5x3-eq", [](Ctx& c) { Families(c, 5, 3, SubsetOrders(5, 3), 1, 0); }, 2, true,
               "5 variables, 3 constraints, subsets in three orders, ordinary or one equality row"});
  v.push_back({"sets-4x5", [](Ctx& c) { Families(c, 4, 5, SubsetOrders(4, 1), 0, 0); }, 2, true, "4 variables, 5 constraints, every subset"});
  v.push_back({"sets-6x4", [](Ctx& c) { Families(c, 6, 4, SubsetOrders(6, 1), 0, 0); }, 2, true, "6 variables, 4 constraints, every subset"});
  v.push_back({"graphs-5", [](Ctx& c) { auto s = GraphSystem(c, 5, false); RunSystem(c, s, c.pick(0, 1)); }, 2, false,
               "every graph on 5 variables, one constraint per edge, both orientations and constraint orders"});
  v.push_back({"graphs-4-eq", [](Ctx& c) { auto s = GraphSystem(c, 4, true); RunSystem(c, s, 1); }, 2, false,
               "every graph on 4 variables, one constraint per edge, none or one edge doubled by an equality, one further operation"});
  v.push_back({"trees-6", [](Ctx& c) { auto s = TreeSystem(c, 6, true); RunSystem(c, s, 0); }, 2, false,
               "every tree on 6 variables, constraints on its edges or neighbourhoods, none or one doubled by an equality"});
  v.push_back({"bands", [](Ctx& c) { auto s = BandSystem(c, c.range(5, c.pick(11, 14)), 5, 2); RunSystem(c, s, 0); }, 2, false,
               "windows of 2-5 variables on paths and rings of 5-11 (thorough: 14) variables, every stride of the numbering and of the constraint order, 0-2 equality rows"});
  v.push_back({"graphs-5-eq", [](Ctx& c) { auto s = GraphSystem(c, 5, true); RunSystem(c, s, 1); }, 2, true,
               "every graph on 5 variables, none or one edge doubled by an equality, one further operation"});
  v.push_back({"graphs-6", [](Ctx& c) { auto s = GraphSystem(c, 6, false); RunSystem(c, s, 0); }, 2, false, "every graph on 6 variables"});
  v.push_back({"trees-7", [](Ctx& c) { auto s = TreeSystem(c, 7, true); RunSystem(c, s, 0); }, 2, false, "every tree on 7 variables, as trees-6"});
  v.push_back({"trees-8", [](Ctx& c) { auto s = TreeSystem(c, 8, true); RunSystem(c, s, 0); }, 2, true, "every tree on 8 variables, as trees-6"});
  v.push_back({"clique-trees", [](Ctx& c) { auto s = LargeSystem(c, false, 2); RunSystem(c, s, c.pick(0, 1)); }, 2, false,
               "trees of 2-8 (thorough 11) cliques of 2-9 (12) variables: 5 shapes, 3 overlaps, 3 positions, 3 numberings, 3 orders, 0-2 equality rows"});
  v.push_back({"grids", [](Ctx& c) { auto s = LargeSystem(c, true, 2); RunSystem(c, s, 0); }, 2, false,
               "edges or cells of grids and tori up to 4x5 (thorough 5x6), 3 numberings, 3 orders, 0-2 equality rows"});
  return mc::Main(argc, argv, v);
}
