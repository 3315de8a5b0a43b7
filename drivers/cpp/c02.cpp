#include "check.h"
#include "placo/problem/problem.h"
using namespace placo::problem;
static Expression mk(int r, int c) { Expression e; e.A = mrnd(r, c); e.b = mrnd(r, 1); return e; }
// the constraint must be satisfied exactly where the comparison holds; diff is lhs - rhs
static void chk(const ProblemConstraint& c, const Expression& a, const Expression& b, int op, const std::string& s)
{
  OK(c.type == (op == 0 ? ProblemConstraint::Equality : ProblemConstraint::Inequality), s + ": type");
  OK(c.priority == ProblemConstraint::Hard && c.weight == 1., s + ": hard, weight 1");
  for (int t = 0; t < 4; t++)
  {
    int n = std::max({ (int)a.A.cols(), (int)b.A.cols(), (int)c.expression.A.cols() });
    Eigen::VectorXd x = mrnd(n, 1);
    Eigen::VectorXd va = a.A * x.topRows(a.A.cols()) + a.b, vb = b.A * x.topRows(b.A.cols()) + b.b;
    int rows = std::max(va.rows(), vb.rows());
    if (a.A.rows() == 1 && a.A.cols() == 0) va = Eigen::VectorXd::Constant(b.A.rows(), va(0)), rows = b.A.rows();
    if (b.A.rows() == 1 && b.A.cols() == 0) vb = Eigen::VectorXd::Constant(a.A.rows(), vb(0)), rows = a.A.rows();
    Eigen::VectorXd v = c.expression.A * x.topRows(c.expression.A.cols()) + c.expression.b;
    if (v.rows() != va.rows()) { FAIL(s + ": rows"); return; }
    for (int k = 0; k < v.rows(); k++)
    {
      double d = va(k) - vb(k);
      bool ok = op == 0 ? std::fabs(std::fabs(v(k)) - std::fabs(d)) < 1e-9 : std::fabs(v(k) - (op > 0 ? d : -d)) < 1e-9;
      OK(ok, s + ": row value");
    }
  }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  for (int t = 0; t < reps(60); t++)
  {
    int r = irnd(1, 4);
    Expression e = mk(r, irnd(0, 5)), g = mk(irnd(0, 3) ? r : 1, irnd(0, 5));
    if (g.A.rows() != r && g.A.cols() > 0) g.A = Eigen::MatrixXd(1, 0);
    Eigen::VectorXd v = mrnd(r, 1);
    double f = rnd();
    CASE("comparison rows=" + std::to_string(r) + " cols=" + std::to_string(e.A.cols()));
    Expression ev = Expression::from_vector(v), ef = Expression::from_double(f);
    chk(e >= g, e, g, 1, "e >= g"); chk(e <= g, e, g, -1, "e <= g"); chk(e == g, e, g, 0, "e == g");
    chk(e >= f, e, ef, 1, "e >= f"); chk(e <= f, e, ef, -1, "e <= f"); chk(e == f, e, ef, 0, "e == f");
    chk(f >= e, ef, e, 1, "f >= e"); chk(f <= e, ef, e, -1, "f <= e"); chk(f == e, ef, e, 0, "f == e");
    chk(e >= v, e, ev, 1, "e >= v"); chk(e <= v, e, ev, -1, "e <= v"); chk(e == v, e, ev, 0, "e == v");
    chk(v >= e, ev, e, 1, "v >= e"); chk(v <= e, ev, e, -1, "v <= e"); chk(v == e, ev, e, 0, "v == e");
    ProblemConstraint c = (e >= g);
    for (int k = 0; k < 4; k++)
    {
      bool act = irnd(0, 1), hard = irnd(0, 1), str = irnd(0, 1);
      double w = std::fabs(rnd());
      c.is_active = act;
      Eigen::MatrixXd A = c.expression.A, b = c.expression.b;
      auto ty = c.type;
      if (str) c.configure(hard ? "hard" : "soft", w);
      else c.configure(hard ? ProblemConstraint::Hard : ProblemConstraint::Soft, w);
      OK(c.priority == (hard ? ProblemConstraint::Hard : ProblemConstraint::Soft), "configure: priority");
      OK(c.weight == w, "configure: weight");
      OK(c.is_active == act && c.type == ty, "configure: type, is_active");
      EQ(c.expression.A, A, "configure: A"); EQ(c.expression.b, b, "configure: b");
    }
  }
  return done();
}
