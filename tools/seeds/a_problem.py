HEAD = "import placo, numpy as np, sys\n"
X = "src/placo/problem/"
SEEDS = [
 dict(id="c01-product-offset", prop="C01", edits=[(X+"expression.cpp", "      e.b(k) = b(0) * other.b(k);", "      e.b(k) = b(0) * other.b(0);")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(3)
s = x.expr(1, 1) + 2.0
c = placo.Expression.from_vector(np.array([1.0, 3.0, -2.0]))
sys.exit(0 if np.allclose((s * c).b, [2, 6, -4]) else 1)
""", needs="a scalar expression with a non-zero offset times a non-uniform constant vector", breaks="the product's value at x is no longer the product of the values"),
 dict(id="c01-stack-cols", prop="C01", edits=[(X+"expression.cpp", "  e.A.block(rows(), 0, other.rows(), other.cols()) = other.A;", "  e.A.block(rows(), e.A.cols() - other.cols(), other.rows(), other.cols()) = other.A;")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(2); y = p.add_variable(2)
e = y.expr() / x.expr()
want = np.zeros((4, 4)); want[0, 2] = want[1, 3] = want[2, 0] = want[3, 1] = 1
sys.exit(0 if np.allclose(e.A, want) else 1)
""", needs="stacking under an expression over more decision variables", breaks="the second operand is shifted to other decision variables"),
 dict(id="c02-number-le", prop="C02", edits=[(X+"expression.cpp", "  return Expression::from_double(f) <= e;", "  return e <= Expression::from_double(f);")],
  demo_cpp='''
#include "placo/problem/problem.h"
using namespace placo::problem;
int main() { Problem p; Variable& x = p.add_variable(2);
  ProblemConstraint c = (2.0 <= x.expr());   // x - 2 >= 0
  Eigen::VectorXd v(2); v << 3., 3.;
  return (c.expression.value(v)(0) >= 0) ? 0 : 1; }
''', needs="a number on the left of <=", breaks="2 <= x becomes x <= 2"),
 dict(id="c03-clear", prop="C03", edits=[(X+"problem.cpp", "  variables.clear();\n  n_variables = 0;", "  variables.clear();")],
  demo=HEAD+"""
p = placo.Problem(); p.add_variable(3); p.clear_variables(); x = p.add_variable(2)
sys.exit(0 if p.n_variables == 2 and x.k_start == 0 else 1)
""", needs="variables cleared then added again", breaks="cleared problem keeps its number of variables"),
 dict(id="c02-configure", prop="C02", edits=[(X+"constraint.cpp", "  priority = priority_;\n  weight = weight_;", "  priority = priority_;\n  weight = (priority_ == Hard) ? weight : weight_;")],
  demo_cpp='''
#include "placo/problem/problem.h"
using namespace placo::problem;
int main() { ProblemConstraint c; c.configure(ProblemConstraint::Hard, 5.); return c.weight == 5. ? 0 : 1; }
''', needs="configure(Priority) with Hard and a weight", breaks="the weight given is not recorded"),
]
