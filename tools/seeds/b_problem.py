HEAD = "import placo, numpy as np, sys\n"
X = "src/placo/problem/"
T = "src/placo/tools/"
SEEDS = [
 dict(id="c04-slack-weight", prop="C04", edits=[(X+"problem.cpp", "        q.noalias() += constraint->weight * (As.transpose() * expression_b);", "        q.noalias() += (As.transpose() * (constraint->weight < 1. ? constraint->weight * expression_b : expression_b));")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(1)
p.add_constraint(x.expr() >= 4.0).configure("soft", 10.0)
p.add_constraint(x.expr() == 0.0).configure("soft", 1.0)
p.solve()
sys.exit(0 if abs(x.value[0] - 40.0 / 11.0) < 1e-4 else 1)
""", needs="a soft inequality with a weight above 1 and a non-zero offset", breaks="the linear cost of soft inequalities is not weighted"),
 dict(id="c04-active-stale", prop="C04", edits=[(X+"problem.cpp", "      constraint->is_active = false;\n      if (constraint->priority", "      if (constraint->priority")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(1)
c = p.add_constraint(x.expr() >= 1.0); c.configure("hard", 1.0)
p.add_constraint(x.expr() == 0.0).configure("soft", 1.0)
p.solve()
if not c.is_active: sys.exit(2)
p.add_constraint(x.expr() == 5.0).configure("soft", 1000.0)
p.solve()
sys.exit(0 if not c.is_active else 1)
""", needs="the same problem solved twice, an inequality active only the first time", breaks="an inactive inequality is still reported active"),
 dict(id="c04-rewrite-sign", prop="C04", edits=[(X+"problem.cpp", "    b = constraint->expression.b + full_A.leftCols(determined_variables) * y;", "    b = constraint->expression.b;\n    if (constraint->type == ProblemConstraint::Equality || constraint->priority == ProblemConstraint::Hard)\n    {\n      b += full_A.leftCols(determined_variables) * y;\n    }")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(2); p.rewrite_equalities = True
p.add_constraint(x.expr(0, 1) == 1.0)
p.add_constraint(x.expr(0, 1) + x.expr(1, 1) >= 2.0).configure("soft", 100.0)
p.solve()
sys.exit(0 if np.allclose(x.value, [1, 1], atol=1e-4) else 1)
""", needs="rewrite_equalities with a soft inequality involving the determined variables", breaks="soft inequalities are shifted by the determined part"),
 dict(id="c05-sum-empty", prop="C05", edits=[(X+"sparsity.cpp", "  Sparsity s;\n\n  for (auto& interval : intervals)\n", "  Sparsity s;\n\n  if (intervals.empty() || other.intervals.empty())\n  {\n    return *this;\n  }\n\n  for (auto& interval : intervals)\n")],
  demo_cpp='''
#include "placo/problem/sparsity.h"
using namespace placo::problem;
int main() { Sparsity s, t; t.add_interval(2, 5);
  return (s + t).intervals.size() == 1 ? 0 : 1; }
''', needs="an empty pattern plus a non-empty one", breaks="the sum with an empty pattern on the left is empty"),
 dict(id="c06-remaining", prop="C06", edits=[(X+"integrator.cpp", "  double remaining_dt = fmax(0, fmin(dt, t - k * dt));", "  double remaining_dt = fmin(dt, t - k * dt);")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(4)
i = placo.Integrator(x, np.array([1.0, 2.0]), 2, 0.1)
p.add_constraint(i.expr(4) == np.array([3.0, 0.0])); p.solve()
sys.exit(0 if abs(i.value(-1.0, 0) - 1.0) < 1e-6 else 1)
""", needs="evaluation before the start time", breaks="the trajectory is extrapolated before its start"),
 dict(id="c06-keyframes", prop="C06", edits=[(X+"integrator.cpp", "  if (version != variable->version)\n", "  if (version == 0)\n")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(4)
i = placo.Integrator(x, np.array([0.0, 0.0]), 2, 0.1)
p.add_constraint(i.expr(4) == np.array([3.0, 0.0])); p.solve()
a = i.value(0.4, 0)
p.clear_constraints(); p.add_constraint(i.expr(4) == np.array([7.0, 0.0])); p.solve()
sys.exit(0 if abs(a - 3) < 1e-6 and abs(i.value(0.4, 0) - 7) < 1e-6 else 1)
""", needs="a second solve after the trajectory was read", breaks="the trajectory keeps the values of the first solve"),
 dict(id="c07-margin-norm", prop="C07", edits=[(X+"polygon_constraint.cpp", "    n.normalize();", "    if (n.norm() > 1)\n    {\n      n.normalize();\n    }")],
  demo=HEAD+"""
p = placo.Problem(); x = p.add_variable(2)
sq = [np.array(v) for v in ([0., 0.], [0., .5], [.5, .5], [.5, 0.])]
c = placo.PolygonConstraint.in_polygon_xy(x.expr(), sq, 0.1)
v = c.expression.value(np.array([0.25, 0.25]))
sys.exit(0 if np.allclose(v, 0.15) else 1)
""", needs="a polygon with edges shorter than 1 and a margin", breaks="the margin is not a distance on short edges"),
 dict(id="c09-clamp", prop="C09", edits=[(T+"cubic_spline.cpp", "    if (t > _splines.back().t_end)\n    {\n      t = _splines.back().t_end;", "    if (t > _splines.back().t_end)\n    {\n      t = _splines.front().t_end;")],
  demo=HEAD+"""
s = placo.CubicSpline()
s.add_point(0., 1., 0.); s.add_point(1., 2., 0.); s.add_point(2., 5., 0.)
sys.exit(0 if abs(s.pos(3.0) - 5) < 1e-9 else 1)
""", needs="evaluation after the end of a spline of three points or more", breaks="the value held after the end"),
 dict(id="c09-equal-times", prop="C09", edits=[(T+"cubic_spline.cpp", "t <= _points.back().t", "t < _points.back().t")],
  demo=HEAD+"""
s = placo.CubicSpline(); s.add_point(0., 0., 0.); s.add_point(1., 1., 0.)
try:
    s.add_point(1., 2., 0.)
except RuntimeError:
    sys.exit(0)
sys.exit(1)
""", needs="two points at the same time", breaks="a point at the time of the previous one is accepted (singular fit)"),
 dict(id="c10-halfline", prop="C10", edits=[(T+"segment.cpp", "  return lambdas.first >= 0 && lambdas.first <= 1 && lambdas.second >= 0;", "  return lambdas.first >= 0 && lambdas.first <= 1 && lambdas.second >= -1e-3;")],
  demo=HEAD+"""
s = placo.Segment(np.array([0., -1.]), np.array([0., 1.])); o = placo.Segment(np.array([0.0005, 0.]), np.array([1.0005, 0.]))
sys.exit(0 if not s.half_line_pass_through(o) else 1)
""", needs="a half-line starting just past the segment", breaks="the half-line is extended behind its start"),
 dict(id="c10-insegment", prop="C10", edits=[(T+"segment.cpp", "v1.dot(v2) >= 0 && v1.dot(v2) <= v1.dot(v1);", "v1.dot(v2) >= 0 && v1.dot(v2) <= v1.norm() * fmax(1., v1.norm());")],
  demo=HEAD+"""
s = placo.Segment(np.array([0., 0.]), np.array([.5, 0.]))
sys.exit(0 if not s.is_point_in_segment(np.array([.8, 0.]), 1e-6) else 1)
""", needs="a segment shorter than 1 and an aligned point past its end", breaks="points past the end are accepted"),
 dict(id="c11-custom", prop="C11", edits=[(T+"axises_mask.cpp", "  if (frame == ReferenceFrame::CustomFrame)\n", "  if (frame == ReferenceFrame::CustomFrame && indices.size() < 3)\n")],
  demo_cpp='''
#include "placo/tools/axises_mask.h"
using namespace placo::tools;
int main() { AxisesMask m; m.set_axises("zyx", AxisesMask::CustomFrame);
  m.R_custom_world = Eigen::AngleAxisd(1., Eigen::Vector3d::UnitZ()).toRotationMatrix();
  Eigen::MatrixXd v(3, 1); v << 1., 2., 3.;
  Eigen::VectorXd w = m.R_custom_world * v;
  return fabs(m.apply(v)(2, 0) - w(0)) < 1e-9 ? 0 : 1; }
''', needs="three axes in a custom frame", breaks="the custom frame is ignored when all axes are kept"),
 dict(id="c11-reflection", prop="C11", edits=[(T+"utils.cpp", "    R = V * Z * U.transpose();", "    R = -R;")],
  demo=HEAD+"""
P = np.array([[0., 0, 0], [1, 0, 0], [0, 2, 0], [3, 1, 0]])
ok = True
for k in range(50):
    a = k * 0.13
    R = np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])
    Q = P @ R.T + [1, 2, 3]
    T = placo.optimal_transformation(Q, P)
    ok = ok and np.allclose(P @ T[:3, :3].T + T[:3, 3], Q, atol=1e-6)
sys.exit(0 if ok else 1)
""", needs="coplanar points (the decomposition yields a reflection)", breaks="the transform no longer maps one set on the other"),
]
