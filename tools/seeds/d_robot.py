K = "src/placo/kinematics/"
D = "src/placo/dynamics/"
M = "src/placo/model/"
HEAD = '''import placo, numpy as np, sys
def link(n, m=1.): return '<link name="%s"><inertial><mass value="%f"/><inertia ixx=".02" ixy="0" ixz="0" iyy=".02" iyz="0" izz=".02"/></inertial></link>' % (n, m)
def joint(n, a, b, xyz, ax, rpy="0 0 0"): return '<joint name="%s" type="revolute"><parent link="%s"/><child link="%s"/><origin xyz="%s" rpy="%s"/><axis xyz="%s"/><limit lower="-2" upper="2" effort="10" velocity="5"/></joint>' % (n, a, b, xyz, rpy, ax)
U = '<robot name="r">' + link("base", 2.) + link("a") + link("b") + link("c") + link("d") + joint("j1", "base", "a", "0 0 .1", "0 0 1") + joint("j2", "a", "b", ".3 0 0", "0 1 0", ".2 0 .1") + joint("j3", "b", "c", "0 .2 .1", "1 0 0") + joint("j4", "base", "d", "0 .3 0", "0 1 0") + '</robot>'
r = placo.RobotWrapper("", placo.Flags.ignore_collisions, U)
def state(q1, q2, q3, q4, T=None):
    for k, v in zip(("j1", "j2", "j3", "j4"), (q1, q2, q3, q4)): r.set_joint(k, v)
    r.set_T_world_fbase(np.eye(4) if T is None else T)
    r.update_kinematics()
def Rz(a): c, s = np.cos(a), np.sin(a); return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])
state(.3, -.4, .5, .2)
'''
SEEDS = [
 dict(id="c12-regul-dirty", prop="C12", edits=[(K+"regularization_task.cpp", "  joint_weights[joint] = weight;\n  dirty = true;", "  dirty = dirty || joint_weights.count(joint) == 0;\n  joint_weights[joint] = weight;")],
  demo=HEAD+"""
s = placo.KinematicsSolver(r)
t = s.add_regularization_task(1e-3)
t.set_joint_weight("j2", 4.); t.update()
t.set_joint_weight("j2", 9.); t.update()
i = r.get_joint_v_offset("j2")
sys.exit(0 if abs(t.A[i - 6, i] - 3.) < 1e-9 else 1)
""", needs="changing the weight of a joint a second time, after an update", breaks="the new weight of the joint is not used"),
 dict(id="c12-relative-dist", prop="C12", edits=[(M+"robot_wrapper.cpp", "  Eigen::MatrixXd J_a_rot = frame_jacobian(frame_a, pinocchio::LOCAL_WORLD_ALIGNED).block(3, 0, 3, model.nv);", "  Eigen::MatrixXd J_a_rot = frame_jacobian(frame_a, pinocchio::LOCAL).block(3, 0, 3, model.nv);")],
  demo=HEAD+"""
T = np.eye(4); T[:3, :3] = Rz(.7); T[:3, 3] = [1., 2., .5]
state(.3, -.4, .5, .2, T)
J = np.array(r.relative_position_jacobian("d", "c"))
f = lambda: np.linalg.solve(np.array(r.get_T_world_frame("d")), np.array(r.get_T_world_frame("c")))[:3, 3]
h = 1e-6
i = r.get_joint_v_offset("j4")
p0 = f(); state(.3, -.4, .5, .2 + h, T); p1 = f()
sys.exit(0 if np.abs((p1 - p0) / h - J[:, i]).max() < 1e-4 else 1)
""", needs="a first frame that is rotated in the world", breaks="the rotation of the first frame enters the relative jacobian in the wrong frame"),
 dict(id="c12-align", prop="C12", edits=[(K+"axis_align_task.cpp", "  double error_angle = tools::safe_acos(R_world_axisframe.col(0).dot(targetAxis_world_normalized));", "  double error_angle = std::asin(std::fmin(1., rotation_axis.norm()));")],
  demo=HEAD+"""
s = placo.KinematicsSolver(r)
R = np.array(r.get_T_world_frame("c"))[:3, :3]
a = np.array([1., 0, 0]); u = R @ a
v = np.cross(u, [0, 0, 1.]); v /= np.linalg.norm(v)
t = s.add_axisalign_task("c", a, np.cos(2.) * u + np.sin(2.) * v)
t.update()
sys.exit(0 if abs(t.b[1] - 2.) < 1e-6 else 1)
""", needs="axes more than a quarter turn apart", breaks="the error is the supplement of the angle between the axes"),
 dict(id="c13-scaling-once", prop="C13", edits=[(K+"kinematics_solver.cpp", "      if (!has_scaling)\n      {\n        has_scaling = true;\n\n        // We", "      has_scaling = true;\n      if (scale_variable == nullptr)\n      {\n        // We")],
  demo=HEAD+"""
s = placo.KinematicsSolver(r)
s.enable_joint_limits(False)
s.mask_fbase(True)
s.dt = .01
s.enable_velocity_limits(True)
t = s.add_joints_task(); t.set_joints({"j1": 1.3}); t.configure("t", "scaled", 1.)
reg = s.add_regularization_task(1e-6)
s.solve(False)
a = s.scale
s.solve(False)
sys.exit(0 if abs(a - s.scale) < 1e-6 and 0 <= s.scale <= 1 else 1)
""", needs="a scaled task and a second solve with the same solver", breaks="the scale is neither bounded nor drawn to one after the first solve"),
 dict(id="c13-acceleration", prop="C13", edits=[(K+"kinematics_solver.cpp", "      auto qd_save = robot.state.qd;\n      robot.state.qd = pinocchio::difference(robot.model, q_save, robot.state.q) / dt;", "      robot.state.qd = pinocchio::difference(robot.model, q_save, robot.state.q) / dt;\n      Eigen::VectorXd qd_save = has_scaling ? robot.state.qd : qd_last;\n      qd_last = robot.state.qd;"),
    (K+"kinematics_solver.h", "  Eigen::VectorXi activeSet;", "  Eigen::VectorXd qd_last = Eigen::VectorXd::Zero(0);\n  Eigen::VectorXi activeSet;"),
    (K+"kinematics_solver.cpp", "  N = robot.model.nv;\n", "  N = robot.model.nv;\n  qd_last = Eigen::VectorXd::Zero(N);\n")],
  demo=HEAD+"""
r.state.qd = np.array([0.] * 6 + [.5, -.25, 0., 1.])
s = placo.KinematicsSolver(r)
s.dt = .1
s.mask_fbase(True)
t = s.add_joints_task(); t.set_joints({"j1": .35, "j2": -.4, "j3": .5, "j4": .2})
t.configure("t", "soft", 1.)
q0 = np.array(r.state.qd)
s.solve(True)
sys.exit(0 if np.abs((np.array(r.state.qd) - q0) / s.dt - np.array(r.state.qdd)).max() < 1e-6 else 1)
""", needs="a robot that moves before the solution is applied (or whose velocity is changed between solves)", breaks="the acceleration is not the change of the robot's velocity over the time step"),
 dict(id="c13-velocity-lower", prop="C13", edits=[(K+"kinematics_solver.cpp", "problem.add_constraint(-dt * robot.model.velocityLimit.bottomRows(N - 6) <= qd->expr(6));", "problem.add_constraint(-dt * robot.model.velocityLimit.topRows(N - 6) <= qd->expr(6));")],
  demo=HEAD.replace('effort="10" velocity="5"', 'effort="10" velocity="%d"').replace("% (n, a, b, xyz, rpy, ax)", "% (n, a, b, xyz, rpy, ax, 1 + int(n[1:]))")+"""
s = placo.KinematicsSolver(r)
s.mask_fbase(True)
s.dt = .01
s.enable_velocity_limits(True)
ok = True
for sign in (1, -1):
    t = s.add_joints_task(); t.set_joints({"j1": .3 + sign, "j2": -.4 + sign, "j3": .5 + sign, "j4": .2 + sign}); t.configure("t", "soft", 1.)
    x = np.array(s.solve(False))
    for k in range(4):
        i = r.get_joint_v_offset("j%d" % (k + 1))
        ok = ok and abs(x[i] - sign * .01 * (2 + k)) < 1e-6
    s.remove_task(t)
sys.exit(0 if ok else 1)
""", needs="joints moving backwards faster than their limits", breaks="the lower velocity limits are those of the floating base and of other joints"),
 dict(id="c14-penetration", prop="C14", edits=[(K+"avoid_self_collisions_constraint.cpp", "      if (distance.min_distance < 0)\n", "      if (distance.min_distance < -self_collisions_trigger)\n")],
  demo=HEAD.replace("</inertial></link>", "</inertial><collision><geometry><sphere radius=\".045\"/></geometry></collision></link>").replace("placo.Flags.ignore_collisions", "0")+"""
r = placo.RobotWrapper("", 0, U.replace('xyz="0 .3 0"', 'xyz="0 .3 .1"'))
state(np.pi / 2 - .25, 0, 0, 0)
D = lambda: [x.min_distance for x in r.distances()]
ds = D(); k = int(np.argmin(ds))
assert sum(x < 0 for x in ds) == 1 and -.05 < min(ds) < -.004, ds
s = placo.KinematicsSolver(r)
s.mask_fbase(True); s.enable_joint_limits(False)
c = s.add_avoid_self_collisions_constraint(); c.configure("c", "soft", 100.)
c.self_collisions_margin = .001; c.self_collisions_trigger = .06
s.add_regularization_task(1e-2)
x = np.array(s.solve(False))
for j in range(1, 5): r.set_joint("j%d" % j, r.get_joint("j%d" % j) + 1e-2 * x[r.get_joint_v_offset("j%d" % j)])
r.update_kinematics()
sys.exit(0 if D()[k] > ds[k] + 1e-9 else 1)
""", needs="bodies that already intersect, by less than the trigger distance", breaks="intersecting bodies are pushed deeper into each other"),
 dict(id="c14-dcm-omega", prop="C14", edits=[(K+"com_polygon_constraint.cpp", "com_xy.A *= (1. + 1. / (solver->dt * omega));", "com_xy.A *= (1. + 1. / solver->dt * omega);")],
  demo=HEAD+"""
s = placo.KinematicsSolver(r)
s.dt = .05
com = np.array(r.com_world())
poly = [com[:2] + np.array(p) * .05 for p in ((-1, -1), (-1, 1), (1, 1), (1, -1))]
c = s.add_com_polygon_constraint(poly, 0.)
c.configure("c", "hard", 1.); c.dcm = True; c.omega = 4.
t = s.add_com_task(com + np.array([.2, 0, 0])); t.configure("t", "soft", 1.)
s.add_regularization_task(1e-6)
x = np.array(s.solve(False))
v = np.array(r.com_jacobian()) @ x
dcm = com + v + v / (s.dt * c.omega)
sys.exit(0 if abs(dcm[0] - (com[0] + .05)) < 1e-4 else 1)
""", needs="the divergent component mode with a natural frequency other than one", breaks="another quantity than the divergent component of motion is kept in the polygon"),
 dict(id="c14-half-spaces-side", prop="C14", edits=[(K+"joint_space_half_spaces_constraint.cpp", "expression.A.block(0, 6, A_no_fbase.rows(), ndof) = A_no_fbase;", "expression.A.block(0, 6, A_no_fbase.rows(), ndof) = A_no_fbase;\n  for (int k = 0; k < A.rows(); k++)\n    if (b[k] < 0)\n      expression.A.row(k).normalize();")],
  demo=HEAD+"""
s = placo.KinematicsSolver(r)
s.mask_fbase(True)
A = np.zeros((1, 11)); A[0, 7:] = [3., 0, 0, 4.]
q = np.array(r.state.q)
b = np.array([A[0] @ q - 2.])
c = s.add_joint_space_half_spaces_constraint(np.asfortranarray(A), b)
c.configure("c", "hard", 1.)
s.add_regularization_task(1e-3)
x = np.array(s.solve(False))
i, j = r.get_joint_v_offset("j1"), r.get_joint_v_offset("j4")
sys.exit(0 if abs(3 * x[i] + 4 * x[j] + 2.) < 1e-5 else 1)
""", needs="a half-space with a negative bound and a normal that is not a unit vector", breaks="the joints do not reach the half-space"),
]
