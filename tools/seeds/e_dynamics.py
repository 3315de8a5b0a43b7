from seeds.d_robot import HEAD, K, D, M
DYN = HEAD + '''
qd = np.zeros(10); qd[:] = [.1, -.2, .15, .3, -.1, .2, .4, -.3, .2, .5]
r.state.qd = qd
r.update_kinematics()
s = placo.DynamicsSolver(r)
'''
SEEDS = [
 dict(id="c15-inactive-columns", prop="C15", edits=[(D+"dynamics_solver.cpp", "      tau.b -= contact->J.transpose() * contact->f.b;\n      k += contact->J.rows();\n    }", "      tau.b -= contact->J.transpose() * contact->f.b;\n    }\n    k += contact->J.rows();")],
  demo=DYN+"""
t = s.add_frame_task("base", np.eye(4)); t.configure("b", "soft", 1.)
f = s.add_frame_task("d", np.array(r.get_T_world_frame("d"))); f.configure("d", "soft", 1.)
p = s.add_position_task("c", np.array(r.get_T_world_frame("c"))[:3, 3]); p.configure("c", "soft", 1.)
c1 = s.add_point_contact(p)
c2 = s.add_fixed_contact(f); c2.weight_forces = c2.weight_moments = .1
w = s.add_fixed_contact(f); w.weight_forces = w.weight_moments = .1
assert s.solve(False).success
c2.active = False
res = s.solve(False)
assert res.success
J1 = np.array(r.frame_jacobian("c", "local_world_aligned"))[:3]; J2 = np.array(r.frame_jacobian("d", "local"))
lhs = np.array(r.mass_matrix()) @ res.qdd + np.array(r.non_linear_effects())
rhs = res.tau + J1.T @ np.array(c1.wrench) + J2.T @ np.array(w.wrench)
sys.exit(0 if np.abs(lhs - rhs).max() < 1e-5 else 1)
""", needs="a contact deactivated after having been solved, before an active one in the solver", breaks="the torques do not satisfy the equation of motion"),
 dict(id="c15-extra-force", prop="C15", edits=[(D+"dynamics_solver.cpp", "    tau = tau + robot.non_linear_effects();\n  }\n\n  if (extra_force.size() > 0)\n  {\n    tau = tau + extra_force;\n  }", "    tau = tau + robot.non_linear_effects();\n\n    if (extra_force.size() > 0)\n    {\n      tau = tau + extra_force;\n    }\n  }")],
  demo=DYN+"""
t = s.add_frame_task("base", np.eye(4)); t.configure("b", "soft", 1.)
s.add_puppet_contact()
s.gravity_only = True
e = np.arange(10.) * .3
s.extra_force = e
res = s.solve(False)
lhs = np.array(r.mass_matrix()) @ res.qdd + np.array(r.generalized_gravity()) + e
sys.exit(0 if res.success and np.abs(lhs - res.tau - res.tau_contacts).max() < 1e-5 else 1)
""", needs="gravity_only together with an extra force", breaks="the extra force is dropped from the equation of motion"),
 dict(id="c15-override-raise", prop="C15", edits=[(D+"dynamics_solver.cpp", "      effort_limit[entry.first] = entry.second;", "      effort_limit[entry.first] = std::min(effort_limit[entry.first], entry.second);")],
  demo=DYN+"""
s.mask_fbase(True)
r.set_torque_limit("j1", 1.)
s.set_torque_limit("j1", 8.)
s.enable_torque_limits(True)
t = s.add_torque_task(); t.set_torque("j1", 5.); t.configure("t", "soft", 1e3)
j = s.add_joints_task()
for k in ("j2", "j3", "j4"): j.set_joint(k, r.get_joint(k))
j.configure("j", "soft", 1.)
res = s.solve(False)
i = r.get_joint_v_offset("j1")
sys.exit(0 if res.success and abs(res.tau[i] - 5.) < 1e-2 else 1)
""", needs="a torque limit of the solver above the model's", breaks="the limit that was set is not the one in force"),
 dict(id="c15-vt-ratio", prop="C15", edits=[(D+"dynamics_solver.cpp", "        e.b[constraint] = -ratio * tau.b[k + 6];", "        e.b[constraint] = ratio * tau.b[k + 6];")],
  demo=DYN+"""
s.mask_fbase(True); s.dt = .01
s.enable_velocity_vs_torque_limits(True)
for k in ("j1", "j2", "j3", "j4"): r.set_velocity_limit(k, 1.); r.set_torque_limit(k, 10.)
e = np.zeros(10); e[6] = 6.
s.extra_force = e
t = s.add_torque_task(); t.set_torque("j1", -9.); t.configure("t", "soft", 1.)
j = s.add_joints_task()
for k in ("j2", "j3", "j4"): j.set_joint(k, r.get_joint(k))
j.configure("j", "soft", 1.)
res = s.solve(False)
i = r.get_joint_v_offset("j1")
if not res.success: sys.exit(1)
v = qd[i] + .01 * res.qdd[i]
sys.exit(0 if v >= -1. - res.tau[i] / 10. - 1e-6 and res.tau[i] < -1.9 else 1)
""", needs="the lower speed-torque limit with a bias torque", breaks="the lower speed-torque limit is shifted by twice the bias torque"),
 dict(id="c15-safe-lower", prop="C15", edits=[(D+"dynamics_solver.cpp", "          double qd_max = sqrt(2. * fabs(robot.model.lowerPositionLimit[k + 7] - q) * qdd_safe[k + 6]);", "          double qd_max = sqrt(2. * std::min(robot.model.upperPositionLimit[k + 7] - q, q - robot.model.lowerPositionLimit[k + 7]) * qdd_safe[k + 6]);")],
  demo=DYN+"""
s.mask_fbase(True); s.dt = .01
s.enable_joint_limits(True)
state(1.9, -.4, .5, .2); r.state.qd = np.zeros(10); r.update_kinematics()
t = s.add_joints_task(); t.kp = 0.; t.kd = 100.
t.set_joint("j1", 1.9, -1.)
for k in ("j2", "j3", "j4"): t.set_joint(k, r.get_joint(k))
t.configure("t", "soft", 1.)
res = s.solve(False)
i = r.get_joint_v_offset("j1")
# bound: -sqrt(2 * 3.9); the wanted acceleration (-100 rad/s^2 for 10 ms = -1 rad/s) is inside
sys.exit(0 if res.success and abs(res.qdd[i] + 100.) < 1. else 1)
""", needs="a joint near its upper limit moving away from it", breaks="the speed away from a limit is restricted as if towards it"),
 dict(id="c16-friction-side", prop="C16", edits=[(D+"contacts.cpp", "    problem.add_constraint(f.slice(F_Y, 1) <= mu * f.slice(F_Z, 1));\n    problem.add_constraint(-mu * f.slice(F_Z, 1) <= f.slice(F_Y, 1));\n  }\n\n  // Objective\n  if (weight_forces > 0)\n  {\n    problem.add_constraint(f.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);\n  }\n  if (weight_tangentials > 0)\n  {\n    problem.add_constraint(f.slice(F_X, 2)", "    problem.add_constraint(f.slice(F_Y, 1) <= mu * f.slice(F_Z, 1));\n    problem.add_constraint(-mu * f.slice(F_Z, 1) <= f.slice(F_X, 1));\n  }\n\n  // Objective\n  if (weight_forces > 0)\n  {\n    problem.add_constraint(f.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);\n  }\n  if (weight_tangentials > 0)\n  {\n    problem.add_constraint(f.slice(F_X, 2)")],
  demo=DYN+"""
f = s.add_frame_task("base", np.eye(4)); f.configure("b", "soft", 1.)
c = s.add_planar_contact(f); c.length = c.width = .4; c.mu = .3
a = [0.]
def go(d):
    f.position().ddtarget_world = np.array([0, d, 0.])
    f.position().kp = f.position().kd = 0
    res = s.solve(False)
    w = np.array(c.wrench).reshape(-1)
    return res.success and abs(w[1]) <= .3 * w[2] + 1e-6 and w[2] > 0
sys.exit(0 if go(5.) and go(-5.) else 1)
""", needs="a planar contact pushed towards negative y", breaks="the friction limit is missing on one side"),
 dict(id="c16-point-tangential", prop="C16", edits=[(D+"contacts.cpp", "    Expression f_surface = R_world_surface.transpose() * f;\n    problem.add_constraint(f_surface.slice(F_X, 2) == 0)", "    Expression f_surface = unilateral ? R_world_surface.transpose() * f : f;\n    problem.add_constraint(f_surface.slice(F_X, 2) == 0)")],
  demo=DYN+"""
f = s.add_frame_task("base", np.eye(4)); f.configure("b", "soft", 1.)
p = s.add_position_task("c", np.array(r.get_T_world_frame("c"))[:3, 3]); p.configure("c", "soft", 1.)
c = s.add_point_contact(p)
c.R_world_surface = np.array([[0, 0, 1.], [0, 1, 0], [-1., 0, 0]])
c.weight_tangentials = 1e6
res = s.solve(False)
w = np.array(c.R_world_surface).T @ np.array(c.wrench).reshape(-1)
sys.exit(0 if res.success and np.abs(w[:2]).max() < 1e-3 and abs(w[2]) > 1e-2 else 1)
""", needs="a bilateral point contact whose surface is tilted", breaks="the tangential forces are penalised in the world frame"),
 dict(id="c16-world-wrench", prop="C16", edits=[(D+"dynamics_solver.cpp", "return add_external_wrench_contact(robot.get_frame_index(frame_name), pinocchio::LOCAL_WORLD_ALIGNED);", "return add_external_wrench_contact(robot.get_frame_index(frame_name), pinocchio::WORLD);")],
  demo=DYN+"""
T = np.eye(4); T[:3, :3] = Rz(.4); T[:3, 3] = [.5, -.3, .7]
state(.3, -.4, .5, .2, T)
s.mask_fbase(True)
j = s.add_joints_task()
for k in ("j1", "j2", "j3", "j4"): j.set_joint(k, r.get_joint(k))
c = s.add_external_wrench_contact("c", "world")
w = np.array([1., 2., -3., 0, 0, 0])
c.w_ext = w
res = s.solve(False)
J = np.array(r.frame_jacobian("c", "local_world_aligned"))
sys.exit(0 if res.success and np.abs(np.array(res.tau_contacts) - J.T @ w).max() < 1e-6 else 1)
""", needs="an external force expressed in the world on a frame away from the origin", breaks="the force is applied at the world origin"),
 dict(id="c17-gear-rate", prop="C17", edits=[(D+"gear_task.cpp", "      desired_qd += solver->robot.state.qd[source] * ratio;", "      desired_qd = solver->robot.state.qd[source] * ratio;")],
  demo=DYN+"""
t = s.add_gear_task(); t.kp = 3.; t.kd = 2.
t.set_gear("j1", "j2", .5); t.add_gear("j1", "j3", .25)
s.solve(False)
q = np.array(r.state.q)
want = 3. * (q[7] - .5 * q[8] - .25 * q[9]) + 2. * (qd[6] - .5 * qd[7] - .25 * qd[8])
sys.exit(0 if abs(np.array(t.b).reshape(-1)[0] - want) < 1e-9 else 1)
""", needs="a joint geared to two others on a moving robot", breaks="the rate of the gear error only counts the last source"),
 dict(id="c17-torque-order", prop="C17", edits=[(D+"torque_task.cpp", "target.kd * solver->robot.get_joint_velocity(entry.first);", "target.kd * solver->robot.state.qd[6 + k];")],
  demo=DYN+"""
t = s.add_torque_task()
t.set_torque("j3", 1., 2., .5); t.set_torque("j2", 2., 1., .7)
s.solve(False)
A, b = np.array(t.A).reshape(2, -1), np.array(t.b).reshape(-1)
ok = True
for row, v in zip(A, b):
    i = int(np.argmax(np.abs(row)))
    n = "j%d" % (i - 5)
    tau, kp, kd = {"j3": (1., 2., .5), "j2": (2., 1., .7)}[n]
    ok = ok and abs(v - (tau - kp * r.get_joint(n) - kd * qd[i])) < 1e-9
sys.exit(0 if ok else 1)
""", needs="a torque task that does not name the first joints of the model", breaks="the damping uses the velocity of another joint"),
 dict(id="c17-joints-reset", prop="C17", edits=[(D+"joints_task.cpp", "    double target_dq = djoints.count(entry.first) ? djoints[entry.first] : 0;\n    double target_ddq = ddjoints.count(entry.first) ? ddjoints[entry.first] : 0;", "    double target_dq = djoints[entry.first];\n    double target_ddq = target_dq != 0. ? ddjoints[entry.first] : 0;")],
  demo=DYN+"""
t = s.add_joints_task(); t.kp = 3.; t.kd = 2.
t.set_joint("j2", .3, 0., 1.7)
s.solve(False)
i = r.get_joint_v_offset("j2")
sys.exit(0 if abs(np.array(t.b).reshape(-1)[0] - (3. * (.3 - r.get_joint("j2")) + 2. * (0 - qd[i]) + 1.7)) < 1e-9 else 1)
""", needs="a joint target with an acceleration but no velocity", breaks="the target acceleration is ignored"),
 dict(id="c17-com-drift", prop="C17", edits=[(D+"com_task.cpp", "  b = mask.apply(desired_acceleration - dJ * solver->robot.state.qd);", "  b = mask.apply(desired_acceleration);\n  if (A.rows() == 3)\n  {\n    b -= dJ * solver->robot.state.qd;\n  }")],
  demo=DYN+"""
t = s.add_com_task(np.zeros(3)); t.kp = t.kd = 0.
s.solve(False)
b3 = np.array(t.b).reshape(-1)
t.mask.set_axises("xz", "task")
s.solve(False)
b2 = np.array(t.b).reshape(-1)
sys.exit(0 if np.abs(b2 - b3[[0, 2]]).max() < 1e-9 and np.abs(b3).max() > 1e-4 else 1)
""", needs="a masked centre of mass task on a moving robot", breaks="the drift is missing from masked tasks"),
]
