HEAD = "import placo, numpy as np, sys\n"
H = "src/placo/humanoid/"
P = HEAD + """
par = placo.HumanoidParameters()
par.walk_max_dx_forward = .08; par.walk_max_dx_backward = .03; par.walk_max_dy = .04; par.walk_max_dtheta = .35
par.feet_spacing = .14; par.foot_width = .1; par.foot_length = .15; par.walk_dtheta_spacing = .0
"""
SEEDS = [
 dict(id="c18-backward", prop="C18", edits=[(H+"humanoid_parameters.cpp", """Eigen::Vector3d HumanoidParameters::box_clip(Eigen::Vector3d step)
{
  Eigen::Vector3d factor((step.x() >= 0) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);""", """Eigen::Vector3d HumanoidParameters::box_clip(Eigen::Vector3d step)
{
  Eigen::Vector3d factor((step.x() >= -walk_max_dx_backward) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);""")],
  demo=P+"""
v = par.box_clip(np.array([-.029, .039, 0.]))
sys.exit(0 if abs(v[0]) / .03 + abs(v[1]) / .04 <= 1 + 1e-9 else 1)
""", needs="the box clipping of a short backward step combined with a lateral one", breaks="backward steps within the backward limit are measured with the forward limit"),
 dict(id="c18-last-step", prop="C18", edits=[(H+"footsteps_planner_repetitive.cpp", "    footsteps.push_back(clipped_opposite_footstep(footstep));", "    if (nb_steps == 1)\n    {\n      footsteps.push_back(clipped_opposite_footstep(footstep, 0., d_y, 0.));\n    }\n    else\n    {\n      footsteps.push_back(clipped_opposite_footstep(footstep));\n    }")],
  demo=P+"""
p = placo.FootstepsPlannerRepetitive(par); p.configure(.02, -.03, 0., 1)
L = np.eye(4); L[1, 3] = .07; R = np.eye(4); R[1, 3] = -.07
fs = p.plan(placo.HumanoidRobot_Side.left, L, R)
sys.exit(0 if len(fs) == 3 and abs(fs[2].frame[1, 3] - .07) < 1e-9 else 1)
""", needs="a lateral walk of exactly one step", breaks="the plan does not end with feet side by side"),
 dict(id="c18-spacing-sign", prop="C18", edits=[(H+"footsteps_planner.cpp", "    step.y() += parameters.walk_dtheta_spacing * fabs(step.z());", "    step.y() += parameters.walk_dtheta_spacing * step.z();")],
  demo=P+"""
par.walk_dtheta_spacing = .1
p = placo.FootstepsPlannerRepetitive(par)
f = placo.Footstep(.1, .15); f.side = placo.HumanoidRobot_Side.right; f.frame = np.eye(4)
g = p.clipped_opposite_footstep(f, 0., 0., -.1)
sys.exit(0 if abs(g.frame[1, 3] - (.14 + .01)) < 1e-9 else 1)
""", needs="turning right while stepping with the left foot, with a turn spacing", breaks="the feet get closer when turning one way"),
  dict(id="c19-offset-first", prop="C19", edits=[(H+"footsteps_planner.cpp", "    footstep.frame.translation().y() += offset.y();", "    footstep.frame.translation().y() += (footstep.frame.translation().y() == footsteps.back().frame.translation().y() || footsteps.size() < 2) ? offset.y() : offset.y() * footstep.frame(1, 1) / fmax(1e-9, fabs(footstep.frame(1, 1)));")],
  demo=HEAD+"""
v = placo.Footsteps()
for k in range(2):
    f = placo.Footstep(.1, .2); f.side = [placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right][k]
    T = np.diag([-1., -1., 1., 1.]); T[:2, 3] = [0, k]; f.frame = T; v.append(f)
s = placo.Support(); s.footsteps = v
s.apply_offset(np.array([0., .5]))
sys.exit(0 if abs(s.footsteps[0].frame[1, 3] - .5) < 1e-9 and abs(s.footsteps[1].frame[1, 3] - 1.5) < 1e-9 else 1)
""", needs="a double support facing backwards, moved laterally", breaks="one footstep of a moved support goes the other way"),
 dict(id="c19-last-middle", prop="C19", edits=[(H+"footsteps_planner.cpp", "      if ((!is_end && middle))", "      if (middle && (!is_end || (!end && !start)))")],
  demo=HEAD+"""
v = placo.Footsteps()
for k in range(4):
    f = placo.Footstep(.1, .2); f.side = [placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right][k % 2]; T = np.eye(4); T[0, 3] = k; f.frame = T
    v.append(f)
s = placo.FootstepsPlanner.make_supports(v, 0., False, True, False)
sys.exit(0 if len(s) == 5 else 1)
""", needs="double supports between steps, none at the start nor at the end", breaks="an extra final double support which was not requested"),
 dict(id="c19-frame-avg", prop="C19", edits=[(H+"footsteps_planner.cpp", "      f = tools::interpolate_frames(f, footstep.frame, 1. / n);", "      f = tools::interpolate_frames(f, footstep.frame, start ? 0. : 1. / n);")],
  demo=HEAD+"""
v = placo.Footsteps()
for k in range(3):
    f = placo.Footstep(.1, .2); f.side = [placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right][k % 2]; T = np.eye(4); T[0, 3] = k; f.frame = T
    v.append(f)
s = placo.FootstepsPlanner.make_supports(v, 0., True, True, True)
sys.exit(0 if abs(s[0].frame()[0, 3] - .5) < 1e-9 else 1)
""", needs="the frame of the initial double support", breaks="the frame of the start support is not the average of its footsteps"),
 dict(id="c20-dzmp-traj", prop="C20", edits=[(H+"lipm.cpp", "  return vel(t) - (1 / omega_2) * jerk(t);", "  return vel(t) - (t > x.t_start ? 1 / omega_2 : 0.) * jerk(t);")],
  demo=HEAD+"""
p = placo.Problem(); l = placo.LIPM(p, .1, 5, 1., np.array([0., 0.]), np.array([.1, 0.]), np.array([0., 0.]))
p.add_constraint(l.pos(5) == np.array([1., .3])); p.add_constraint(l.vel(5) == np.array([0., 0.])); p.add_constraint(l.acc(5) == np.array([0., 0.]))
p.solve(); t = l.get_trajectory()
sys.exit(0 if np.allclose(t.dzmp(1., 4.), t.vel(1.) - t.jerk(1.) / 4., atol=1e-9) else 1)
""", needs="the ZMP velocity queried exactly at the start", breaks="the ZMP velocity is not the derivative of the ZMP at the start time"),
 dict(id="c20-previous", prop="C20", edits=[(H+"lipm.cpp", "  y = Integrator(*y_var, previous.y.expr(-1), 3, dt);", "  y = Integrator(*y_var, previous.y.expr(timesteps < previous.timesteps ? timesteps : -1), 3, dt);")],
  demo=HEAD+"""
p = placo.Problem(); l = placo.LIPM(p, .1, 5, 0., np.array([0., 0.]), np.array([.1, .2]), np.array([0., 0.]))
m = placo.LIPM.build_LIPM_from_previous(p, .1, 3, .5, l)
p.add_constraint(m.pos(3) == np.array([1., .3])); p.add_constraint(m.vel(3) == np.array([0., 0.])); p.add_constraint(m.acc(3) == np.array([0., 0.]))
p.solve()
a, b = l.get_trajectory(), m.get_trajectory()
sys.exit(0 if np.allclose(a.pos(.5), b.pos(.5), atol=1e-6) else 1)
""", needs="a continuation with fewer steps than the previous phase", breaks="continuity of the y coordinate"),
 dict(id="c21-remake-vel", prop="C21", edits=[(H+"swing_foot.cpp", "  y << old_trajectory.pos(t).y(), target.y(), old_trajectory.vel(t).y(), 0;", "  y << old_trajectory.pos(t).y(), target.y(), old_trajectory.vel(t > (trajectory.t_start + trajectory.t_end) / 2. ? t : trajectory.t_start).y(), 0;")],
  demo=HEAD+"""
tr = placo.SwingFoot.make_trajectory(0., 1., .1, np.zeros(3), np.array([.3, .2, 0.]))
re = placo.SwingFoot.remake_trajectory(tr, .4, np.array([.3, .3, 0.]))
sys.exit(0 if np.allclose(re.vel(.4), tr.vel(.4), atol=1e-6) else 1)
""", needs="a trajectory remade in its first half with a lateral motion", breaks="the lateral velocity jumps when the trajectory is remade"),
 dict(id="c21-elapsed", prop="C21", edits=[(H+"swing_foot_cubic.cpp", "    t.push_back(virt_t_start + half_duration + half_duration * rise_ratio);", "    t.push_back(fmax(virt_t_start, t_start) + half_duration * (1 - elapsed_ratio) + half_duration * rise_ratio);")],
  demo=HEAD+"""
tr = placo.SwingFootCubic.make_trajectory(1., 1., .1, .2, np.zeros(3), np.array([.3, .2, 0.]), .2, np.zeros(3))
sys.exit(0 if abs(tr.pos(.8 + .6)[2] - .1) < 1e-9 and tr.pos(1.48)[2] < .0999 else 1)
""", needs="a trajectory made in the middle of its phase with a plateau", breaks="the end of the plateau is not where it was requested"),
]
