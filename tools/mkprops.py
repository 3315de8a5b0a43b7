#!/usr/bin/env python3
"""Regenerates properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))
S = "src/placo/"
p("C01", "Affine expression arithmetic is exact",
  "For every affine expression, every arithmetic operation offered on it (sum, difference, negation, scaling, product with a matrix or with a constant, adding or subtracting a vector or a number on either side, stacking, slicing, sum, mean) yields the expression whose value at any decision vector is that operation applied to the operands' values. Operands over different numbers of decision variables are zero-extended, a constant scalar operand broadcasts to every row, operands are never modified, and operands of incompatible sizes are rejected with an error instead of producing a result.",
  ["inputs"], "all expression sizes, coefficients, operand orders and decision vectors",
  "tests/problem_test.py solves a handful of fixed small problems; the sizes, broadcast cases and operand orders are unbounded.",
  [S+"problem/expression.cpp", S+"problem/expression.h", S+"problem/variable.cpp"],
  [("Expression operators", S+"problem/expression.cpp"), ("Expression::slice/sum/mean/value", S+"problem/expression.cpp")],
  observe=["A, b, value(x) of expressions, from C++ and Python"])
p("C02", "Comparing expressions yields exactly the intended constraint",
  "Comparing two expressions, or an expression with a vector or a number, with >=, <= or == in either operand order gives a constraint satisfied exactly by the decision vectors for which the comparison holds row by row, an inequality for >= and <= and an equality for ==, hard with weight 1 until configured. Configuring a constraint as hard or soft with a weight changes its priority and weight and nothing else.",
  ["inputs"], "all expressions, vectors, numbers, operand orders, priorities and weights",
  "Tests only use a few of the operator overloads with fixed numbers.",
  [S+"problem/expression.cpp", S+"problem/constraint.cpp", S+"problem/constraint.h"],
  [("Expression comparison operators", S+"problem/expression.cpp"), ("ProblemConstraint::configure", S+"problem/constraint.cpp")])
p("C03", "Every decision variable owns its own slice of the problem",
  "Variables added to a problem occupy contiguous, pairwise disjoint ranges that together cover exactly the decision vector, in the order they were added, and the expression of (a part of) a variable selects exactly the requested components of that range. Clearing the variables resets the problem to zero decision variables.",
  ["inputs", "histories"], "all sequences of variable creations and clears, all sizes, all requested sub-ranges",
  "Tests create one or two variables of fixed sizes.",
  [S+"problem/problem.cpp", S+"problem/variable.cpp", S+"problem/variable.h"],
  [("Problem::add_variable", S+"problem/problem.cpp"), ("Variable::expr", S+"problem/variable.cpp")],
  state=[dict(name="k_start/k_end/n_variables", meaning="range of the variable in the decision vector", where=S+"problem/variable.h")])
p("C04", "The solver is handed exactly the problem the user stated",
  "Solving hands the QP solver the quadratic cost made of the regularisation plus each soft constraint's weighted squared violation (through a non-negative slack for soft inequalities), with every hard equality and hard inequality enforced row for row, and malformed constraints (empty, inconsistent sizes, more columns than variables) are rejected with an error. On success every variable holds its slice of the solution and hard inequalities reported active are constraints of the problem; the sparsity and equality-rewriting options change the computation, not the problem being solved.",
  ["inputs", "configurations"], "all problems (numbers of variables, constraints of each type and priority, weights, column counts) and both settings of the two options",
  "Tests compare a few optima of small problems with default options.",
  [S+"problem/problem.cpp", S+"problem/problem.h"],
  [("Problem::solve", S+"problem/problem.cpp"), ("Problem::get_constraint_expressions", S+"problem/problem.cpp"), ("Problem::add_limit", S+"problem/problem.cpp"), ("Problem::add_constraint", S+"problem/problem.cpp")])
p("C05", "Sparsity intervals cover exactly the non-zero columns",
  "A sparsity pattern is always a sorted list of pairwise disjoint intervals: adding an interval, or combining two patterns, covers exactly the union of the indices covered before and the new ones. The pattern detected for a matrix covers exactly its non-zero columns.",
  ["inputs", "histories"], "all sequences of interval insertions, all patterns, all matrices",
  "tests/sparsity_test.py inserts a handful of intervals.",
  [S+"problem/sparsity.cpp", S+"problem/sparsity.h"],
  [("Sparsity::add_interval", S+"problem/sparsity.cpp"), ("Sparsity::operator+", S+"problem/sparsity.cpp"), ("Sparsity::detect_columns_sparsity", S+"problem/sparsity.cpp")])
p("C06", "Integrator expressions and trajectories follow the discrete dynamics",
  "The state expression at any step is the exact discrete-time propagation of the initial state by the inputs before that step, a single derivative is the corresponding component of it, and between steps it is the propagation over the remaining time from the last step; out-of-range steps or derivative orders are rejected. After solving, the trajectory evaluates to the same values as those expressions at the solution, is defined from its start time for as many time steps as there are inputs, and holds the first or last input outside.",
  ["inputs"], "all orders, system matrices, numbers of steps, time steps, initial expressions, queried times and derivatives",
  "tests/integrator_test.py checks a few jerk-controlled trajectories.",
  [S+"problem/integrator.cpp", S+"problem/integrator.h"],
  [("Integrator::Integrator", S+"problem/integrator.cpp"), ("Integrator::expr/expr_t", S+"problem/integrator.cpp"), ("Integrator::update_trajectory", S+"problem/integrator.cpp"), ("Integrator::Trajectory::value", S+"problem/integrator.cpp")])
p("C07", "Polygon constraints keep the point inside by the margin",
  "Constraining a 2D expression to a clockwise convex polygon yields one inequality per edge that holds exactly when the signed distance of the point to that edge's line, counted positive inside, is at least the margin; the x/y variant constrains exactly the same point.",
  ["inputs"], "all convex clockwise polygons (any number of vertices), margins and 2D expressions",
  "No existing test calls it directly.",
  [S+"problem/polygon_constraint.cpp"],
  [("PolygonConstraint::in_polygon", S+"problem/polygon_constraint.cpp"), ("PolygonConstraint::in_polygon_xy", S+"problem/polygon_constraint.cpp")])
p("C08", "Polynomial evaluation and its derivatives agree",
  "A polynomial with given coefficients (highest degree first) evaluates, at any point and derivative order, to the mathematical value of that derivative, whatever its degree; the polynomial over decision variables yields the expression whose value is that same polynomial in its coefficients.",
  ["inputs"], "all degrees, coefficients, evaluation points and derivative orders",
  "tests/polynom_test.py evaluates a couple of polynomials.",
  [S+"tools/polynom.cpp", S+"problem/problem_polynom.cpp"],
  [("Polynom::value", S+"tools/polynom.cpp"), ("Polynom::derivative_coefficient", S+"tools/polynom.cpp"), ("ProblemPolynom::expr", S+"problem/problem_polynom.cpp")])
p("C09", "Cubic splines interpolate their points with matching slopes",
  "A cubic spline passes through every added point with the given slope, is a cubic between consecutive points, holds its end values outside its time range, reports the time between its first and last points as its duration, and its velocity and acceleration are the derivatives of its position. Points must be added in increasing time, angular splines take the shortest way between consecutive angles, the 3D spline is three independent splines, and changing the points takes effect on the next evaluation.",
  ["inputs", "histories"], "all point sequences, times and interleavings of additions, clears and evaluations",
  "No existing test covers splines.",
  [S+"tools/cubic_spline.cpp", S+"tools/cubic_spline_3d.cpp"],
  [("CubicSpline::fit", S+"tools/cubic_spline.cpp"), ("CubicSpline::interpolation", S+"tools/cubic_spline.cpp"), ("CubicSpline::compute_splines", S+"tools/cubic_spline.cpp"), ("CubicSpline3D", S+"tools/cubic_spline_3d.cpp")])
p("C10", "Segment predicates match plane geometry",
  "For any two non-parallel 2D segments, the computed intersection parameters locate the common point of their lines on each of them, and the tests whether the segments cross, whether the line through the other segment crosses this one, and whether the half-line from the other segment's start through its end crosses this one, answer exactly that; parallel segments are rejected with an error. A point is in a segment when it is aligned with it and projects between its ends.",
  ["inputs"], "all pairs of segments and points",
  "tests/segment_test.py covers a few axis-aligned cases.",
  [S+"tools/segment.cpp"],
  [("Segment::get_lambdas", S+"tools/segment.cpp"), ("Segment::intersects", S+"tools/segment.cpp"), ("Segment::half_line_pass_through", S+"tools/segment.cpp")])
p("C11", "Axis masks and frame utilities compute the stated geometry",
  "Masking an error or Jacobian keeps exactly the rows of the selected axes, in order, expressed in the task frame, the local frame or the user's custom frame as configured. Wrapping an angle returns an equivalent angle in [-pi, pi], interpolating frames yields both end frames at 0 and 1, flattening a frame on the floor keeps its x, y and yaw and nothing else, and the optimal transformation of two point sets is the proper rigid transform mapping the second set onto the first whenever one exists.",
  ["inputs"], "all masks, frames, angles, matrices and point sets",
  "No existing test covers masks or these utilities beyond a few values.",
  [S+"tools/axises_mask.cpp", S+"tools/utils.cpp", S+"tools/directions.cpp", S+"tools/prioritized.cpp"],
  [("AxisesMask::apply", S+"tools/axises_mask.cpp"), ("tools::wrap_angle/interpolate_frames/flatten_on_floor", S+"tools/utils.cpp")])
p("C12", "Kinematics tasks linearise the error they report",
  "For every kinematics task type and robot state, the task presented to the solver asks for the joint displacement whose first-order effect cancels the task's error: the target minus the current value of the quantity (position, orientation, relative pose, distance, axis alignment, centre of mass, momentum, joint values, gears, wheel contact, regularisation) restricted to the task's masked axes, with one row per constrained coordinate.",
  ["inputs", "configurations"], "all robot states, targets, masks, frames, joint sets and weights",
  "tests/kinematics_test.py converges a few setups; wrong Jacobian signs or columns often still converge there or are not exercised.",
  [S+"kinematics/"+f for f in ["position_task.cpp","orientation_task.cpp","relative_position_task.cpp","relative_orientation_task.cpp","com_task.cpp","distance_task.cpp","axis_align_task.cpp","joints_task.cpp","gear_task.cpp","wheel_task.cpp","centroidal_momentum_task.cpp","regularization_task.cpp","kinetic_energy_regularization_task.cpp"]],
  [("Task::update implementations", S+"kinematics/*_task.cpp")])
p("C13", "Inverse kinematics states the requested problem each time it is solved",
  "At every solve, the inverse-kinematics problem contains exactly one constraint per non-empty task (hard, soft with its weight, or scaled by one common factor between 0 and 1 drawn to 1), an equality freezing each masked degree of freedom and the floating base when masked, joint and velocity limits when enabled, and the constraints added by the user, with nothing left over from earlier solves. Applying the solution integrates it on the robot state, and with a time step updates velocities and accelerations consistently; asking for velocity limits without a time step is an error.",
  ["histories", "configurations", "inputs"], "all sequences of adding, removing and masking, all priorities, limits settings and solves",
  "Tests solve a few fixed task sets.",
  [S+"kinematics/kinematics_solver.cpp", S+"kinematics/kinematics_solver.h"],
  [("KinematicsSolver::solve", S+"kinematics/kinematics_solver.cpp"), ("KinematicsSolver::compute_limits_inequalities", S+"kinematics/kinematics_solver.cpp"), ("mask_dof/unmask_dof/mask_fbase", S+"kinematics/kinematics_solver.cpp")])
p("C14", "Kinematics constraints bound the quantity they name",
  "Every kinematics constraint adds inequalities whose linearisation at the current state bounds the named quantity as configured: centre of mass inside the polygon by the margin, frame axis inside the cone, yaw between the limits, distance between frames below the maximum, joint configuration in the half-spaces, and self-collision distances above the margin for every pair closer than the trigger distance. Each is hard or soft with the weight it was configured with.",
  ["inputs", "configurations"], "all robot states, limits, polygons, pairs and priorities",
  "tests exercise two or three of them at a few states.",
  [S+"kinematics/"+f for f in ["com_polygon_constraint.cpp","cone_constraint.cpp","yaw_constraint.cpp","distance_constraint.cpp","joint_space_half_spaces_constraint.cpp","avoid_self_collisions_constraint.cpp"]],
  [("Constraint::add_constraint implementations", S+"kinematics/*_constraint.cpp")])
p("C15", "Inverse dynamics enforces the equation of motion and its limits",
  "At every solve, torques are tied to accelerations and contact forces by the equation of motion (inertia, gravity or all non-linear effects, damping, user extra force, contact Jacobians), the free-floating base receives no torque unless it is masked (then it does not accelerate), and torque limits, velocity limits, speed-torque limits and joint position limits hold as inequalities when enabled. The returned torques, accelerations and contact forces satisfy those relations, tasks enter with their priority and weight, and an infeasible problem is reported as a failure.",
  ["inputs", "configurations"], "all robot states, contact sets, options, limits and task sets",
  "tests/dynamics tests check a few static configurations.",
  [S+"dynamics/dynamics_solver.cpp"],
  [("DynamicsSolver::solve", S+"dynamics/dynamics_solver.cpp"), ("DynamicsSolver::compute_limits_inequalities", S+"dynamics/dynamics_solver.cpp")])
p("C16", "Contacts only produce admissible forces",
  "A unilateral contact only allows forces that push away from the surface, stay within the linearised friction cone of its friction coefficient on both tangent axes, and whose centre of pressure stays within half the contact length and width; fixed contacts are not restricted, and external wrenches equal the given wrench. Force, tangential and moment penalties apply to all and only the components they name, with their weights.",
  ["inputs", "configurations"], "all contact types, forces, friction coefficients, sizes, surface orientations and weights",
  "No existing test checks the admissible set of contact forces.",
  [S+"dynamics/contacts.cpp"],
  [("Contact::add_constraints implementations", S+"dynamics/contacts.cpp"), ("zmp", S+"dynamics/contacts.cpp")])
p("C17", "Dynamics tasks command the proportional-derivative acceleration",
  "Every dynamics task asks for the acceleration of its quantity equal to the desired acceleration plus the proportional gain times the error plus the derivative gain times the velocity error, net of the drift due to the current velocity, on the task's masked axes; the derivative gain defaults to the critically damped one when not set. Torque tasks command the stated torque, gears tie joints by their ratios.",
  ["inputs", "configurations"], "all robot states, targets, gains, masks, joints",
  "Tests exercise a couple of tasks at rest only.",
  [S+"dynamics/"+f for f in ["task.cpp","position_task.cpp","orientation_task.cpp","relative_position_task.cpp","relative_orientation_task.cpp","com_task.cpp","joints_task.cpp","gear_task.cpp","torque_task.cpp"]],
  [("Task::update implementations", S+"dynamics/*_task.cpp")])
p("C18", "Footstep plans alternate feet within the allowed steps",
  "A footstep plan starts with the two given feet, then strictly alternates sides; the repetitive planner adds exactly the configured number of steps and ends with feet side by side, the naive planner stops within its maximum number of steps. Each step is the neutral opposite placement moved by a displacement clipped to the configured reachable set, a displacement already inside is unchanged and direction is preserved by clipping, and the produced footsteps are pulled back, by successive reductions of the displacement by a tenth (at most 32), until they do not overlap the supporting foot.",
  ["inputs", "configurations"], "all initial feet poses, displacements, numbers of steps, clipping modes and walk parameters",
  "tests/footsteps tests plan one or two fixed walks.",
  [S+"humanoid/footsteps_planner.cpp", S+"humanoid/footsteps_planner_naive.cpp", S+"humanoid/footsteps_planner_repetitive.cpp", S+"humanoid/humanoid_parameters.cpp"],
  [("FootstepsPlanner::plan", S+"humanoid/footsteps_planner.cpp"), ("plan_impl", S+"humanoid/footsteps_planner_*.cpp"), ("*_clip", S+"humanoid/humanoid_parameters.cpp")])
p("C19", "Supports derived from footsteps are complete and well ordered",
  "The sequence of supports made from a list of two or more footsteps contains every footstep but the first (single only when no double support starts the move) and last as a single support, in order, with the requested double supports at the start, between steps and at the end made of the two neighbouring footsteps, and only the requested first and last supports flagged as start and end. A support's polygon is the clockwise convex hull of its footsteps' rectangles and always reflects the current footstep frames, its frame is the average of its footsteps' frames, and moving a support moves all of its footsteps.",
  ["inputs", "histories"], "all footstep lists, flags, transforms and sequences of queries and moves",
  "Tests inspect one fixed plan.",
  [S+"humanoid/footsteps_planner.cpp"],
  [("FootstepsPlanner::make_supports", S+"humanoid/footsteps_planner.cpp"), ("Support", S+"humanoid/footsteps_planner.cpp")])
p("C20", "LIPM quantities obey the inverted-pendulum relations",
  "For the linear inverted pendulum at any time of its horizon, the zero-moment point is the position minus the acceleration over the squared natural frequency, the divergent component of motion is the position plus the velocity over it, and their derivatives are consistent with these; expressions before solving and trajectory values after solving agree at matching times, and continuing from a previous solution keeps position, velocity and acceleration continuous.",
  ["inputs"], "all natural frequencies, time steps, numbers of steps, initial states and queried times",
  "tests/lipm_test.py checks one configuration.",
  [S+"humanoid/lipm.cpp"],
  [("LIPM expressions", S+"humanoid/lipm.cpp"), ("LIPM::Trajectory", S+"humanoid/lipm.cpp"), ("LIPM::build_LIPM_from_previous", S+"humanoid/lipm.cpp")])
p("C21", "Swing-foot trajectories start and end at the feet at rest",
  "Every swing-foot trajectory starts exactly at the initial position (with the given initial velocity where one can be given, else at rest) and ends exactly at the target at rest, except that the cubic-polynomial one is only at rest horizontally. In between it reaches the requested height, at a quarter and three quarters of its duration or on the requested plateau, and its velocity is the derivative of its position. A remade trajectory continues position and velocity from the current ones, keeps its height profile and ends at rest at the new horizontal target at the same time.",
  ["inputs"], "all start and end times, heights, plateau ratios and feet positions",
  "tests/swing_foot tests evaluate one trajectory.",
  [S+"humanoid/swing_foot.cpp", S+"humanoid/swing_foot_cubic.cpp", S+"humanoid/swing_foot_quintic.cpp"],
  [("SwingFoot::make_trajectory/remake_trajectory", S+"humanoid/swing_foot.cpp"), ("SwingFootCubic", S+"humanoid/swing_foot_cubic.cpp"), ("SwingFootQuintic", S+"humanoid/swing_foot_quintic.cpp")])
p("C22", "Robot state accessors address the named joint and frame",
  "Setting then getting a joint's position, velocity or acceleration by name returns the value set and leaves every other joint untouched, limits set for a joint apply to that joint only, and unknown joint or frame names are rejected with an error. Placing a frame of the robot at a given pose moves the floating base so that the frame is exactly there and no joint changes, relative transforms compose the world transforms, and Jacobians and their time variations are returned for the frame, joint and reference requested. Integrating advances the velocity by the acceleration and the configuration by the new velocity; the gravity-compensation and fixed-frame torques are those for which the robot, held by that frame only, is at rest or has the requested joint accelerations.",
  ["inputs"], "all robots, joints, frames, values and poses",
  "Tests check a few names on one or two robots.",
  [S+"model/robot_wrapper.cpp"],
  [("RobotWrapper::set_joint/get_joint*", S+"model/robot_wrapper.cpp"), ("set_T_world_frame/get_T_a_b", S+"model/robot_wrapper.cpp"), ("jacobians", S+"model/robot_wrapper.cpp")])
p("C23", "Walk trajectories answer queries from the phase they fall in",
  "For any time, a walk trajectory answers every query (support, feet and trunk poses, centre-of-mass position, velocity and acceleration, zero-moment point, divergent component, current, next and previous supports) from the phase containing that time, clamped to the first and last phases, transformed by the trajectory's world transform. Queries never change the trajectory, and the supporting foot stays at its planned footstep during its phase.",
  ["inputs", "histories"], "all planned walks, times and sequences of queries",
  "Tests sample one planned walk at a few times.",
  [S+"humanoid/walk_pattern_generator.cpp", S+"humanoid/walk_pattern_generator.h"],
  [("WalkPatternGenerator::Trajectory", S+"humanoid/walk_pattern_generator.cpp"), ("_findPart", S+"humanoid/walk_pattern_generator.cpp")])
p("C24", "Solvers release exactly the objects they own",
  "Removing a task, contact or constraint from a solver, or clearing or destroying the solver, takes it out of all later solves and frees it exactly when the solver created it; objects the user created and handed to the solver stay alive and usable. Each task or constraint held is used exactly once by a solve however often it was added, and adding links objects to the solver they were added to.",
  ["histories"], "all sequences of adding, removing and clearing objects of both ownership kinds",
  "Tests never remove user-owned objects.",
  [S+"kinematics/kinematics_solver.cpp", S+"dynamics/dynamics_solver.cpp", S+"kinematics/kinematics_solver.h", S+"dynamics/dynamics_solver.h"],
  [("remove_task/remove_constraint/remove_contact/clear/add_*", S+"kinematics/kinematics_solver.cpp, "+S+"dynamics/dynamics_solver.cpp")])
p("C25", "Planned walks follow their supports and stay dynamically admissible",
  "A planned walk has one phase per support, in order, lasting the durations of the walk parameters scaled by each support's time ratio and less what had elapsed, so that phases tile the time from the start. In every phase, at every time step, the zero-moment point stays inside the support polygon by the margin (or pays the configured weight when soft), the centre of mass is continuous up to its acceleration and, among the admissible motions, best follows the reference points of the supports, ends at rest over the last support when it is an end, and the flying foot goes from its previous to its next footstep, at rest at both ends, while supporting feet stay. Replanning continues the motion of the centre of mass, feet and trunk from the replanning time, keeps the current support and takes next steps from the planner; where the walk cannot be replanned this is an error, and a replan without admissible motion returns the rest of the old trajectory and reports it.",
  ["inputs", "histories", "configurations"], "all walk parameters, supports, initial states, plan and replan times and sequences of replans",
  "Tests plan one or two fixed walks and replan once.",
  [S+"humanoid/walk_pattern_generator.cpp", S+"humanoid/humanoid_parameters.cpp"],
  [("WalkPatternGenerator::plan/replan", S+"humanoid/walk_pattern_generator.cpp"), ("plan_com/constrain_lipm/plan_sgl_support/plan_dbl_support", S+"humanoid/walk_pattern_generator.cpp"), ("replan_supports/can_replan_supports/trim_old_trajectory", S+"humanoid/walk_pattern_generator.cpp")])
p("C26", "Humanoid robots stand on their support",
  "Switching support to another side or frame records that side and takes the new frame's current pose flattened on the floor as support pose, and changes nothing when it is the current support; the robot itself does not move. Placing the robot on the floor moves only the floating base so that the support frame is exactly at the support pose, and orienting it (by the trunk's orientation or an IMU) gives the trunk that orientation while the support frame keeps its position. The centre-of-mass velocity is the one for which the support frame does not move and the trunk turns at the measured rate, the divergent component and zero-moment point follow from the centre of mass by the pendulum relations, and torques are those of the equation of motion under the eight foot forces, with none on the floating base.",
  ["inputs", "histories"], "all configurations, support switches, orientations, speeds, accelerations and forces",
  "No existing test covers it.",
  [S+"humanoid/humanoid_robot.cpp"],
  [("HumanoidRobot::update_support_side/ensure_on_floor/ensure_on_floor_oriented/update_from_imu", S+"humanoid/humanoid_robot.cpp"), ("get_com_velocity/get_torques/dcm/zmp", S+"humanoid/humanoid_robot.cpp")])
p("C27", "Walk tasks and dummy walks aim at the frames of the walk",
  "Walk tasks hold one task per foot position and orientation, one for the trunk orientation and one for either the centre of mass or the trunk position, as the mode says, and nothing once removed. Updating them targets exactly the given feet, trunk orientation and centre of mass (shifted by the configured offset in the trunk frame), those of a trajectory at the asked time (centre of mass delayed as configured), or those corrected by the proportional, integral and derivative feedback on the divergent component, starting from no accumulated error. The initial pose targets feet side by side at the spacing with the centre of mass between them at the height. A dummy walk keeps its support foot still while the other foot goes from its place to the next footstep of the planner, lifted along the way, the trunk staying between the feet; the next step starts where this one ended with the other support, and moving the support moves the walk rigidly. Errors are reported per task, and reading them or the solver changes nothing.",
  ["inputs", "histories"], "all targets, modes, offsets, gains, times and sequences of updates, steps and removals",
  "Tests do not inspect the targets.",
  [S+"humanoid/walk_tasks.cpp", S+"humanoid/walk_tasks.h", S+"humanoid/dummy_walk.cpp", "bindings/expose-walk-pattern-generator.cpp"],
  [("WalkTasks", S+"humanoid/walk_tasks.cpp"), ("DummyWalk", S+"humanoid/dummy_walk.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
