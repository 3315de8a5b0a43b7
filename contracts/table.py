"""Per property: sources extracted, contract modules, bounded driver."""
PB = ["problem/" + x for x in ("expression.cpp", "constraint.cpp", "variable.cpp")]
FS = ["humanoid/footsteps_planner.cpp", "humanoid/footsteps_planner_repetitive.cpp", "humanoid/footsteps_planner_naive.cpp", "humanoid/humanoid_parameters.cpp", "humanoid/humanoid_robot.cpp", "tools/utils.cpp"]
KT = tuple("kinematics/" + x + ".cpp" for x in (
    "task frame_task position_task orientation_task com_task relative_frame_task relative_orientation_task relative_position_task distance_task "
    "axis_align_task joints_task gear_task wheel_task regularization_task kinetic_energy_regularization_task centroidal_momentum_task "
    "manipulability_task").split()) + ("tools/axises_mask.cpp", "tools/utils.cpp", "model/robot_wrapper.cpp", "tools/prioritized.cpp")
KC = tuple("kinematics/" + x + ".cpp" for x in (
    "distance_constraint yaw_constraint cone_constraint joint_space_half_spaces_constraint com_polygon_constraint avoid_self_collisions_constraint "
    "kinematics_solver").split()) + tuple("problem/" + x + ".cpp" for x in ("polygon_constraint", "constraint", "variable", "problem")) + (
    "tools/prioritized.cpp", "model/robot_wrapper.cpp", "problem/expression.cpp")
DT = tuple("dynamics/" + x + ".cpp" for x in (
    "task frame_task position_task orientation_task com_task relative_frame_task relative_orientation_task relative_position_task joints_task gear_task "
    "torque_task").split()) + ("tools/axises_mask.cpp", "tools/utils.cpp", "model/robot_wrapper.cpp", "tools/prioritized.cpp")
DC = ("dynamics/contacts.cpp", "dynamics/dynamics_solver.cpp", "dynamics/task.cpp") + tuple("problem/" + x + ".cpp" for x in ("constraint", "variable", "problem")) + (
    "tools/prioritized.cpp", "model/robot_wrapper.cpp", "problem/expression.cpp")
KA = KC[:-2] + tuple(x for x in KT if x not in KC) + KC[-2:]
DA = DC[:-2] + tuple(x for x in DT if x not in DC) + ("dynamics/avoid_self_collisions_constraint.cpp", "dynamics/constraint.cpp") + DC[-2:]
WALK = tuple("humanoid/" + x + ".cpp" for x in "walk_pattern_generator footsteps_planner swing_foot_cubic lipm humanoid_parameters humanoid_robot".split()) + (
    "tools/cubic_spline.cpp", "tools/utils.cpp") + tuple("problem/" + x + ".cpp" for x in "integrator polygon_constraint constraint variable problem expression".split())
PINOCCHIO = "assumed functions of the robot in the proofs; the bounded run compares with finite differences on random robots"
NOT_APPLICABLE = {}
WK = ("humanoid/walk_tasks.cpp", "humanoid/dummy_walk.cpp") + WALK[:6] + ("humanoid/footsteps_planner_repetitive.cpp", "kinematics/frame_task.cpp", "model/robot_wrapper.cpp") + WALK[6:]

PROPS = {
    "C01": dict(files=PB, mods=["expr"]),
    "C02": dict(files=PB, mods=["expr"]),
    "C03": dict(files=PB + ["problem/problem.cpp"], mods=["expr", "problem"], hooks_mod="problem"),
    "C04": dict(files=PB + ["problem/problem.cpp"], mods=["expr", "problem"], hooks_mod="problem",
                bounded={"placo::problem::Problem::solve": "assembly of the QP: decided by the bounded run (optimality conditions of the returned point)"}),
    "C05": dict(files=["problem/sparsity.cpp"], mods=["sparsity"],
                bounded={"placo::problem::Sparsity::add_interval, operator+, detect_columns_sparsity":
                         "loop over a list rebuilt with merging: decided by the bounded run (all interval sequences of the stated bound)"}),
    "C06": dict(files=PB + ["problem/integrator.cpp"], mods=["expr", "integrator"]),
    "C07": dict(files=PB + ["problem/polygon_constraint.cpp"], mods=["expr", "polygon"]),
    "C08": dict(files=PB + ["tools/polynom.cpp", "problem/problem_polynom.cpp"], mods=["expr", "polynom"]),
    "C09": dict(files=["tools/utils.cpp", "tools/cubic_spline.cpp", "tools/cubic_spline_3d.cpp"], mods=["spline"]),
    "C10": dict(files=["tools/segment.cpp"], mods=["segment"]),
    "C11": dict(files=["tools/" + x for x in ("axises_mask.cpp", "utils.cpp", "directions.cpp", "prioritized.cpp")], mods=["utils"],
                bounded={"placo::tools::optimal_transformation": "singular value decomposition: decided by the bounded run",
                         "placo::tools::rotation_from_axis": "pinocchio::exp3 of a normalised axis: decided by the bounded run"}),
    "C12": dict(files=[KT], mods=["utils", "kin_tasks"],
                bounded={"placo::kinematics::ManipulabilityTask::update": "inverse and determinant of a matrix of unknown size: decided by the bounded run",
                         "pinocchio results (frame jacobians, poses, centre of mass, mass matrix)": PINOCCHIO}),
    "C13": dict(files=[KC], mods=["utils", "kin_tasks", "kin_solver"], hooks_mod="problem",
                bounded={"placo::kinematics::KinematicsSolver::solve": "loop over tasks that skips and appends: decided by the bounded run (solution against the stated problem, over histories)"}),
    "C14": dict(files=[KC], mods=["utils", "kin_constraints"], hooks_mod="problem",
                bounded={"placo::kinematics::AvoidSelfCollisionsConstraint::add_constraint": "rows compacted over a filtered list: decided by the bounded run",
                         "pinocchio results (frame jacobians, poses, centre of mass)": PINOCCHIO}),
    "C15": dict(files=[DC], mods=["utils", "kin_tasks", "dyn_contacts", "dyn_solver"], hooks_mod="problem", total=300,
                bounded={"placo::dynamics::DynamicsSolver::solve": "loops over tasks, contacts and constraints that skip, and the QP solution: decided by the bounded run "
                         "(equation of motion, limits, contact conditions and optimality of the result against an independent statement of the problem)",
                         "placo::dynamics::AvoidSelfCollisionsConstraint, ReactionRatioConstraint": "rows over filtered lists: decided by the bounded run",
                         "pinocchio results (mass matrix, non linear effects, jacobians)": PINOCCHIO}),
    "C16": dict(files=[DC], mods=["utils", "dyn_contacts"], hooks_mod="problem",
                bounded={"pinocchio results (frame jacobians, rotations)": PINOCCHIO}),
    "C17": dict(files=[DT], mods=["utils", "kin_tasks", "dyn_tasks"],
                bounded={"placo::dynamics::TorqueTask::set_torque": "no contract: decided by the bounded run",
                         "pinocchio results (jacobians and their time variations)": PINOCCHIO}),
    "C18": dict(files=FS, mods=["footsteps"],
                bounded={"placo::humanoid::FootstepsPlannerNaive::plan_impl": "search for the steps: decided by the bounded run (alternation, clipping, number of steps)"}),
    "C19": dict(files=FS, mods=["footsteps"],
                bounded={"placo::humanoid::FootstepsPlanner::Support::support_polygon": "boost::geometry convex hull: decided by the bounded run",
                         "placo::humanoid::FootstepsPlanner::Footstep::operator==, Support::operator==": "Eigen isApprox: decided by the bounded run"}),
    "C20": dict(files=PB + ["problem/problem.cpp", "problem/integrator.cpp", "humanoid/lipm.cpp"], mods=["expr", "problem", "integrator", "lipm"],
                hooks_mod="problem"),
    "C21": dict(files=["humanoid/swing_foot.cpp", "humanoid/swing_foot_cubic.cpp", "humanoid/swing_foot_quintic.cpp", "tools/cubic_spline.cpp", "tools/utils.cpp"],
                mods=["swing"]),
    "C22": dict(files=[("model/robot_wrapper.cpp", "tools/utils.cpp")], mods=["robot"],
                bounded={"placo::model::RobotWrapper::set_T_world_frame, set_T_world_fbase, integrate, mass_matrix, static_gravity_compensation_torques, "
                         "torques_from_acceleration_with_fixed_frame": "quaternions, pinocchio algorithms and inverses of matrices of unknown size: decided by the bounded run "
                         "(forward kinematics computed from the robot description, finite differences, residual of the equation of motion)",
                         "pinocchio results (poses, jacobians and their time variations)": PINOCCHIO}),
    "C23": dict(files=[WALK], mods=["wpg"], hooks_mod="problem"),
    "C25": dict(files=[WALK], mods=["wpg", "wpg_plan"], hooks_mod="problem",
                bounded={"WalkPatternGenerator::plan_com, constrain_lipm, plan_sgl_support, plan, replan, replan_supports, trim_old_trajectory":
                         "the quadratic program and loops over the supports: decided by the bounded run (an independent statement of the planning problem, "
                         "over histories of plans and replans)"}),
    "C26": dict(files=[("humanoid/humanoid_robot.cpp", "model/robot_wrapper.cpp", "tools/utils.cpp")], mods=["humanoid"],
                bounded={"placo::humanoid::HumanoidRobot::init_config": "constructor: decided by the bounded run",
                         "pinocchio results (poses, jacobians, mass matrix)": PINOCCHIO}),
    "C27": dict(files=[WK], mods=["walk_tasks"], hooks_mod="problem",
                bounded={"WalkTasks::initialize_tasks, update_com_task on a change of mode, get_tasks_error, remove_tasks, reach_initial_pose, DummyWalk::update, solve":
                         "objects created and solved by the kinematics solver: decided by the bounded run"}),
    "C24": dict(files=[KA, DA], mods=["problem", "utils", "kin_tasks", "kin_constraints", "kin_solver", "dyn_contacts", "dyn_tasks", "dyn_solver", "ownership"], hooks_mod="problem",
                bounded={"KinematicsSolver/DynamicsSolver::~, add_frame_task, add_relative_frame_task, add_manipulability_task, add_joints_task(map), use of the objects by solve":
                         "decided by the bounded run (histories on the real build, every deletion observed)"}),
}
