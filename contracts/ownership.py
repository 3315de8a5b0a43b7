"""Objects created by the solvers (C24): what add_* returns is new, linked to the solver, owned by it, held once, and made of the arguments."""
from spec import *
from robot import *
import problem
import kin_solver
import dyn_solver

K, D = "placo::kinematics::", "placo::dynamics::"
IDX, STR = "FrameIndex", "string"


def link(c, o, fields, where):
    """the new object o belongs to this solver"""
    s = c.this
    c.set(o, "solver", s.obj)
    c.set(o, "solver_memory", TRUE)
    for f, v in fields.items():
        c.set(o, f, v)
    if where == "contacts":
        c.set(s, where, s.contacts.v.push(o.obj))


def hold(c, news, where):
    s = c.this
    if where == "contacts":
        return
    m = getattr(s, where).v
    for o in news:
        m = m.set(o.obj, None)
    c.set(s, where, m)
    f = "task_id" if where == "tasks" else "constraint_id"
    c.set(s, f, getattr(s, f) + len(news))


def args(c, names, kinds):
    """parameters by field name; frames given by name are looked up (unknown names are rejected)"""
    out = {}
    for i, (n, k) in enumerate(zip(names, kinds)):
        v = c.arg(i)
        if k == STR and n.startswith(("frame", "@")):
            c.throws(NOT(known_frame(c.this.robot, v)))
            v = frame_index(c.this.robot, v)
        out[n] = v
    return out


def adds(solver, name, kinds, cls, names, where="tasks", extra=None):
    @contract(solver + "::" + name, ",".join(kinds), "C24")
    def _(c):
        a = args(c, names, kinds)
        o = c.new(cls, partial=True)
        if extra:
            a.update(extra(c) if callable(extra) else extra)
        link(c, o, {k: v for k, v in a.items() if k[0] != "@"}, where)
        hold(c, [o], where)


def both(solver, name, nf, rest, cls, names, where="tasks"):
    """by frame indices and by frame names"""
    for k in (IDX, STR):
        adds(solver, name, [k] * nf + list(rest), cls, names, where)


KS, DS = K + "KinematicsSolver", D + "DynamicsSolver"
V3, M3 = "Vector3d", "Matrix3d"
for S, N in ((KS, K), (DS, D)):
    both(S, "add_position_task", 1, [V3], N + "PositionTask", ["frame_index", "target_world"])
    both(S, "add_orientation_task", 1, [M3], N + "OrientationTask", ["frame_index", "R_world_frame"])
    adds(S, "add_com_task", [V3], N + "CoMTask", ["target_world"])
    adds(S, "add_joints_task", [], N + "JointsTask", [])
    adds(S, "add_gear_task", [], N + "GearTask", [])
    f = ["frame_a", "frame_b"] if N == K else ["frame_a_index", "frame_b_index"]
    both(S, "add_relative_position_task", 2, [V3], N + "RelativePositionTask", f + ["target"])
    both(S, "add_relative_orientation_task", 2, [M3], N + "RelativeOrientationTask", f + ["R_a_b"])
    adds(S, "add_avoid_self_collisions_constraint", [], N + "AvoidSelfCollisionsConstraint", [], "constraints")
both(KS, "add_axisalign_task", 1, [V3, V3], K + "AxisAlignTask", ["frame_index", "axis_frame", "targetAxis_world"])
both(KS, "add_distance_task", 2, ["double"], K + "DistanceTask", ["frame_a", "frame_b", "distance"])
adds(KS, "add_centroidal_momentum_task", [V3], K + "CentroidalMomentumTask", ["L_world"])
adds(KS, "add_wheel_task", [STR, "double", "bool"], K + "WheelTask", ["joint", "radius", "omniwheel"])
adds(KS, "add_regularization_task", ["double"], K + "RegularizationTask", ["magnitude"], extra={"priority": P(1), "weight": P(1)})
adds(KS, "add_kinetic_energy_regularization_task", ["double"], K + "KineticEnergyRegularizationTask", ["weight"], extra={"priority": P(1)})
adds(KS, "add_com_polygon_constraint", ["vector<Vector2d>", "double"], K + "CoMPolygonConstraint", ["polygon", "margin"], "constraints")
adds(KS, "add_joint_space_half_spaces_constraint", ["MatrixXd", "VectorXd"], K + "JointSpaceHalfSpacesConstraint", ["A", "b"], "constraints")
both(KS, "add_cone_constraint", 2, ["double"], K + "ConeConstraint", ["frame_a", "frame_b", "angle_max"], "constraints")
both(KS, "add_yaw_constraint", 2, ["double"], K + "YawConstraint", ["frame_a", "frame_b", "angle_max"], "constraints")
both(KS, "add_distance_constraint", 2, ["double"], K + "DistanceConstraint", ["frame_a", "frame_b", "distance_max"], "constraints")
adds(DS, "add_torque_task", [], D + "TorqueTask", [], extra={"tau_task": TRUE})
for name, uni in (("add_point_contact", FALSE), ("add_unilateral_point_contact", TRUE)):
    adds(DS, name, ["PositionTask"], D + "PointContact", ["@task"], "contacts", lambda c, uni=uni: dict(unilateral=uni, position_task=c.arg(0).obj))
for name, cls, uni in (("add_planar_contact", "Contact6D", TRUE), ("add_fixed_contact", "Contact6D", FALSE), ("add_line_contact", "LineContact", FALSE),
                       ("add_unilateral_line_contact", "LineContact", TRUE)):
    adds(DS, name, ["FrameTask"], D + cls, ["@task"], "contacts",
         lambda c, uni=uni: dict(unilateral=uni, position_task=c.arg(0).position.obj, orientation_task=c.arg(0).orientation.obj))
adds(DS, "add_external_wrench_contact", [IDX, "ReferenceFrame"], D + "ExternalWrenchContact", ["frame_index", "reference"], "contacts")
adds(DS, "add_puppet_contact", [], D + "PuppetContact", [], "contacts")
adds(DS, "add_task_contact", ["Task"], D + "TaskContact", ["@task"], "contacts", lambda c: dict(task=c.arg(0).obj))
