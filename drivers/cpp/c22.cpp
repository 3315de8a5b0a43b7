// Accessors that only C++ gives access to: model limits, joint Jacobians and their time variations, overloads by index.
#include "check.h"
#include <fstream>
#include "placo/model/robot_wrapper.h"
using namespace placo::model;
int main(int argc, char** argv)
{
  init(argc, argv);
  for (int a = 3; a < argc; a++)
  {
    std::ifstream f(argv[a]);
    std::stringstream u;
    u << f.rdbuf();
    RobotWrapper r("", RobotWrapper::IGNORE_COLLISIONS, u.str());
    auto names = r.joint_names();
    int n = names.size();
    CASE("robot with " + std::to_string(n) + " joints");
    OK(r.model.nv == 6 + n && r.model.nq == 7 + n, "joint_names lists the moving joints");
    for (auto& j : names) { r.set_joint(j, rnd(-.9, .9)); r.set_joint_velocity(j, rnd()); }
    for (int i = 0; i < 6; i++) r.state.qd[i] = rnd();
    r.update_kinematics();
    const char* refs[] = { "local", "world", "local_world_aligned" };
    pinocchio::ReferenceFrame pr[] = { pinocchio::LOCAL, pinocchio::WORLD, pinocchio::LOCAL_WORLD_ALIGNED };
    for (int k = 0; k < n; k++)
    {
      std::string j = "j" + std::to_string(k), l = "l" + std::to_string(k);
      for (int q = 0; q < 3; q++)
      {
        CASE("jacobians of " + j + " " + refs[q]);
        EQ(r.joint_jacobian(j, refs[q]), r.frame_jacobian(l, refs[q]), "joint jacobian by name");
        EQ(r.joint_jacobian(r.model.getJointId(j), pr[q]), r.frame_jacobian(l, refs[q]), "joint jacobian by index");
        EQ(r.joint_jacobian_time_variation(j, refs[q]), r.frame_jacobian_time_variation(l, refs[q]), "joint jacobian time variation by name");
        EQ(r.joint_jacobian_time_variation(r.model.getJointId(j), pr[q]), r.frame_jacobian_time_variation(l, refs[q]), "joint jacobian time variation by index");
        EQ(r.frame_jacobian(r.get_frame_index(l), pr[q]), r.frame_jacobian(l, refs[q]), "frame jacobian by index");
        EQ(r.frame_jacobian_time_variation(r.get_frame_index(l), pr[q]), r.frame_jacobian_time_variation(l, refs[q]), "frame jacobian time variation by index");
      }
      CASE("limits of " + j);
      Eigen::VectorXd v = r.model.velocityLimit, e = r.model.effortLimit, lo = r.model.lowerPositionLimit, hi = r.model.upperPositionLimit, ri = r.model.rotorInertia,
                      gr = r.model.rotorGearRatio;
      int iv = r.model.joints[r.model.getJointId(j)].idx_v(), iq = r.model.joints[r.model.getJointId(j)].idx_q();
      OK(r.get_joint_v_offset(j) == iv && r.get_joint_offset(j) == iq && r.get_joint_size(j) == 1 && r.get_joint_v_size(j) == 1, "offsets and sizes");
      double x[6];
      for (auto& y : x) y = rnd();
      r.set_velocity_limit(j, x[0]); v[iv] = x[0];
      r.set_torque_limit(j, x[1]); e[iv] = x[1];
      r.set_joint_limits(j, x[2], x[3]); lo[iq] = x[2]; hi[iq] = x[3];
      r.set_rotor_inertia(j, x[4]); ri[iv] = x[4];
      r.set_gear_ratio(j, x[5]); gr[iv] = x[5];
      EQ(r.model.velocityLimit, v, "velocity limits");
      EQ(r.model.effortLimit, e, "torque limits");
      OK((r.model.lowerPositionLimit.array() == lo.array()).all() && (r.model.upperPositionLimit.array() == hi.array()).all(), "joint limits");
      EQ(r.model.rotorInertia, ri, "rotor inertia");
      EQ(r.model.rotorGearRatio, gr, "gear ratio");
    }
    for (int k = 0; k + 1 < n; k++)
    {
      CASE("overloads by index");
      std::string a = "tip" + std::to_string(k), b = "tip" + std::to_string(k + 1);
      auto ia = r.get_frame_index(a), ib = r.get_frame_index(b);
      EQ(r.get_T_a_b(ia, ib).matrix(), (r.get_T_world_frame(a).inverse() * r.get_T_world_frame(b)).matrix(), "relative transform by index");
      EQ(r.get_T_a_b(a, b).matrix(), (r.get_T_world_frame(ia).inverse() * r.get_T_world_frame(ib)).matrix(), "relative transform by name");
      EQ(r.relative_position_jacobian(ia, ib), r.relative_position_jacobian(a, b), "relative position jacobian");
      Eigen::Affine3d T = Eigen::Affine3d::Identity();
      T.rotate(Eigen::AngleAxisd(rnd(), Eigen::Vector3d(rnd(), rnd(), 3).normalized()));
      T.translation() = Eigen::Vector3d(rnd(), rnd(), rnd());
      r.set_T_world_frame(ia, T);
      r.update_kinematics();
      EQ(r.get_T_world_frame(ia).matrix(), T.matrix(), "frame placed by index");
    }
    Eigen::VectorXd all = r.model.velocityLimit;
    r.set_velocity_limits(1.25);
    for (auto& j : names) all[r.model.joints[r.model.getJointId(j)].idx_v()] = 1.25;
    EQ(r.model.velocityLimit, all, "velocity limits of all joints");
    CASE("unknown names");
    THROWS([&] { r.get_frame_index("nope"); }, "unknown frame");
    THROWS([&] { r.joint_jacobian("nope", "local"); }, "unknown joint");
    THROWS([&] { r.joint_jacobian_time_variation("nope", "local"); }, "unknown joint");
    THROWS([&] { r.frame_jacobian("nope", "local"); }, "unknown frame");
    THROWS([&] { r.frame_jacobian("base", "nope"); }, "unknown reference");
    THROWS([&] { r.set_torque_limit("nope", 1.); }, "unknown joint");
    THROWS([&] { r.set_velocity_limit("nope", 1.); }, "unknown joint");
    THROWS([&] { r.set_rotor_inertia("nope", 1.); }, "unknown joint");
    THROWS([&] { r.set_gear_ratio("nope", 1.); }, "unknown joint");
  }
  return done();
}
