// Walk tasks with feedback on the divergent component of motion.
#include "check.h"
#include <fstream>
#include <cstring>
#include <new>
#include "placo/humanoid/walk_tasks.h"
#include "placo/humanoid/footsteps_planner_repetitive.h"
using namespace placo;
using namespace placo::humanoid;

int main(int argc, char** argv)
{
  init(argc, argv);
  std::ifstream in(argv[3]);
  std::stringstream ss;
  ss << in.rdbuf();
  HumanoidRobot robot("", 2, ss.str());
  HumanoidParameters p;
  p.single_support_duration = .5; p.single_support_timesteps = 10; p.double_support_ratio = 0.; p.startend_double_support_ratio = 1.5;
  p.planned_timesteps = 100; p.walk_com_height = .3; p.walk_foot_height = .05; p.feet_spacing = .15; p.foot_width = .1; p.foot_length = .15;
  p.walk_max_dx_forward = .1; p.walk_max_dx_backward = .1; p.walk_max_dy = .05; p.walk_max_dtheta = .3;
  FootstepsPlannerRepetitive planner(p);
  planner.configure(.05, .01, .1, 4);
  Eigen::Affine3d TL = Eigen::Affine3d::Identity(), TR = Eigen::Affine3d::Identity();
  TL.translation().y() = .075; TR.translation().y() = -.075;
  auto fs = planner.plan(HumanoidRobot::Left, TL, TR);
  auto sup = FootstepsPlanner::make_supports(fs, 0., true, false, true);
  WalkPatternGenerator wpg(robot, p);
  auto tr = wpg.plan(sup, Eigen::Vector3d(0, 0, .3), 0.);
  for (int it = 0; it < reps(10); it++)
  {
    kinematics::KinematicsSolver solver(robot);
    // fresh walk tasks, whatever the memory held before
    void* mem = ::operator new(sizeof(WalkTasks));
    std::memset(mem, it % 2 ? 0x41 : 0x7f, sizeof(WalkTasks));
    WalkTasks* w = new (mem) WalkTasks();
    w->initialize_tasks(&solver, &robot);
    w->K_p = rnd(-1, 1); w->K_i = rnd(-1, 1); w->K_d = rnd(-.1, .1); w->lambda = rnd(0, .5); w->com_delay = it % 3 ? rnd(-.1, .1) : 0.;
    w->com_x = rnd(-.1, .1); w->com_y = rnd(-.1, .1); w->trunk_mode = it % 4 == 3;
    Eigen::Vector2d I = Eigen::Vector2d::Zero(), last = Eigen::Vector2d::Zero();
    for (int k = 0; k < 6; k++)
    {
      CASE("feedback " + std::to_string(it) + "." + std::to_string(k));
      double t = rnd(0, tr.t_end), omega = rnd(2, 6), dt = rnd(.005, .05);
      Eigen::Vector2d dcm(rnd(-.2, .2), rnd(-.2, .2));
      Eigen::Vector2d e = dcm - tr.get_p_world_DCM(t + w->com_delay, omega);
      I = (1 - w->lambda) * I + e * dt;
      Eigen::Vector2d off = w->K_p * e + w->K_i * I + w->K_d * (e - last) / dt;
      last = e;
      w->update_tasks_and_pid(tr, t, dcm, omega, dt);
      Eigen::Vector3d want = tr.get_p_world_CoM(t + w->com_delay) + Eigen::Vector3d(off.x(), off.y(), 0) +
                             robot.get_T_world_frame("trunk").linear() * Eigen::Vector3d(w->com_x, w->com_y, 0);
      EQ(w->trunk_mode ? w->trunk_task->target_world : w->com_task->target_world, want, "target of the centre of mass with feedback");
      EQ(w->left_foot_task.get_T_world_frame().matrix(), tr.get_T_world_left(t).matrix(), "left foot");
      EQ(w->right_foot_task.get_T_world_frame().matrix(), tr.get_T_world_right(t).matrix(), "right foot");
      EQ(w->trunk_orientation_task->R_world_frame, tr.get_R_world_trunk(t), "trunk");
      w->update_tasks(tr, t);
      EQ(w->trunk_mode ? w->trunk_task->target_world : w->com_task->target_world,
         tr.get_p_world_CoM(t + w->com_delay) + robot.get_T_world_frame("trunk").linear() * Eigen::Vector3d(w->com_x, w->com_y, 0), "target with a delay");
    }
    w->remove_tasks();
    OK(solver.tasks_count() == 0, "tasks removed");
    w->~WalkTasks();
    ::operator delete(mem);
  }
  return done();
}
