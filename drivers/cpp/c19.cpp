#include "check.h"
#include "placo/humanoid/footsteps_planner.h"
using namespace placo::humanoid;
using FP = FootstepsPlanner;
static Eigen::Affine3d frnd()
{
  Eigen::Affine3d T = Eigen::Affine3d::Identity();
  T.rotate(Eigen::AngleAxisd(rnd(-3, 3), Eigen::Vector3d::UnitZ()));
  T.translation() = Eigen::Vector3d(rnd(), rnd(), rnd());
  return T;
}
static FP::Footstep foot(HumanoidRobot::Side s) { FP::Footstep f(rnd(.05, .2), rnd(.05, .3)); f.side = s; f.frame = frnd(); return f; }
int main(int argc, char** argv)
{
  init(argc, argv);
  auto L = HumanoidRobot::Left, R = HumanoidRobot::Right;
  for (int t = 0; t < reps(60); t++)
  {
    int n = irnd(1, 2);
    CASE("move a support of " + std::to_string(n));
    FP::Support s;
    for (int k = 0; k < n; k++) s.footsteps.push_back(foot(k ^ (t % 2) ? L : R));
    s.t_start = rnd(); s.start = irnd(0, 1); s.end = irnd(0, 1); s.elapsed_ratio = rnd(0, 1); s.time_ratio = rnd(0, 1);
    if (irnd(0, 1)) s.support_polygon();
    if (irnd(0, 1)) for (auto& f : s.footsteps) f.support_polygon();
    Eigen::Affine3d T = frnd();
    FP::Support m = T * s;
    OK(m.footsteps.size() == s.footsteps.size(), "moved support: number of footsteps");
    for (int k = 0; k < n; k++)
    {
      EQ(m.footsteps[k].frame.matrix(), (T * s.footsteps[k].frame).matrix(), "moved support: frame");
      OK(m.footsteps[k].side == s.footsteps[k].side, "moved support: side");
      FP::Footstep g(s.footsteps[k].foot_width, s.footsteps[k].foot_length);
      g.side = s.footsteps[k].side; g.frame = T * s.footsteps[k].frame;
      auto a = m.footsteps[k].support_polygon(), b = g.support_polygon();
      OK(a.size() == b.size(), "moved support: footstep polygon size");
      for (size_t j = 0; j < a.size() && j < b.size(); j++) EQ(a[j], b[j], "moved support: footstep polygon");
    }
    OK(m.t_start == s.t_start && m.start == s.start && m.end == s.end && m.elapsed_ratio == s.elapsed_ratio && m.time_ratio == s.time_ratio, "moved support: attributes");
    // its polygon is the moved polygon of the original one
    auto a = m.support_polygon(), b = s.support_polygon();
    OK(a.size() == b.size(), "moved support: polygon size");
    for (auto& q : b)
    {
      Eigen::Vector2d w = (T * Eigen::Vector3d(q.x(), q.y(), 0)).head<2>();
      double best = 1e9;
      for (auto& p : a) best = std::min(best, (p - w).norm());
      OK(best < 1e-9, "moved support: polygon vertex");
    }
    // equality of supports
    FP::Support c = s;
    OK(c == s, "a copy is equal");
    OK(!(m == s), "a moved support is different");
    FP::Support o = s; o.footsteps[n - 1].side = o.footsteps[n - 1].side == L ? R : L;
    OK(!(o == s), "another side is different");
    FP::Support z = s; z.footsteps.push_back(foot(L));
    OK(!(z == s) && !(s == z), "another number of footsteps is different");
    // footsteps holding a point
    auto f = s.footsteps[0];
    auto poly = f.support_polygon();
    for (int j = 0; j < 6; j++)
    {
      double u = rnd(-1, 1), v = rnd(-1, 1);
      if (std::fabs(std::fabs(u) - .5) < 1e-3 || std::fabs(std::fabs(v) - .5) < 1e-3) continue;
      Eigen::Vector2d q = (f.frame * Eigen::Vector3d(u * f.foot_length, v * f.foot_width, 0)).head<2>();
      OK(FP::Footstep::polygon_contains(poly, q) == (std::fabs(u) < .5 && std::fabs(v) < .5), "polygon_contains");
    }
  }
  return done();
}
