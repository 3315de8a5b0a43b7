// Histories of adding, removing and clearing objects of both ownership kinds; deletions are observed through operator delete.
#include "check.h"
#include <fstream>
#include <map>
#include <set>
#include <new>
#include "placo/kinematics/kinematics_solver.h"
#include "placo/dynamics/dynamics_solver.h"
using namespace placo;

static const int MAXW = 4096;
static void* watched[MAXW];
static int freed_count[MAXW];
static int n_watched = 0;
static int slot(void* p) { for (int i = 0; i < n_watched; i++) if (watched[i] == p) return i; return -1; }
// a watched block is never given back: a second deletion is seen as such, and no address is used twice
void operator delete(void* p) noexcept { int i = n_watched ? slot(p) : -1; if (i >= 0) freed_count[i]++; else free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void watch(void* p) { if (n_watched < MAXW && slot(p) < 0) { watched[n_watched] = p; freed_count[n_watched] = 0; n_watched++; } }
static int freed(void* p) { int i = slot(p); return i < 0 ? -1 : freed_count[i]; }

static int N;
struct KTask : kinematics::Task { int updates = 0; void update() override { updates++; A = Eigen::MatrixXd::Zero(1, N); A(0, N - 1) = 1; b = Eigen::MatrixXd::Zero(1, 1); }
  std::string type_name() override { return "user"; } std::string error_unit() override { return "none"; } };
struct DTask : dynamics::Task { int updates = 0; void update() override { updates++; A = Eigen::MatrixXd::Zero(1, N); A(0, N - 1) = 1; b = Eigen::MatrixXd::Zero(1, 1); }
  std::string type_name() override { return "user"; } std::string error_unit() override { return "none"; } };
struct KCon : kinematics::Constraint { int updates = 0; void add_constraint(problem::Problem&) override { updates++; } };
struct DCon : dynamics::Constraint { int updates = 0; void add_constraint(problem::Problem&, problem::Expression&) override { updates++; } };
struct DContact : dynamics::Contact { int updates = 0; void update() override { updates++; J = Eigen::MatrixXd::Zero(1, N); J(0, N - 1) = 1; } };

enum Kind { TASK, CON, CONTACT };
struct Obj { Kind kind; void* p; bool owned; bool in; int* updates; void* base; };
static const char* names[] = { "task", "constraint", "contact" };

template <class T> static T& ref(T* p) { return *p; }
template <class T> static T& ref(T& p) { return p; }
template <class S> struct Tr;
template <> struct Tr<kinematics::KinematicsSolver> { using T = kinematics::Task; using C = kinematics::Constraint; using UT = KTask; using UC = KCon; static constexpr bool dyn = false; };
template <> struct Tr<dynamics::DynamicsSolver> { using T = dynamics::Task; using C = dynamics::Constraint; using UT = DTask; using UC = DCon; static constexpr bool dyn = true; };
// the solvers keep their objects protected
struct KS : kinematics::KinematicsSolver { using kinematics::KinematicsSolver::KinematicsSolver; std::set<kinematics::Task*>& ts() { return tasks; } std::set<kinematics::Constraint*>& cs() { return constraints; } };
struct DS : dynamics::DynamicsSolver { using dynamics::DynamicsSolver::DynamicsSolver; std::set<dynamics::Task*>& ts() { return tasks; } std::set<dynamics::Constraint*>& cs() { return constraints; } };

template <class Sol, class S> struct History
{
  using X = Tr<S>;
  model::RobotWrapper& r;
  Sol* s;
  std::vector<Obj> objs;
  History(model::RobotWrapper& r) : r(r) { s = new Sol(r); }
  template <class T> void created(Kind k, T& t)
  {
    void* p = dynamic_cast<void*>(&t);
    watch(p);
    objs.push_back({ k, p, true, true, nullptr, (void*)base(k, &t) });
    OK(t.solver == s, std::string("a created ") + names[k] + " is linked to the solver");
    OK(t.solver_memory, std::string("a created ") + names[k] + " belongs to the solver");
  }
  static typename X::T* base(Kind, typename X::T* t) { return t; }
  static typename X::C* base(Kind, typename X::C* t) { return t; }
  static dynamics::Contact* base(Kind, dynamics::Contact* t) { return t; }
  void library_task()
  {
    Eigen::Vector3d v = mrnd(3, 1);
    Eigen::Affine3d T = Eigen::Affine3d::Identity();
    T.translation() = v;
    int k = irnd(0, 6);
    if (k == 0) created(TASK, s->add_position_task("tip0", v));
    if (k == 1) created(TASK, s->add_orientation_task("tip1", Eigen::Matrix3d::Identity()));
    if (k == 2) { auto f = s->add_frame_task("tip0", T); created(TASK, ref(f.position)); created(TASK, ref(f.orientation)); }
    if (k == 3) { auto f = s->add_relative_frame_task("tip0", "tip1", T); created(TASK, ref(f.position)); created(TASK, ref(f.orientation)); }
    if (k == 4) created(TASK, s->add_com_task(v));
    if (k == 5) created(TASK, s->add_joints_task());
    if (k == 6) created(TASK, s->add_gear_task());
  }
  void more(std::true_type)
  {
    int k = irnd(0, 6);
    if (k == 0) created(TASK, s->add_torque_task());
    if (k == 1) created(CONTACT, s->add_puppet_contact());
    if (k == 2) created(CONTACT, s->add_external_wrench_contact("tip0", "world"));
    if (k == 3) { auto& t = s->add_position_task("tip0", Eigen::Vector3d::Zero()); created(TASK, t); created(CONTACT, irnd(0, 1) ? s->add_point_contact(t) : s->add_unilateral_point_contact(t)); }
    if (k == 4) { auto f = s->add_frame_task("tip1", Eigen::Affine3d::Identity()); created(TASK, ref(f.position)); created(TASK, ref(f.orientation));
      int j = irnd(0, 3); if (j == 0) created(CONTACT, s->add_planar_contact(f)); if (j == 1) created(CONTACT, s->add_fixed_contact(f));
      if (j == 2) created(CONTACT, s->add_line_contact(f)); if (j == 3) created(CONTACT, s->add_unilateral_line_contact(f)); }
    if (k == 5) { auto* c = new DContact(); watch(dynamic_cast<void*>(c)); s->add_contact(*c); objs.push_back({ CONTACT, dynamic_cast<void*>(c), false, true, &c->updates, (void*)(dynamics::Contact*)c });
      OK(c->solver == s && !c->solver_memory, "a user's contact is linked to the solver and stays the user's"); }
    if (k == 6) { auto& t = s->add_com_task(Eigen::Vector3d::Zero()); created(TASK, t); created(CONTACT, s->add_task_contact(t)); }
  }
  void more(std::false_type)
  {
    int k = irnd(0, 9);
    if (k == 0) created(TASK, s->add_axisalign_task("tip0", Eigen::Vector3d::UnitX(), Eigen::Vector3d::UnitZ()));
    if (k == 1) created(TASK, s->add_distance_task("tip0", "tip1", .4));
    if (k == 2) created(TASK, s->add_regularization_task(1e-4));
    if (k == 3) created(TASK, s->add_kinetic_energy_regularization_task(1e-4));
    if (k == 4) created(TASK, s->add_centroidal_momentum_task(Eigen::Vector3d::Zero()));
    if (k == 5) created(CON, s->add_cone_constraint("tip0", "tip1", 3.));
    if (k == 6) created(CON, s->add_yaw_constraint("tip0", "tip1", 3.));
    if (k == 7) created(CON, s->add_distance_constraint("tip0", "tip1", 50.));
    if (k == 8) created(CON, s->add_com_polygon_constraint({ { 50, 50 }, { 50, -50 }, { -50, -50 }, { -50, 50 } }, 0.1));
    if (k == 9) created(CON, s->add_joint_space_half_spaces_constraint(Eigen::MatrixXd::Zero(1, N), Eigen::VectorXd::Ones(1)));
  }
  void user_task()
  {
    auto* t = new typename X::UT();
    watch(dynamic_cast<void*>(t));
    s->add_task(*t);
    if (irnd(0, 3) == 0) s->add_task(*t);
    objs.push_back({ TASK, dynamic_cast<void*>(t), false, true, &t->updates, (void*)(typename X::T*)t });
    OK(t->solver == s && !t->solver_memory, "a user's task is linked to the solver and stays the user's");
  }
  void user_con()
  {
    auto* t = new typename X::UC();
    watch(dynamic_cast<void*>(t));
    s->add_constraint(*t);
    if (irnd(0, 3) == 0) s->add_constraint(*t);
    objs.push_back({ CON, dynamic_cast<void*>(t), false, true, &t->updates, (void*)(typename X::C*)t });
    OK(t->solver == s && !t->solver_memory, "a user's constraint is linked to the solver and stays the user's");
  }
  void remove_contact(std::true_type, Obj& o) { s->remove_contact(*(dynamics::Contact*)o.base); }
  void remove_contact(std::false_type, Obj&) {}
  std::vector<dynamics::Contact*> contacts(std::true_type) { return s->contacts; }
  std::vector<dynamics::Contact*> contacts(std::false_type) { return {}; }
  void check(const std::string& when, bool alive = true)
  {
    std::set<void*> t, c;
    std::multiset<void*> k;
    for (auto& o : objs)
    {
      int want = (o.owned && !o.in) ? 1 : 0;
      OK(freed(o.p) == want, when + ": a " + (o.owned ? "solver's " : "user's ") + names[o.kind] + (o.in ? " still held" : " taken out") + " was deleted " + std::to_string(freed(o.p)) + " times");
      if (o.in) { if (o.kind == TASK) t.insert(o.base); else if (o.kind == CON) c.insert(o.base); else k.insert(o.base); }
    }
    if (!alive) return;
    std::set<void*> t2(s->ts().begin(), s->ts().end()), c2(s->cs().begin(), s->cs().end());
    auto cc = contacts(std::integral_constant<bool, X::dyn>());
    std::multiset<void*> k2(cc.begin(), cc.end());
    OK(t == t2, when + ": tasks held by the solver");
    OK(c == c2, when + ": constraints held by the solver");
    OK(k == k2, when + ": contacts held by the solver");
  }
  void solve()
  {
    std::vector<int> before;
    for (auto& o : objs) before.push_back(o.updates ? *o.updates : 0);
    try { run(std::integral_constant<bool, X::dyn>()); } catch (const std::exception&) { return; }
    for (size_t i = 0; i < objs.size(); i++)
      if (objs[i].updates)
        OK(*objs[i].updates - before[i] == (objs[i].in ? 1 : 0), std::string("a user's ") + names[objs[i].kind] + (objs[i].in ? " still held" : " taken out") + " was used " + std::to_string(*objs[i].updates - before[i]) + " times by a solve");
  }
  void run(std::true_type) { s->solve(false); }
  void run(std::false_type) { s->solve(false); }
  void step()
  {
    int k = irnd(0, 12);
    if (k <= 2) library_task();
    else if (k <= 4) more(std::integral_constant<bool, X::dyn>());
    else if (k == 5) user_task();
    else if (k == 6) user_con();
    else if (k <= 9)
    {
      std::vector<size_t> in;
      for (size_t i = 0; i < objs.size(); i++) if (objs[i].in) in.push_back(i);
      if (in.empty()) return;
      // a task a contact refers to is removed after the contact
      Obj& o = objs[in[irnd(0, in.size() - 1)]];
      if (o.kind == TASK && o.owned && X::dyn) for (auto& x : objs) if (x.in && x.kind == CONTACT && x.owned) { remove_contact(std::integral_constant<bool, X::dyn>(), x); x.in = false; }
      if (o.kind == TASK) s->remove_task(*(typename X::T*)o.base);
      if (o.kind == CON) s->remove_constraint(*(typename X::C*)o.base);
      if (o.kind == CONTACT) remove_contact(std::integral_constant<bool, X::dyn>(), o);
      o.in = false;
      check(std::string("after removing a ") + names[o.kind]);
    }
    else if (k == 10 && irnd(0, 2) == 0) { s->clear(); for (auto& o : objs) o.in = false; check("after clear"); }
    else if (k == 11) { for (size_t i = 0; i < objs.size(); i++) if (!objs[i].in && !objs[i].owned) {
        // a user's object can be added again
        Obj& o = objs[i];
        if (o.kind == TASK) s->add_task(*(typename X::T*)o.base);
        if (o.kind == CON) s->add_constraint(*(typename X::C*)o.base);
        if (o.kind == CONTACT) again(std::integral_constant<bool, X::dyn>(), o);
        o.in = true; break; } }
    else solve();
    check("after an operation");
  }
  void again(std::true_type, Obj& o) { s->add_contact(*(dynamics::Contact*)o.base); }
  void again(std::false_type, Obj&) {}
  void frame_task_removed()
  {
    auto f = s->add_frame_task("tip0", Eigen::Affine3d::Identity());
    created(TASK, ref(f.position)); created(TASK, ref(f.orientation));
    s->remove_task(f);
    objs[objs.size() - 1].in = objs[objs.size() - 2].in = false;
    check("after removing a frame task");
  }
  void end() { delete s; for (auto& o : objs) o.in = false; check("after destroying the solver", false); n_watched = 0; }
};

template <class Sol, class S> static void histories(model::RobotWrapper& r, const char* what)
{
  for (int t = 0; t < reps(40); t++)
  {
    CASE(std::string(what) + " history " + std::to_string(t));
    History<Sol, S> h(r);
    int n = irnd(3, 25);
    for (int k = 0; k < n; k++) { if (irnd(0, 9) == 0) h.frame_task_removed(); else h.step(); }
    h.end();
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  std::ifstream f(argv[3]);
  std::stringstream u;
  u << f.rdbuf();
  model::RobotWrapper r("", model::RobotWrapper::IGNORE_COLLISIONS, u.str());
  r.update_kinematics();
  N = r.model.nv;
  histories<KS, kinematics::KinematicsSolver>(r, "kinematics");
  histories<DS, dynamics::DynamicsSolver>(r, "dynamics");
  return done();
}
