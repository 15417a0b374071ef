// A planning problem of the sco based trajopt: a robot, its scene, and a solver back end that records what it is given.
#pragma once
#include "collision_world.h"
#include "kinematics.h"
#include "sco_model.h"
#include <trajopt/kinematic_terms.hpp>
#include <trajopt/plot_callback.hpp>
#include <trajopt/problem_description.hpp>
#include <trajopt/utils.hpp>
#include <json/json.h>

static std::shared_ptr<hs::Mock> g_model;
static int g_models = 0;
namespace sco
{
Model::Ptr createBPMPDModel()
{
  ++g_models;
  g_model = std::make_shared<hs::Mock>();
  return g_model;
}
}  // namespace sco
#ifndef REAL_PLOT_CALLBACK
namespace trajopt
{
std::function<void(sco::OptProb*, sco::OptResults&)> PlotCallback(const std::shared_ptr<tesseract::visualization::Visualization>&)
{
  return [](sco::OptProb*, sco::OptResults&) {};
}
}  // namespace trajopt
#endif

namespace
{
using trajopt::DblVec;
using trajopt::IntVec;
using trajopt::TermType;

struct Robot : hu::Chain
{
  using hu::Chain::calcFwdKin;
  using hu::Chain::calcJacobian;
  Eigen::VectorXd lower, upper;
  explicit Robot(int n) : hu::Chain(n)
  {
    lower = Eigen::VectorXd::Constant(n, -50);
    upper = Eigen::VectorXd::Constant(n, 50);
    // "m", "n" move, "s", "b" do not
    for (const char* l : { "m", "n", "s", "b" })
    {
      Link& k = links[l];
      k.R = hu::turn(l[0] % 4);
      k.p = Eigen::Vector3d(l[0] - 100, 2, -1);
      if (l[0] == 'm' || l[0] == 'n')
        for (int j = 0; j < n; ++j)
        {
          k.dp.push_back(Eigen::Vector3d(1 + j, l[0] == 'm' ? 2 : -1, 0.5));
          k.dR.push_back(Eigen::Matrix3d::Zero());
        }
    }
    base = "b";
  }
  tesseract::kinematics::KinematicLimits getLimits() const override
  {
    tesseract::kinematics::KinematicLimits l;
    l.joint_limits.resize(dof, 2);
    l.joint_limits.col(0) = lower;
    l.joint_limits.col(1) = upper;
    return l;
  }
  std::vector<std::string> getJointNames() const override
  {
    // not in alphabetical order
    std::vector<std::string> n{ "j1", "j0", "j2" };
    n.resize(static_cast<std::size_t>(dof));
    return n;
  }
  std::vector<std::string> getActiveLinkNames() const override { return { "m", "n" }; }
  Eigen::MatrixXd calcJacobian(const Q& q, const std::string& l) const override { return calcJacobian(q, l, Eigen::Vector3d::Zero()); }
  Eigen::MatrixXd calcJacobian(const Q&, const std::string& l, const V3&) const override
  {
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(6, dof);
    for (int j = 0; j < dof; ++j)
      J.col(j).head(3) = links.at(l).dp.at(static_cast<std::size_t>(j));
    return J;
  }
};
struct Scene : Env
{
  std::map<std::string, double> joints;
  std::string manip{ "arm" };
  int dof;
  Scene(World& w, int dof) : Env(w), dof(dof) {}
  tesseract::scene_graph::SceneState getState() const override
  {
    tesseract::scene_graph::SceneState s;
    s.joints = joints;
    return s;
  }
  std::unique_ptr<tesseract::kinematics::JointGroup> getJointGroup(const std::string& n) const override
  {
    if (n != manip)
      return nullptr;
    return std::make_unique<Robot>(dof);
  }
  std::vector<std::string> getActiveJointNames() const override { return { "j1", "j0" }; }
  struct Solver : tesseract::scene_graph::StateSolver
  {
  };
  std::unique_ptr<tesseract::scene_graph::StateSolver> getStateSolver() const override { return std::make_unique<Solver>(); }
};

/** what is asked for */
struct Plan
{
  World w;
  int n, dof;
  std::shared_ptr<Robot> robot;
  std::shared_ptr<Scene> scene;
  trajopt::ProblemConstructionInfo pci;
  Plan(int n, int dof) : n(n), dof(dof), robot(std::make_shared<Robot>(dof)), scene(std::make_shared<Scene>(w, dof)), pci(scene)
  {
    scene->joints = { { "j0", 3 }, { "j1", 5 }, { "j2", 7 }, { "other", 11 } };
    pci.kin = std::make_shared<tesseract::kinematics::JointGroup>(robot.get());
    pci.basic_info.n_steps = n;
    pci.basic_info.convex_solver = sco::ModelType::BPMPD;
    pci.basic_info.manip = "arm";
  }
  int cols() const { return dof + (pci.basic_info.use_time ? 1 : 0); }
  /** column of the problem: step by step, joints in the order of the manipulator, then time */
  std::size_t at(int i, int j) const { return static_cast<std::size_t>(i * cols() + j); }
  void add(const trajopt::TermInfo::Ptr& t, bool cost, bool time = false)
  {
    t->term_type = cost ? TermType::TT_COST : TermType::TT_CNT;
    if (time)
    {
      t->term_type = t->term_type | TermType::TT_USE_TIME;
      pci.basic_info.use_time = true;
    }
    (cost ? pci.cost_infos : pci.cnt_infos).push_back(t);
  }
  trajopt::TrajOptProb::Ptr build() { return trajopt::ConstructProblem(pci); }
  /** null: refused */
  trajopt::TrajOptProb::Ptr tryBuild()
  {
    try
    {
      return build();
    }
    catch (const std::exception&)
    {
      return nullptr;
    }
  }
};
template <class T>
std::shared_ptr<T> term(const std::string& name)
{
  auto t = std::make_shared<T>();
  t->name = name;
  return t;
}
double cost(trajopt::TrajOptProb& p, const DblVec& x)
{
  double s = 0;
  for (const auto& c : p.getCosts())
    s += c->value(x);
  return s;
}
double violation(trajopt::TrajOptProb& p, const DblVec& x)
{
  double s = 0;
  for (const auto& c : p.getConstraints())
    s += c->violation(x);
  return s;
}
}  // namespace
