// A visualisation that remembers what it is asked to show.
#pragma once
#include "util.h"
#include <tesseract/state_solver/state_solver.h>
#include <tesseract/visualization/markers/arrow_marker.h>
#include <tesseract/visualization/markers/axis_marker.h>
#include <tesseract/visualization/markers/contact_results_marker.h>
#include <tesseract/visualization/visualization.h>

namespace hu
{
inline void same_pose(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b, const char* label)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      sym::check_eq(a(i, j), b(i, j), label);
}
inline void same_point(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const char* label)
{
  for (int i = 0; i < 3; ++i)
    sym::check_eq(a(i), b(i), label);
}
struct Picture : tesseract::visualization::Visualization
{
  struct Event
  {
    char kind;  // clear, trajectory, wait, axis, arrow (>), contacts
    tesseract::common::JointTrajectory t;
    const tesseract::scene_graph::StateSolver* solver{ nullptr };
    Eigen::Isometry3d pose{ Eigen::Isometry3d::Identity() };
    Eigen::Vector3d from{ Eigen::Vector3d::Zero() }, to{ Eigen::Vector3d::Zero() };
    std::vector<std::string> links;
    tesseract::collision::ContactResultVector contacts;
    std::vector<double> margins;
  };
  std::vector<Event> events;
  void plotMarker(const tesseract::visualization::Marker& m, std::string) override
  {
    Event e;
    if (const auto* a = dynamic_cast<const tesseract::visualization::AxisMarker*>(&m))
    {
      e.kind = 'a';
      e.pose = a->pose;
    }
    else if (const auto* a = dynamic_cast<const tesseract::visualization::ArrowMarker*>(&m))
    {
      e.kind = '>';
      e.from = a->from;
      e.to = a->to;
    }
    else if (const auto* a = dynamic_cast<const tesseract::visualization::ContactResultsMarker*>(&m))
    {
      e.kind = 'c';
      e.links = a->links;
      e.contacts = a->results;
      e.margins = a->margins;
    }
    else
      e.kind = '?';
    events.push_back(e);
  }
  void plotTrajectory(const tesseract::common::JointTrajectory& t, const tesseract::scene_graph::StateSolver& s, std::string) override
  {
    Event e;
    e.kind = 't';
    e.t = t;
    e.solver = &s;
    events.push_back(e);
  }
  void clear(std::string) override
  {
    Event e;
    e.kind = 'x';
    events.push_back(e);
  }
  void waitForInput(std::string) override
  {
    Event e;
    e.kind = 'w';
    events.push_back(e);
  }
};
}  // namespace hu
