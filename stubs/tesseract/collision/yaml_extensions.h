// Stand-in: conversions of the collision settings, every field of which goes both ways
#pragma once
#include <yaml-cpp/yaml.h>
#include <tesseract/collision/types.h>
namespace YAML
{
template <>
struct convert<tesseract::collision::ContactManagerConfig>
{
  static Node encode(const tesseract::collision::ContactManagerConfig& c)
  {
    Node n;
    n["default_margin"] = c.margin;
    return n;
  }
  static bool decode(const Node& node, tesseract::collision::ContactManagerConfig& c)
  {
    if (const Node& n = node["default_margin"])
      c.margin = n.as<double>();
    return true;
  }
};
template <>
struct convert<tesseract::collision::CollisionCheckConfig>
{
  static Node encode(const tesseract::collision::CollisionCheckConfig& c)
  {
    Node n;
    n["type"] = static_cast<int>(c.type);
    n["longest_valid_segment_length"] = c.longest_valid_segment_length;
    n["check_program_mode"] = static_cast<int>(c.check_program_mode);
    return n;
  }
  static bool decode(const Node& node, tesseract::collision::CollisionCheckConfig& c)
  {
    if (const Node& n = node["type"])
      c.type = static_cast<tesseract::collision::CollisionEvaluatorType>(n.as<int>());
    if (const Node& n = node["longest_valid_segment_length"])
      c.longest_valid_segment_length = n.as<double>();
    if (const Node& n = node["check_program_mode"])
      c.check_program_mode = static_cast<tesseract::collision::CollisionCheckProgramType>(n.as<int>());
    return true;
  }
};
}  // namespace YAML
