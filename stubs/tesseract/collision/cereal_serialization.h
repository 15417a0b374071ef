// Stand-in: the collision settings, every field of which is archived
#pragma once
#include <cereal/cereal.hpp>
#include <cereal/types/common.hpp>
#include <tesseract/collision/types.h>
namespace tesseract::collision
{
template <class Archive>
void serialize(Archive& ar, ContactManagerConfig& c)
{
  ar(cereal::make_nvp("default_margin", c.margin));
}
template <class Archive>
void serialize(Archive& ar, CollisionCheckConfig& c)
{
  ar(cereal::make_nvp("type", c.type));
  ar(cereal::make_nvp("longest_valid_segment_length", c.longest_valid_segment_length));
  ar(cereal::make_nvp("check_program_mode", c.check_program_mode));
}
}  // namespace tesseract::collision
