// Stand-in, see ../common/types.h
#pragma once
#include <tesseract/common/types.h>
#include <tesseract/common/eigen_types.h>
#include <tesseract/common/utils.h>
#include <tesseract/common/collision_margin_data.h>
#include <Eigen/Geometry>
#include <array>
#include <functional>
#include <map>
#include <vector>
namespace tesseract::collision
{
enum class ContinuousCollisionType { CCType_None, CCType_Time0, CCType_Time1, CCType_Between };
enum class CollisionEvaluatorType { NONE, DISCRETE, LVS_DISCRETE, CONTINUOUS, LVS_CONTINUOUS };
enum class CollisionCheckProgramType { ALL, ALL_EXCEPT_START, ALL_EXCEPT_END, START_ONLY, END_ONLY, INTERMEDIATE_ONLY };
enum class ContactTestType { FIRST = 0, CLOSEST = 1, ALL = 2, LIMITED = 3 };
struct ContactRequest
{
  ContactTestType type{ ContactTestType::ALL };
  ContactRequest() = default;
  ContactRequest(ContactTestType t) : type(t) {}
};
enum class CollisionMarginPairOverrideType { NONE, REPLACE, MODIFY };
struct CollisionMarginPairData
{
  std::map<tesseract::common::LinkNamesPair, double> pairs;
  void setCollisionMargin(const std::string& a, const std::string& b, double m)
  {
    pairs[a <= b ? tesseract::common::LinkNamesPair(a, b) : tesseract::common::LinkNamesPair(b, a)] = m;
  }
};
struct ContactManagerConfig
{
  ContactManagerConfig(double m = 0) : margin(m) {}
  double margin;
  CollisionMarginPairData pair_margin_data;
  CollisionMarginPairOverrideType pair_margin_override_type{ CollisionMarginPairOverrideType::NONE };
  bool operator==(const ContactManagerConfig& r) const { return margin == r.margin; }
  void scaleMargins(double f)
  {
    margin *= f;
    for (auto& p : pair_margin_data.pairs)
      p.second *= f;
  }
};
struct CollisionCheckConfig
{
  CollisionCheckConfig() = default;
  CollisionCheckConfig(ContactRequest r, CollisionEvaluatorType t, double l, CollisionCheckProgramType m)
    : contact_request(r), type(t), longest_valid_segment_length(l), check_program_mode(m) {}
  ContactRequest contact_request;
  CollisionEvaluatorType type{ CollisionEvaluatorType::DISCRETE };
  double longest_valid_segment_length{ 0.005 };
  CollisionCheckProgramType check_program_mode{ CollisionCheckProgramType::ALL };
  bool operator==(const CollisionCheckConfig& r) const
  {
    return type == r.type && longest_valid_segment_length == r.longest_valid_segment_length && check_program_mode == r.check_program_mode;
  }
};
struct ContactResult
{
  double distance{ 0 };
  std::array<std::string, 2> link_names;
  std::array<int, 2> shape_id{ -1, -1 }, subshape_id{ -1, -1 };
  std::array<Eigen::Vector3d, 2> nearest_points{ Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() };
  std::array<Eigen::Vector3d, 2> nearest_points_local{ Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() };
  std::array<Eigen::Isometry3d, 2> transform{ Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() };
  Eigen::Vector3d normal{ Eigen::Vector3d::Zero() };
  std::array<double, 2> cc_time{ -1, -1 };
  std::array<ContinuousCollisionType, 2> cc_type{ ContinuousCollisionType::CCType_None, ContinuousCollisionType::CCType_None };
  std::array<Eigen::Isometry3d, 2> cc_transform{ Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() };
  bool single_contact_point{ false };
};
using ContactResultVector = std::vector<ContactResult>;
// clear() keeps the emptied vectors, count() is the number of contacts, like the original
class ContactResultMap
{
public:
  using KeyType = tesseract::common::LinkNamesPair;
  using MappedType = ContactResultVector;
  using PairType = std::pair<const KeyType, MappedType>;
  using FilterFn = std::function<void(PairType&)>;
  void clear()
  {
    for (auto& e : data_)
      e.second.clear();
    count_ = 0;
  }
  long count() const { return count_; }
  bool empty() const { return count_ == 0; }
  auto begin() const { return data_.begin(); }
  auto end() const { return data_.end(); }
  void flattenWrapperResults(std::vector<std::reference_wrapper<const ContactResult>>& v) const
  {
    v.clear();
    for (const auto& e : data_)
      for (const auto& r : e.second)
        v.emplace_back(r);
  }
  ContactResult& addContactResult(const KeyType& k, ContactResult r)
  {
    ++count_;
    data_[k].push_back(std::move(r));
    return data_[k].back();
  }
  void filter(const FilterFn& fn)
  {
    count_ = 0;
    for (auto& e : data_)
    {
      fn(e);
      count_ += static_cast<long>(e.second.size());
    }
  }
  // Places the contacts of one sub segment on the whole segment (time, type), filters them and keeps what is left.
  void addInterpolatedCollisionResults(ContactResultMap& sub, long index, long last, const std::vector<std::string>& active,
                                       double dt, bool discrete, const FilterFn& fn = nullptr)
  {
    for (auto& e : sub.data_)
    {
      for (auto& r : e.second)
        for (std::size_t j = 0; j < 2; ++j)
        {
          bool is_active = false;
          for (const auto& l : active)
            is_active = is_active || l == r.link_names[j];
          if (!is_active)
            continue;
          r.cc_time[j] = r.cc_time[j] < 0 ? double(index) * dt : double(index) * dt + r.cc_time[j] * dt;
          if (index == 0 && (discrete || r.cc_type[j] == ContinuousCollisionType::CCType_Time0))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time0;
          else if (index == (discrete ? last : last - 1) && (discrete || r.cc_type[j] == ContinuousCollisionType::CCType_Time1))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time1;
          else
            r.cc_type[j] = ContinuousCollisionType::CCType_Between;
          if (discrete)
            r.cc_transform = r.transform;
        }
      if (fn)
        fn(e);
      for (auto& r : e.second)
        addContactResult(e.first, r);
    }
    log.push_back({ index, last, dt, discrete, active });
  }
  struct Call  // what the caller passed, for the harnesses
  {
    long index, last;
    double dt;
    bool discrete;
    std::vector<std::string> active;
  };
  std::vector<Call> log;

private:
  std::map<KeyType, ContactResultVector> data_;
  long count_{ 0 };
};
}  // namespace tesseract::collision
