#pragma once
#include "../../collision/types.h"
#include "../visualization.h"
#include <functional>
#include <vector>
namespace tesseract::visualization
{
struct ContactResultsMarker : Marker
{
  using Margin = std::function<double(const std::string&, const std::string&)>;
  ContactResultsMarker(std::vector<std::string> l, tesseract::collision::ContactResultVector r, const Margin& f)
    : links(std::move(l)), results(std::move(r))
  {
    for (const auto& c : results)
      margins.push_back(f(c.link_names[0], c.link_names[1]));
  }
  std::vector<std::string> links;
  tesseract::collision::ContactResultVector results;
  std::vector<double> margins;
};
}  // namespace tesseract::visualization
