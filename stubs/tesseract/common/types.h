// Stand-in for the tesseract header of the same name (tesseract is not installed here): only what the encoded code uses.
#pragma once
#include <string>
#include <utility>
#include <functional>
namespace tesseract::common
{
using LinkNamesPair = std::pair<std::string, std::string>;
}
namespace std
{
template <>
struct hash<tesseract::common::LinkNamesPair>
{
  size_t operator()(const tesseract::common::LinkNamesPair& p) const
  {
    return hash<string>()(p.first) * 31 + hash<string>()(p.second);
  }
};
}  // namespace std
