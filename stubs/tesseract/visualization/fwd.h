// Stand-in, see ../common/types.h
#pragma once
namespace tesseract::visualization
{
class Visualization;
}
