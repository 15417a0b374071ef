// Stand-in, see ../common/types.h
#pragma once
namespace tesseract::scene_graph
{
class StateSolver;
}
