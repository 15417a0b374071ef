// Stand-in, see types.h
#pragma once
namespace tesseract::common
{
struct JointState;
struct JointTrajectory;
}
