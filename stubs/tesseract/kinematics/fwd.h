#pragma once
namespace tesseract::kinematics { class JointGroup; class KinematicGroup; }
