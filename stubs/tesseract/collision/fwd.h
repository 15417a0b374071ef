#pragma once
#include "types.h"
namespace tesseract::collision { class DiscreteContactManager; class ContinuousContactManager; }
