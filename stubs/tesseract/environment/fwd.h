#pragma once
namespace tesseract::environment { class Environment; }
