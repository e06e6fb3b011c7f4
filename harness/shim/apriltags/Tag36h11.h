#ifndef VERIF_SHIM_TAG36H11_H_
#define VERIF_SHIM_TAG36H11_H_
#include "apriltags/TagDetector.h"
namespace AprilTags { static const TagCodes tagCodes36h11{36}; }
#endif
