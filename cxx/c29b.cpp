#include <sstream>
#include <string>
#include "core/include/AlignedArray.h"
#include "core/include/arrayUtils.h"
#include "core/include/vec3Operation.h"
#include "core/include/vecx.h"
std::string other_unit(double s) { std::ostringstream o; o << s * matersdk::Vec3(1, 2, 3); return o.str(); }
