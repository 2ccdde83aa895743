// C++ implementations of generated services, written from the model.
#pragma once

#include "gen.h"

namespace h {

// The source file which implements every object type of the schema on top of a World.
std::string emitService(const GenInput& g, const std::string& prefix, const std::string& name, uint64_t seed);

} // namespace h
