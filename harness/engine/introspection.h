// Introspection queries.
#pragma once

#include "query.h"

namespace h {

Sel field(const std::string& name, std::vector<Sel> sub = {});
Sel spread(const std::string& name);
// Everything there is to know about a schema, with some choices left open.
Doc fullQuery(Src& src, const MSchema& m, bool everyType);

} // namespace h
