// Edits which make a valid document break one validation rule, by construction.
#pragma once

#include "query.h"

namespace h {

// Applies one random rule-breaking edit and returns the name of the rule, nothing when the drawn
// edit does not apply to this document. The document has to be rendered again afterwards.
std::optional<std::string> breakRule(Src& src, const MSchema& m, Doc& doc);
std::vector<std::string> ruleNames();
std::optional<std::string> breakRule(Src& src, const MSchema& m, Doc& doc, const std::string& rule);

// A literal which does not fit the type, nothing when everything fits.
std::optional<Val> wrongLiteral(Src& src, const MSchema& m, const TypeRef& type, size_t depth = 0);

} // namespace h
