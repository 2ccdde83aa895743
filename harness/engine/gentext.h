// Generators of text shared by several checks.
#pragma once

#include "jv.h"

namespace h {

// Unicode scalar value, simplest is 'a'.
uint32_t genCodePoint(Src& src);
std::string genText(Src& src, size_t maxCodePoints);
// A Name of the GraphQL grammar.
std::string genName(Src& src);
// Double with an interesting distribution; always finite.
double genDouble(Src& src);
int32_t genInt32(Src& src);

} // namespace h
