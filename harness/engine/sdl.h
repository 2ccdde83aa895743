// Schema texts: other names, other layouts, and edits which break a rule.
#pragma once

#include "model.h"

namespace h {

// The identifier which the generators use for a GraphQL name in C++.
std::string safeName(const std::string& name);
std::string upperFirst(std::string name);

// Gives everything a name of another shape (leading and double underscores, other cases).
void renameSchema(Src& src, MSchema& m);
// Keeps a suggested text away from what the generators are known not to handle (see DESIGN.md).
struct SdlOptions
{
	bool reorder = true;
	bool extend = true;
	bool schema = false; // there is a schema definition, even if it is not needed
	bool layout = true; // descriptions as block strings, comments, white space
};
// A text which means exactly this schema. May reorder the types of the schema, nothing else.
std::string sdlVariant(Src& src, const MSchema& m, const SdlOptions& options, size_t* extensions = nullptr);
// A text which has to be refused, and why.
std::string sdlBroken(Src& src, const MSchema& m, std::string& rule);


// What one run of the service generator is given.
struct GenInput
{
	MSchema model;
	std::string sdl;
	std::vector<std::string> flags;
	std::string ns;
};
// Everything decided by the seed.
GenInput genInput(uint64_t seed);
GenInput genInput(Src& src, const SdlOptions& layout, const std::string& ns);

} // namespace h
