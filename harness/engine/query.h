// Random executable documents which are valid for a schema, their source text, and the reference
// algorithms for coercion and collection of fields.
#pragma once

#include "model.h"

namespace h {

struct Dir
{
	std::string name;
	std::vector<std::pair<std::string, Val>> args;
};

struct Pos
{
	size_t line = 0;
	size_t column = 0;
};

struct Sel
{
	enum Kind
	{
		Field,
		Spread,
		Inline
	} kind
		= Field;
	std::string alias;
	std::string name; // of the field or fragment
	std::vector<std::pair<std::string, Val>> args;
	std::vector<Dir> dirs;
	std::vector<Sel> sub;
	std::string cond; // of inline fragments, may be empty
	mutable Pos pos;  // filled in by render
	const std::string& response() const
	{
		return alias.empty() ? name : alias;
	}
};

struct VarDef
{
	std::string name;
	TypeRef type;
	std::optional<Val> def;
	bool strict = false; // used where null is not allowed
};

struct Op
{
	std::string kind = "query";
	std::string name;
	bool shorthand = false;
	std::vector<VarDef> vars;
	std::vector<Dir> dirs;
	std::vector<Sel> sels;
	mutable Pos pos;
};

struct Frag
{
	std::string name;
	std::string cond;
	std::vector<Dir> dirs;
	std::vector<Sel> sels;
	mutable Pos pos;
};

struct Doc
{
	std::vector<Op> ops;
	std::vector<Frag> frags;
	std::vector<size_t> order; // index into ops, or ops.size() + index into frags
	std::vector<std::string> extra; // definitions which do not belong in an executable document
	std::string text;

	const Frag* frag(std::string_view name) const
	{
		for (const auto& f : frags)
			if (f.name == name)
				return &f;
		return nullptr;
	}
	const Op* op(std::string_view name) const
	{
		for (const auto& o : ops)
			if (o.name == name)
				return &o;
		return nullptr;
	}
};

struct DocOptions
{
	std::string only;			  // kind of all operations, any when empty
	size_t maxOps = 3;
	bool dupComposites = false;	  // repeat composite fields with other sub-selections
	bool skipInclude = true;
	bool variables = true;
	bool directives = true;
	bool introspection = true;
	bool introspectionOnly = false; // root fields are __schema and __type only
	bool subscriptionRoots = true;
	size_t maxDepth = 4;
	size_t budget = 30; // fields
	unsigned fragmentWeight = 3;
};

Doc genDoc(Src& src, const MSchema& m, const DocOptions& options = {});
// Fills in text and positions. layout 0: canonical, otherwise random white space and comments.
void render(Src& src, Doc& doc, int layout);
void renderPlain(Doc& doc);
// Drops fragments nobody reaches and sets the variables of each operation to the ones it uses.
// The fragments in use, and the variables in use by each operation.
struct Uses
{
	std::set<std::string> fragments;
	std::vector<std::set<std::string>> variables;
};
Uses usesOf(const Doc& doc);
// After an edit: drops what it made unused, defines variables where it made them used.
void adjustUses(Doc& doc, const Uses& before, const std::vector<VarDef>& pool);
void finish(Src* src, Doc& doc, const std::vector<VarDef>& pool);

// Random values for the variables of an operation, as the caller supplies them.
JV genVariables(Src& src, const MSchema& m, const Op& op, bool extras = true);
JV genInputValue(Src& src, const MSchema& m, const TypeRef& type, size_t depth = 0);

// The variables an operation sees: the supplied ones it defines, plus defaults.
JV operationVariables(const Op& op, const JV& supplied);
// What the literal denotes, nothing when it is a variable which is omitted.
std::optional<JV> evaluate(const Val& v, const JV& variables);
JV evaluateArgs(const std::vector<std::pair<std::string, Val>>& args, const JV& variables);
JV evaluateDirs(const std::vector<Dir>& dirs, const JV& variables);
bool skipped(const std::vector<Dir>& dirs, const JV& variables);

void usedVariables(const Val& v, std::set<std::string>& out);
void usedVariables(const Doc& doc, const std::vector<Sel>& sels, std::set<std::string>& out, std::set<std::string>& seen);

bool compatible(const TypeRef& var, bool varNonNullDefault, const TypeRef& location, bool locationDefault);

} // namespace h
