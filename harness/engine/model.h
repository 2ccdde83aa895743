// Random GraphQL schemas as plain data, and the schema::Schema built from one.
#pragma once

#include "gentext.h"
#include "gram.h"

#include "graphqlservice/internal/Schema.h"

namespace h {

// List levels from the outermost inwards; nonNull[i] tells whether the i-th list is non-null.
struct TypeRef
{
	std::vector<bool> lists;
	bool nonNull = false; // of the innermost named type
	std::string name;

	bool outerNonNull() const
	{
		return lists.empty() ? nonNull : lists.front();
	}
	TypeRef nullable() const
	{
		TypeRef r = *this;
		if (r.lists.empty())
			r.nonNull = false;
		else
			r.lists.front() = false;
		return r;
	}
	TypeRef withOuter(bool nn) const
	{
		TypeRef r = *this;
		if (r.lists.empty())
			r.nonNull = nn;
		else
			r.lists.front() = nn;
		return r;
	}
	TypeRef element() const
	{
		TypeRef r = *this;
		r.lists.erase(r.lists.begin());
		return r;
	}
	std::string text() const;
	bool operator==(const TypeRef& o) const
	{
		return lists == o.lists && nonNull == o.nonNull && name == o.name;
	}
};

// A literal in a document.
struct Val
{
	enum Kind
	{
		Null,
		Bool,
		Int,
		Float,
		String,
		Enum,
		List,
		Object,
		Var
	} kind
		= Null;
	std::string text; // source text of scalars, name of variables
	JV value;		  // what scalars denote
	std::vector<Val> list;
	std::vector<std::pair<std::string, Val>> fields;

	static Val var(std::string name)
	{
		Val v;
		v.kind = Var;
		v.text = std::move(name);
		return v;
	}
	static Val boolean(bool b)
	{
		Val v;
		v.kind = Bool;
		v.text = b ? "true" : "false";
		v.value = JV::boolean(b);
		return v;
	}
	static Val null()
	{
		Val v;
		v.text = "null";
		return v;
	}
	static Val integer(int64_t i)
	{
		Val v;
		v.kind = Int;
		v.text = std::to_string(i);
		v.value = JV::integer(i);
		return v;
	}
	static Val real(const std::string& text)
	{
		Val v;
		v.kind = Float;
		v.text = text;
		v.value = JV::real(std::strtod(text.c_str(), nullptr));
		return v;
	}
	static Val string(const std::string& plain) // no characters which need escapes
	{
		Val v;
		v.kind = String;
		v.text = "\"" + plain + "\"";
		v.value = JV::string(plain);
		return v;
	}
	static Val enumeration(const std::string& name)
	{
		Val v;
		v.kind = Enum;
		v.text = name;
		v.value = JV::enumeration(name);
		return v;
	}
	bool hasVar() const;
	std::string render() const; // on one line unless a block string says otherwise
};

struct InputDef
{
	std::string name;
	TypeRef type;
	std::optional<Val> def;
	std::string description;
	std::string defText() const
	{
		return def ? def->render() : "";
	}
	bool required() const
	{
		return type.outerNonNull() && !def;
	}
};

struct FieldDef
{
	std::string name;
	TypeRef type;
	std::vector<InputDef> args;
	std::string description;
	std::optional<std::string> deprecated;
	const InputDef* arg(std::string_view n) const
	{
		for (const auto& a : args)
			if (a.name == n)
				return &a;
		return nullptr;
	}
};

struct EnumDef
{
	std::string name;
	std::string description;
	std::optional<std::string> deprecated;
};

enum class Kind
{
	Scalar,
	Object,
	Interface,
	Union,
	Enum,
	Input
};

struct TypeDef
{
	Kind kind = Kind::Scalar;
	std::string name;
	std::string description;
	std::vector<FieldDef> fields;		// object, interface
	std::vector<std::string> interfaces; // object
	std::vector<std::string> members;	// union
	std::vector<EnumDef> values;		// enum
	std::vector<InputDef> inputs;		// input
	const FieldDef* field(std::string_view n) const
	{
		for (const auto& f : fields)
			if (f.name == n)
				return &f;
		return nullptr;
	}
	bool composite() const
	{
		return kind == Kind::Object || kind == Kind::Interface || kind == Kind::Union;
	}
};

struct DirectiveDef
{
	std::string name;
	std::string description;
	std::vector<std::string> locations;
	std::vector<InputDef> args;
	bool allows(std::string_view location) const
	{
		for (const auto& l : locations)
			if (l == location)
				return true;
		return false;
	}
};

struct MSchema
{
	std::vector<TypeDef> types; // in declaration order, the built-in ones first
	size_t builtinTypes = 0;
	std::vector<DirectiveDef> directives; // the built-in ones first
	size_t builtinDirectives = 0;
	std::string query, mutation, subscription;
	bool noIntrospection = false;

	const TypeDef* type(std::string_view name) const;
	TypeDef* type(std::string_view name);
	const DirectiveDef* directive(std::string_view name) const;
	// Object types a value of this type can have.
	std::vector<std::string> possible(const std::string& name) const;
	bool overlaps(const std::string& a, const std::string& b) const;
	// Is a value of this object type also of that type?
	bool is(const std::string& object, const std::string& type) const;
	const FieldDef* field(const std::string& type, std::string_view name) const; // with meta fields
	bool leaf(const std::string& name) const;
	bool composite(const std::string& name) const;
	std::string sdl() const; // for messages, and the input of the generators
};

struct SchemaOptions
{
	bool mutation = true;
	bool subscription = true;
	bool needSubscription = false;
	bool needMutation = false;
	bool descriptions = false;
	bool deepInputs = true;
	bool bigDirectives = true;
	bool hostileText = true; // descriptions and reasons with any characters
	bool introspection = true;
	bool acyclicInputs = false; // no cycles of input types
	bool manyInputs = false;	// more input types, more references between them
	bool richDefaults = false;	// more default values, more lists and nulls in them
	size_t maxObjects = 5;
};

// Types of the introspection schema and the built-in directives.
void addBuiltins(MSchema& m);
MSchema genSchema(Src& src, const SchemaOptions& options = {});
// A literal which is valid for the type. vars: when set, may return variables (see query.h).
using VarFn = std::function<std::optional<Val>(const TypeRef&, bool hasNonNullDefault)>;
Val genLiteral(Src& src, const MSchema& m, const TypeRef& type, const VarFn& vars = {}, size_t depth = 0, bool hasDefault = false);

// Owns the strings the schema refers to.
struct BuiltSchema
{
	std::shared_ptr<MSchema> model;
	std::list<std::string> strings;
	std::shared_ptr<graphql::schema::Schema> schema;
};
std::shared_ptr<BuiltSchema> buildSchema(const MSchema& m);

} // namespace h
