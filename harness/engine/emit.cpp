#include "emit.h"
#include "sdl.h"

namespace h {

namespace {

struct Emitter
{
	const GenInput& g;
	const MSchema& m;
	std::string ns;

	bool scalar(const std::string& name) const
	{
		const auto* t = m.type(name);
		return t && t->kind == Kind::Scalar;
	}
	std::string leaf(const std::string& name) const
	{
		if (name == "Int")
			return "int";
		if (name == "Float")
			return "double";
		if (name == "String")
			return "std::string";
		if (name == "Boolean")
			return "bool";
		if (name == "ID")
			return "::graphql::response::IdType";
		if (scalar(name))
			return "::graphql::response::Value";
		return ns + "::" + safeName(name);
	}
	std::string optional(bool nonNull, const std::string& inner) const
	{
		return nonNull ? inner : "std::optional<" + inner + ">";
	}
	std::string inputType(const TypeRef& t) const
	{
		if (!t.lists.empty())
			return optional(t.outerNonNull(), "std::vector<" + inputType(t.element()) + ">");
		return optional(t.nonNull, leaf(t.name));
	}
	std::string outputType(const TypeRef& t) const
	{
		if (!t.lists.empty())
			return optional(t.outerNonNull(), "std::vector<" + outputType(t.element()) + ">");
		const auto* d = m.type(t.name);
		if (d && d->kind == Kind::Object)
			return "std::shared_ptr<" + ns + "::object::" + safeName(t.name) + ">";
		if (d && (d->kind == Kind::Interface || d->kind == Kind::Union))
			return "std::shared_ptr<::graphql::service::Object>";
		return optional(t.nonNull, leaf(t.name));
	}
};

} // namespace

std::string emitService(const GenInput& g, const std::string& prefix, const std::string& name, uint64_t seed)
{
	const auto& m = g.model;
	Emitter e { g, m, "::graphql::" + g.ns };
	const bool separate = std::find(g.flags.begin(), g.flags.end(), "--separate-files") != g.flags.end();
	std::string r = "#include \"gen.h\"\n#include \"" + prefix + "Schema.h\"\n";
	if (separate)
		for (const auto& t : m.types)
			if (t.kind == Kind::Object && t.name.rfind("__", 0) != 0)
				r += "#include \"" + safeName(t.name) + "Object.h\"\n";
	r += "\nnamespace h {\n";
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		const auto& t = m.types[i];
		const auto cpp = e.leaf(t.name);
		if (t.kind == Kind::Enum)
		{
			r += "template <> struct ToJV<" + cpp + "> { static JV get(const " + cpp + "& v) {\n\tswitch (v) {\n";
			for (const auto& v : t.values)
				r += "\t\tcase " + cpp + "::" + safeName(v.name) + ": return JV::enumeration(\"" + v.name + "\");\n";
			r += "\t}\n\treturn JV::enumeration(\"?\");\n} };\n";
			r += "template <> struct FromDatum<" + cpp + "> { static " + cpp + " get(const WorldPtr&, const Datum& d) {\n\tif (d.kind == Datum::Poison)\n\t\treturn static_cast<" + cpp + ">(1000);\n";
			for (const auto& v : t.values)
				r += "\tif (d.leaf.s == \"" + v.name + "\")\n\t\treturn " + cpp + "::" + safeName(v.name) + ";\n";
			r += "\tthrow std::logic_error(\"no such enum value\");\n} };\n";
		}
		if (t.kind == Kind::Input)
			r += "template <> struct ToJV<" + cpp + "> { static JV get(const " + cpp + "& v); };\n";
	}
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		const auto& t = m.types[i];
		const auto cpp = e.leaf(t.name);
		if (t.kind != Kind::Input)
			continue;
		r += "JV ToJV<" + cpp + ">::get(const " + cpp + "& v)\n{\n\tJV r = JV::makeMap();\n";
		for (const auto& f : t.inputs)
			r += "\tr.map.emplace_back(\"" + f.name + "\", ToJV<" + e.inputType(f.type) + ">::get(v." + safeName(f.name) + "));\n";
		r += "\treturn r;\n}\n";
	}
	r += "\nnamespace {\n\nstruct Case" + name + "\n{\n\n";
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
	{
		const auto& t = m.types[i];
		if (t.kind != Kind::Object)
			continue;
		const auto cpp = safeName(t.name);
		r += "class Impl_" + cpp + " : public " + e.ns + "::object::" + cpp + "\n{\npublic:\n\tImpl_" + cpp + "(const WorldPtr& w, uint64_t i, size_t d) : world(w), id(i), depth(d) {}\n";
		for (const auto& f : t.fields)
		{
			const auto type = e.outputType(f.type);
			r += "\t::graphql::service::FieldResult<" + type + "> " + (t.name == m.mutation ? "apply" : "get") + upperFirst(safeName(f.name)) + "(::graphql::service::FieldParams&& params";
			for (const auto& a : f.args)
				r += ", " + e.inputType(a.type) + "&& " + safeName(a.name) + "Arg";
			r += ") const override\n\t{\n\t\tstd::vector<std::pair<std::string, JV>> typed;\n";
			for (const auto& a : f.args)
				r += "\t\ttyped.emplace_back(\"" + a.name + "\", ToJV<" + e.inputType(a.type) + ">::get(" + safeName(a.name) + "Arg));\n";
			r += "\t\treturn answer<" + type + ">(enter(world, \"" + t.name + "\", id, depth, \"" + f.name + "\", params, std::move(typed)));\n\t}\n";
		}
		r += "\nprivate:\n\tWorldPtr world;\n\tuint64_t id;\n\tsize_t depth;\n};\n\n";
	}
	r += "static std::shared_ptr<graphql::service::Object> object(const WorldPtr& w, const std::string& type, uint64_t id, size_t depth)\n{\n";
	for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
		if (m.types[i].kind == Kind::Object)
			r += "\tif (type == \"" + m.types[i].name + "\")\n\t\treturn std::make_shared<Impl_" + safeName(m.types[i].name) + ">(w, id, depth);\n";
	r += "\tthrow std::logic_error(\"no such type \" + type);\n}\n\n";
	r += "static GenService make(const WorldPtr& w)\n{\n\tGenService g;\n\tw->objects = &object;\n";
	std::string args;
	for (const auto& [kind, type] : std::initializer_list<std::pair<const char*, std::string>> { { "query", m.query }, { "mutation", m.mutation }, { "subscription", m.subscription } })
		if (!type.empty())
		{
			r += std::string("\tconst auto ") + kind + "_ = std::make_shared<Impl_" + safeName(type) + ">(w, 0, 0);\n\tg.roots[\"" + kind + "\"] = " + kind + "_;\n";
			args += std::string(args.empty() ? "" : ", ") + kind + "_";
		}
	r += "\tg.request = std::make_shared<" + e.ns + "::Operations>(" + args + ");\n\tg.schema = " + e.ns + "::GetSchema();\n\treturn g;\n}\n\n};\n\n";
	r += cat("const RegisterGen s_", name, " { { \"", name, "\", ", seed, "ull, &Case", name, "::make } };\n\n} // namespace\n} // namespace h\n");
	return r;
}

} // namespace h
