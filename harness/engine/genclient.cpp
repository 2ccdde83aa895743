#include "genclient.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/SyntaxTree.h"

#include <algorithm>

namespace h {

std::vector<ClientCase>& clientCases()
{
	static std::vector<ClientCase> cases;
	return cases;
}

const std::string& rootOf(const MSchema& m, const Op& op)
{
	return op.kind == "query" ? m.query : op.kind == "mutation" ? m.mutation : m.subscription;
}

namespace {

void collect(const MSchema& m, const Doc& doc, const std::string& type, const std::vector<Sel>& sels, std::vector<Shape>& out)
{
	for (const auto& s : sels)
	{
		if (s.kind != Sel::Field)
		{
			const auto* f = s.kind == Sel::Spread ? doc.frag(s.name) : nullptr;
			const auto& cond = f ? f->cond : s.cond;
			collect(m, doc, cond.empty() ? type : cond, f ? f->sels : s.sub, out);
			continue;
		}
		const auto* def = m.field(type, s.name);
		auto itr = std::find_if(out.begin(), out.end(), [&](const Shape& e) { return e.response == s.response(); });
		if (itr == out.end())
		{
			Shape e { s.response(), def->type, {} };
			if (s.name == "__schema" || s.name == "__type")
				e.type.nonNull = false; // declared like a field which may be missing
			out.push_back(e);
			itr = out.end() - 1;
		}
		collect(m, doc, def->type.name, s.sub, itr->sub);
	}
}

// What is known not to compile (see DESIGN.md): names which only C++ confuses.
bool clashes(const MSchema& m, const std::vector<Shape>& shapes)
{
	std::set<std::string> names { "Response", "Variables" };
	for (const auto& t : m.types)
		names.insert(safeName(t.name));
	for (const auto& s : shapes)
	{
		if (!names.insert(safeName(s.response)).second || clashes(m, s.sub))
			return true;
		if (!s.sub.empty() && !names.insert(safeName(s.response + "_" + s.type.name)).second)
			return true;
	}
	return false;
}

} // namespace

std::vector<Shape> shapeOf(const MSchema& m, const Doc& doc, const std::string& type, const std::vector<Sel>& sels)
{
	std::vector<Shape> r;
	collect(m, doc, type, sels, r);
	return r;
}

ClientInput genClient(Src& src, const std::string& serial, bool compiled)
{
	ClientInput c;
	c.schema = genInput(src, SdlOptions {}, "gen" + serial);
	const auto& m = c.schema.model;
	for (;;)
	{
		DocOptions o;
		o.dupComposites = src.coin(1, 3);
		o.introspection = src.coin(1, 3);
		o.budget = 20;
		c.doc = genDoc(src, m, o);
		for (auto& op : c.doc.ops)
			if (!op.name.empty())
				op.name += "_S" + serial;
		c.op = src.below(c.doc.ops.size());
		if (!compiled)
			break;
		const auto& op = c.doc.ops[c.op];
		// Clients of anonymous operations have no name of their own to be linked with.
		if (op.name.empty() && std::stoull(serial) % 24 != 0)
			continue;
		auto shapes = shapeOf(m, c.doc, rootOf(m, op), op.sels);
		std::vector<Shape> vars;
		for (const auto& v : op.vars)
			vars.push_back({ v.name, v.type, {} });
		if (!clashes(m, shapes) && !clashes(m, vars))
			break;
	}
	render(src, c.doc, src.coin(2, 3) ? 1 : 0);
	if (c.doc.ops.size() > 1 || (!c.doc.ops[0].name.empty() && src.coin(1, 4)))
		c.flags = { "--operation", c.doc.ops[c.op].name };
	if (m.noIntrospection)
		c.flags.push_back("--no-introspection");
	return c;
}

ClientInput genClient(uint64_t seed)
{
	Src src(mix(seed ^ 0xC11E27ull));
	return genClient(src, cat(seed), true);
}

// ---------------------------------------------------------------- adapters

namespace {

struct Emitter
{
	const MSchema& m;
	size_t serial = 0;

	std::string leaf(const char* verb, const std::string& type) const
	{
		static const std::set<std::string> builtins { "Int", "Float", "String", "Boolean", "ID" };
		return verb + (builtins.count(type) ? type : std::string("Scalar"));
	}
	std::string dump(const std::string& type, const std::vector<Shape>& sub)
	{
		const auto* t = m.type(type);
		if (t && t->kind == Kind::Enum)
		{
			std::string r = "[](const auto& v) {\n\tusing E = std::decay_t<decltype(v)>;\n\tswitch (v)\n\t{\n";
			for (const auto& e : t->values)
				r += "\t\tcase E::" + safeName(e.name) + ": return JV::enumeration(\"" + e.name + "\");\n";
			return r + "\t}\n\treturn JV::enumeration(\"no such value\");\n}";
		}
		if (!t || !t->composite())
			return leaf("dump", type);
		std::string r = "[]([[maybe_unused]] const auto& v) {\n\tJV r = JV::makeMap();\n";
		for (const auto& s : sub)
			r += "\tr.map.emplace_back(\"" + s.response + "\", dumpMember(v." + safeName(s.response) + ", " + dump(s.type.name, s.sub) + "));\n";
		return r + "\treturn r;\n}";
	}
	std::string set(const std::string& type)
	{
		const auto* t = m.type(type);
		if (t && t->kind == Kind::Enum)
		{
			std::string r = "[](auto& m, const JV& v) {\n\tusing E = std::decay_t<decltype(m)>;\n";
			for (const auto& e : t->values)
				r += "\tif (v.s == \"" + e.name + "\")\n\t\tm = E::" + safeName(e.name) + ";\n";
			return r + "}";
		}
		if (!t || t->kind != Kind::Input)
			return leaf("set", type);
		std::string r = "[](auto& m, const JV& v) {\n";
		for (const auto& f : t->inputs)
			r += "\tsetMember(m." + safeName(f.name) + ", *v.find(\"" + f.name + "\"), " + set(f.type.name) + ");\n";
		return r + "}";
	}
};

} // namespace

std::string emitClient(const ClientInput& c, const std::string& header, uint64_t seed)
{
	const auto& m = c.schema.model;
	const auto& op = c.doc.ops[c.op];
	Emitter e { m };
	auto kind = op.kind;
	auto name = op.name;
	if (name.empty())
	{
		name = kind;
		name[0] = static_cast<char>(name[0] - 'a' + 'A');
	}
	std::string r = "#include \"genclient.h\"\n#include \"" + header + "\"\n\n#include \"graphqlservice/internal/SyntaxTree.h\"\n\nnamespace h {\nnamespace {\n\nnamespace made = ::graphql::client::" + kind + "::" + name + ";\n\n";
	r += "JV variables([[maybe_unused]] const JV& set)\n{\n";
	if (op.vars.empty())
		r += "\treturn JV::makeMap();\n}\n\n";
	else
	{
		r += "\tmade::Variables vars;\n";
		for (const auto& v : op.vars)
			r += "\tsetMember(vars." + safeName(v.name) + ", *set.find(\"" + v.name + "\"), " + e.set(v.type.name) + ");\n";
		r += "\treturn fromValue(made::serializeVariables(std::move(vars)));\n}\n\n";
	}
	r += "JV parse(const JV& data)\n{\n\tauto response = made::parseResponse(toValue(data));\n\tconst auto dump = " + e.dump(rootOf(m, op), shapeOf(m, c.doc, rootOf(m, op), op.sels)) + ";\n\treturn dump(response);\n}\n\n";
	r += cat("const RegisterClient s_client { { ", seed, "ull, [] { return made::GetRequestText(); }, [] { return treeOf(made::GetRequestObject()); }, &variables, &parse } };\n\n} // namespace\n} // namespace h\n");
	return r;
}

} // namespace h
