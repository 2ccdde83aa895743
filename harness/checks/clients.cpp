// C19: clients generated from a request document. The generated code of several documents and the
// adapters which run it (engine/genclient.cpp) are linked into this program.
#include "genclient.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/JSONResponse.h"

#include <algorithm>

using namespace h;
using namespace graphql;

namespace {

struct Loaded
{
	ClientInput input;
	std::shared_ptr<BuiltSchema> built;
	std::vector<Shape> shapes;
	const Op& op() const
	{
		return input.doc.ops[input.op];
	}
};

const Loaded& load(uint64_t seed)
{
	static std::map<uint64_t, Loaded> cache;
	auto& l = cache[seed];
	if (!l.built)
	{
		l.input = genClient(seed);
		l.built = buildSchema(l.input.schema.model);
		l.shapes = shapeOf(l.input.schema.model, l.input.doc, rootOf(l.input.schema.model, l.op()), l.op().sels);
	}
	return l;
}

void describe(Ctx& ctx, const Loaded& l)
{
	ctx.desc << "request:\n" << l.input.doc.text << "\noperation '" << l.op().name << "'\nschema text:\n" << l.input.schema.sdl << "\n";
}

// A value for every member.
JV fill(Src& src, const MSchema& m, const TypeRef& type, size_t depth)
{
	if (!type.outerNonNull() && src.coin(1, 4))
		return JV::null();
	if (!type.lists.empty())
	{
		JV r = JV::makeList();
		for (size_t n = src.size(0, depth > 2 ? 1 : 3); n > 0; --n)
			r.list.push_back(fill(src, m, type.element(), depth + 1));
		return r;
	}
	const auto* t = m.type(type.name);
	if (t && t->kind == Kind::Enum)
		return JV::enumeration(t->values[src.below(t->values.size())].name);
	if (t && t->kind == Kind::Input)
	{
		JV r = JV::makeMap();
		for (const auto& in : t->inputs)
			r.map.emplace_back(in.name, fill(src, m, in.type, depth + 1));
		return r;
	}
	auto v = genInputValue(src, m, TypeRef { {}, true, type.name });
	if (type.name == "Float" && v.kind == JV::Int)
		v = JV::real(static_cast<double>(v.i));
	return v;
}

// The order of members is free.
void sorted(JV& v)
{
	for (auto& e : v.list)
		sorted(e);
	for (auto& [n, e] : v.map)
		sorted(e);
	std::sort(v.map.begin(), v.map.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
}

void shuffle(Src& src, JV& v)
{
	for (auto& e : v.list)
		shuffle(src, e);
	for (auto& [n, e] : v.map)
		shuffle(src, e);
	for (size_t i = v.map.size(); i > 1; --i)
		std::swap(v.map[i - 1], v.map[src.below(i)]);
}

bool textual(const JV& a, const JV& b)
{
	// Enum values are strings on the wire.
	return (a.kind == JV::Enum || a.kind == JV::String) && (b.kind == JV::Enum || b.kind == JV::String) && a.s == b.s;
}

struct Reader
{
	const MSchema& m;

	// What a member holds which no part of the response sets.
	JV nothing(const TypeRef& type, const std::vector<Shape>& sub) const
	{
		if (!type.outerNonNull())
			return JV::null();
		if (!type.lists.empty())
			return JV::makeList();
		const auto* t = m.type(type.name);
		if (t && t->kind == Kind::Enum)
			return JV::enumeration(t->values[0].name);
		if (t && t->composite())
			return object(nullptr, sub);
		if (type.name == "Int")
			return JV::integer(0);
		if (type.name == "Float")
			return JV::real(0.0);
		if (type.name == "Boolean")
			return JV::boolean(false);
		if (type.name == "String" || type.name == "ID")
			return JV::string("");
		return JV::null();
	}
	JV value(const JV& v, const TypeRef& type, const std::vector<Shape>& sub) const
	{
		if (v.isNull() && !type.outerNonNull())
			return v;
		if (!type.lists.empty())
		{
			JV r = JV::makeList();
			for (const auto& e : v.list)
				r.list.push_back(value(e, type.element(), sub));
			return r;
		}
		const auto* t = m.type(type.name);
		if (t && t->kind == Kind::Enum)
			return JV::enumeration(v.s);
		if (t && t->composite())
			return object(&v, sub);
		if (type.name == "Float" && v.kind == JV::Int)
			return JV::real(static_cast<double>(v.i));
		return v;
	}
	JV object(const JV* v, const std::vector<Shape>& sub) const
	{
		JV r = JV::makeMap();
		for (const auto& s : sub)
		{
			const auto* e = v ? v->find(s.response) : nullptr;
			r.map.emplace_back(s.response, e ? value(*e, s.type, s.sub) : nothing(s.type, s.sub));
		}
		return r;
	}
};

std::string difference(const JV& a, const JV& b, const std::string& path)
{
	if (a.kind == JV::Map && b.kind == JV::Map && a.map.size() == b.map.size())
	{
		for (size_t i = 0; i < a.map.size(); ++i)
		{
			if (a.map[i].first != b.map[i].first)
				return cat("at ", path, ": member ", a.map[i].first, " instead of ", b.map[i].first);
			auto r = difference(a.map[i].second, b.map[i].second, path + "/" + a.map[i].first);
			if (!r.empty())
				return r;
		}
		return "";
	}
	if (a.kind == JV::List && b.kind == JV::List && a.list.size() == b.list.size())
	{
		for (size_t i = 0; i < a.list.size(); ++i)
		{
			auto r = difference(a.list[i], b.list[i], cat(path, "/", i));
			if (!r.empty())
				return r;
		}
		return "";
	}
	return show(a) == show(b) || textual(a, b) ? "" : cat("at ", path, ": ", show(a), " instead of ", show(b));
}

void requestText(const ClientCase& c, const Loaded& l, Ctx& ctx)
{
	const auto expected = treeOf(peg::parseString(l.input.doc.text));
	ctx.require(treeOf(peg::parseString(c.text())) == expected, "the text of the client is another request:\n" + c.text());
	ctx.require(c.object() == expected, "the request object of the client is another request");
	ctx.label("request texts");
	ctx.nontrivial = true;
}

void variables(const ClientCase& c, const Loaded& l, Src& src, Ctx& ctx)
{
	const auto& m = l.input.schema.model;
	JV set = JV::makeMap();
	for (const auto& v : l.op().vars)
		set.map.emplace_back(v.name, fill(src, m, v.type, 0));
	ctx.desc << "variables " << show(set) << "\n";
	auto expected = set, made = c.variables(set);
	sorted(expected);
	sorted(made);
	const auto problem = difference(made, expected, "variables");
	ctx.require(problem.empty(), problem);
	ctx.label("variables", set.map.size());
	ctx.nontrivial = !set.map.empty();
}

void responses(const ClientCase& c, const Loaded& l, Src& src, Ctx& ctx)
{
	const auto& m = l.input.schema.model;
	WorldOptions wo;
	wo.typed = true;
	wo.byTyped = true;
	wo.nullRate = static_cast<unsigned>(src.below(4)) * 10;
	wo.maxList = 1 + src.below(3);
	World world(l.built, src.below(1u << 30), wo);
	const auto given = genVariables(src, m, l.op());
	const auto expected = expectOperation(world, l.input.doc, l.op(), given, rootOf(m, l.op()), 0, static_cast<int>(service::ResolverContext::Query));
	auto data = expected.data;
	if (!expected.errors.empty() || data.isNull())
	{
		ctx.discarded = true; // not a conforming response
		return;
	}
	if (src.coin(1, 3))
		shuffle(src, data);
	const bool json = src.coin(1, 3);
	if (json)
		data = fromValue(response::parseJSON(writeJson(data))); // C13 decides what that is
	ctx.desc << "data" << (json ? " (JSON) " : " ") << show(data) << "\n";
	Reader reader { m };
	const auto wanted = reader.object(&data, l.shapes);
	JV made;
	try
	{
		made = c.parse(data);
	}
	catch (const std::exception& e)
	{
		ctx.fail(cat("parseResponse fails: ", e.what()));
	}
	const auto problem = difference(made, wanted, "response");
	ctx.require(problem.empty(), problem);
	ctx.label(json ? "JSON responses" : "responses");
	ctx.label("fields", expected.fields);
	ctx.nontrivial = expected.fields >= 4;
}

void run(Src& src, Ctx& ctx)
{
	const auto& all = clientCases();
	const auto& c = all.at(src.below(all.size()));
	const auto& l = load(c.seed);
	ctx.desc << "client " << c.seed << "\n";
	switch (src.weighted({ 8, 4, 1 }))
	{
		case 1: variables(c, l, src, ctx); break;
		case 2: requestText(c, l, ctx); break;
		default: responses(c, l, src, ctx); break;
	}
	describe(ctx, l);
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C19";
		p.rule = "a response with at least four fields, a non-empty set of variables, or the text of a request";
		p.run = run;
		p.quickCases = 100000;
		p.thoroughCases = 40000; // per batch of clients
		p.assumptions = { "input types are not recursive (schemagen refuses them)", "a response conforms: no errors, and nulls only for nullable types" };
		add(std::move(p));
	}
} s_register;

} // namespace
