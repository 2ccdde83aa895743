// C13 literals denote what the specification says.
#include "exec.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/SyntaxTree.h"

#include <algorithm>
#include <cmath>
#include <limits>

using namespace graphql;
using namespace h;

namespace {

struct State : service::RequestState
{
};

struct Lit
{
	std::string text;
	JV value;
	bool interesting = false;
};

TypeRef named(const char* name, bool nonNull = false)
{
	return TypeRef { {}, nonNull, name };
}

const std::shared_ptr<BuiltSchema>& schema()
{
	static const auto built = [] {
		MSchema m;
		addBuiltins(m);
		TypeDef sc;
		sc.name = "Any";
		m.types.push_back(sc);
		TypeDef en;
		en.kind = Kind::Enum;
		en.name = "En";
		for (auto n : { "RED", "truex", "nullable", "on", "query", "_", "fragment", "falsey", "a1" })
			en.values.push_back({ n, "", std::nullopt });
		m.types.push_back(en);
		TypeDef in;
		in.kind = Kind::Input;
		in.name = "In";
		for (auto [n, t] : { std::make_pair("s", "String"), std::make_pair("i", "Int"), std::make_pair("d", "Float"), std::make_pair("any", "Any"), std::make_pair("n", "In"), std::make_pair("on", "Boolean") })
			in.inputs.push_back({ n, named(t), std::nullopt, "" });
		m.types.push_back(in);
		TypeDef q;
		q.kind = Kind::Object;
		q.name = "Query";
		FieldDef f;
		f.name = "f";
		f.type = named("Int");
		for (auto [n, t] : { std::make_pair("any", "Any"), std::make_pair("s", "String"), std::make_pair("i", "Int"), std::make_pair("d", "Float"), std::make_pair("b", "Boolean"), std::make_pair("e", "En"), std::make_pair("o", "In") })
			f.args.push_back({ n, named(t), std::nullopt, "" });
		f.args.push_back({ "l", TypeRef { { false }, false, "String" }, std::nullopt, "" });
		q.fields.push_back(f);
		m.types.push_back(q);
		DirectiveDef d;
		d.name = "dir";
		d.locations = { "FIELD", "QUERY" };
		d.args.push_back({ "any", named("Any"), std::nullopt, "" });
		d.args.push_back({ "s", named("String"), std::nullopt, "" });
		m.directives.push_back(d);
		m.query = "Query";
		return buildSchema(m);
	}();
	return built;
}

std::string separator(Src& src)
{
	switch (src.weighted({ 8, 2, 2, 1, 1, 1 }))
	{
		case 0: return " ";
		case 1: return ", ";
		case 2: return "\n";
		case 3: return "#\"\"\" { \"\n";
		case 4: return "\t,,\r\n";
		default: return "\xEF\xBB\xBF";
	}
}

// A separator where the grammar needs none.
std::string maybe(Src& src)
{
	return src.coin(1, 4) ? separator(src) : "";
}

Lit stringLit(Src& src)
{
	auto s = genStringLiteral(src);
	return { s.text, JV::string(s.decoded), s.interesting };
}

Lit intLit(Src& src)
{
	Lit r;
	switch (src.weighted({ 4, 3, 2 }))
	{
		case 0: r.text = std::to_string(src.range(-3, 40)); break;
		case 1: r.text = std::to_string(genInt32(src)); break;
		default:
		{
			static const std::vector<std::string> edges { "2147483647", "-2147483648", "-0", "0", "1000000000", "-2147483647" };
			r.text = src.pick(edges);
			r.interesting = true;
		}
	}
	r.value = JV::integer(std::strtoll(r.text.c_str(), nullptr, 10));
	return r;
}

// Integers beyond 32 bits may only be the value of something which is not an Int.
Lit bigIntLit(Src& src)
{
	Lit r;
	static const std::vector<std::string> edges { "2147483648", "-2147483649", "4294967296", "4294967297", "-4294967295", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775809", "99999999999999999999999999" };
	r.text = src.pick(edges);
	if (src.coin())
		r.text = std::to_string((src.coin() ? 1 : -1) * (3000000000ll + static_cast<int64_t>(src.below(1ull << 40))));
	r.value = JV::real(std::strtod(r.text.c_str(), nullptr));
	r.interesting = true;
	return r;
}

Lit floatLit(Src& src)
{
	Lit r;
	static const std::vector<std::string> edges { "1.7976931348623157e308", "-1.7976931348623157E+308", "2.2250738585072014e-308", "0.1", "1e0", "-0.0", "123456789.123456789", "0.30000000000000004", "1E+2", "5e-1", "9007199254740993.0" };
	r.text = src.coin(1, 3) ? src.pick(edges) : genFloatLiteral(src);
	r.value = JV::real(std::strtod(r.text.c_str(), nullptr));
	r.interesting = true;
	return r;
}

Lit enumLit(Src& src)
{
	const auto& t = *schema()->model->type("En");
	Lit r;
	r.text = t.values[src.below(t.values.size())].name;
	r.value = JV::enumeration(r.text);
	return r;
}

Lit boolLit(Src& src)
{
	const bool b = src.coin();
	return { b ? "true" : "false", JV::boolean(b) };
}

Lit anyLit(Src& src, size_t depth)
{
	switch (src.weighted({ 3, 8, 3, 3, 2, 1, 1, depth < 4 ? 3u : 0u, depth < 4 ? 3u : 0u }))
	{
		case 0: return intLit(src);
		case 1: return stringLit(src);
		case 2: return floatLit(src);
		case 3: return enumLit(src);
		case 4: return boolLit(src);
		case 5: return { "null", JV::null() };
		case 6: return bigIntLit(src);
		case 7:
		{
			Lit r;
			r.value = JV::makeList();
			r.text = "[" + maybe(src);
			for (size_t i = 0, n = src.size(0, 4); i < n; ++i)
			{
				auto e = anyLit(src, depth + 1);
				r.text += e.text + separator(src);
				r.value.list.push_back(e.value);
				r.interesting = true;
			}
			r.text += "]";
			return r;
		}
		default:
		{
			Lit r;
			r.value = JV::makeMap();
			r.text = "{" + maybe(src);
			static const std::vector<std::string> names { "a", "true", "null", "on", "x1", "_", "query", "A", "false", "type" };
			const auto start = src.below(names.size());
			for (size_t i = 0, n = src.size(0, 4); i < n; ++i)
			{
				auto e = anyLit(src, depth + 1);
				const auto& name = names[(start + i) % names.size()];
				r.text += name + maybe(src) + ":" + maybe(src) + e.text + separator(src);
				r.value.map.emplace_back(name, e.value);
				r.interesting = true;
			}
			r.text += "}";
			return r;
		}
	}
}

Lit inputLit(Src& src, size_t depth)
{
	Lit r;
	r.value = JV::makeMap();
	r.text = "{" + maybe(src);
	std::vector<std::string> names { "s", "i", "d", "any", "n", "on" };
	if (src.coin(1, 3))
		std::reverse(names.begin(), names.end());
	for (const auto& name : names)
	{
		if (!src.coin() || (name == "n" && depth > 2))
			continue;
		auto e = name == "s" ? stringLit(src) : name == "i" ? intLit(src) : name == "d" ? (src.coin() ? floatLit(src) : bigIntLit(src)) : name == "any" ? anyLit(src, 2) : name == "on" ? boolLit(src) : inputLit(src, depth + 1);
		r.text += name + maybe(src) + ":" + maybe(src) + e.text + separator(src);
		r.value.map.emplace_back(name, e.value);
		r.interesting = true;
	}
	r.text += "}";
	return r;
}

Lit argument(Src& src, const std::string& name)
{
	if (src.coin(1, 12))
		return { "null", JV::null() };
	if (name == "any")
		return anyLit(src, 0);
	if (name == "s")
		return stringLit(src);
	if (name == "i")
		return intLit(src);
	if (name == "d")
		return src.coin(1, 3) ? intLit(src) : src.coin(1, 3) ? bigIntLit(src) : floatLit(src);
	if (name == "b")
		return boolLit(src);
	if (name == "e")
		return enumLit(src);
	if (name == "o")
		return inputLit(src, 0);
	Lit r;
	r.value = JV::makeList();
	r.text = "[" + maybe(src);
	for (size_t i = 0, n = src.size(0, 5); i < n; ++i)
	{
		auto e = src.coin(1, 6) ? Lit { "null", JV::null() } : stringLit(src);
		r.text += e.text + separator(src);
		r.value.list.push_back(e.value);
		r.interesting = r.interesting || e.interesting;
	}
	r.text += "]";
	return r;
}

struct Ran
{
	bool parsed = false;
	JV response;
	std::vector<Call> calls;
	std::string error;
};

Ran runDocument(const std::string& text)
{
	Ran r;
	auto world = std::make_shared<World>(schema(), 1, WorldOptions {});
	world->options.nullRate = 0;
	auto service = makeService(world);
	peg::ast ast;
	try
	{
		ast = peg::parseString(text);
		r.parsed = true;
	}
	catch (const std::exception& ex)
	{
		r.error = ex.what();
		return r;
	}
	r.response = fromValue(service->resolve(std::make_shared<State>(), ast, "", response::Value(response::Type::Map)).get());
	r.calls = world->calls;
	return r;
}

void accepted(Src& src, Ctx& ctx)
{
	// Some arguments directly, some through the default value of a variable, some on directives.
	static const std::vector<std::pair<std::string, std::string>> all { { "any", "Any" }, { "s", "String" }, { "i", "Int" }, { "d", "Float" }, { "b", "Boolean" }, { "e", "En" }, { "o", "In" }, { "l", "[String]" } };
	JV args = JV::makeMap(), dirs = JV::makeMap(), operation = JV::makeMap();
	std::string vars, text;
	bool interesting = false;
	const auto start = src.below(all.size());
	for (size_t i = 0, n = src.size(1, 4); i < n; ++i)
	{
		const auto& [name, type] = all[(start + i) % all.size()];
		auto lit = argument(src, name);
		interesting = interesting || lit.interesting;
		args.map.emplace_back(name, lit.value);
		if (src.coin(1, 4))
		{
			vars += cat("$v", i, ":", type, "=", maybe(src), lit.text, separator(src));
			text += name + ":" + cat("$v", i) + separator(src);
			ctx.label("default values");
		}
		else
			text += name + maybe(src) + ":" + maybe(src) + lit.text + separator(src);
	}
	const auto directive = [&](JV& into) {
		std::string d = " @dir(";
		JV a = JV::makeMap();
		for (auto name : { "any", "s" })
			if (src.coin() || name[0] == 's')
			{
				auto lit = argument(src, name);
				interesting = interesting || lit.interesting;
				a.map.emplace_back(name, lit.value);
				d += name + (":" + lit.text) + separator(src);
			}
		into.map.emplace_back("dir", a);
		ctx.label("directive arguments");
		return d + ")";
	};
	std::string doc = "query";
	if (!vars.empty())
		doc += "(" + vars + ")";
	if (src.coin(1, 4))
		doc += directive(operation);
	doc += "{f(" + maybe(src) + text + ")";
	if (src.coin(1, 4))
		doc += directive(dirs);
	doc += "}";
	ctx.desc << escape(doc) << "\nexpected " << show(args) << " field directives " << show(dirs) << " operation directives " << show(operation);
	ctx.nontrivial = interesting;
	ctx.label("literals which are valid");
	const auto r = runDocument(doc);
	ctx.require(r.parsed, "syntax error: " + r.error);
	ctx.require(!r.response.find("errors"), "errors: " + show(r.response));
	ctx.require(r.calls.size() == 1, "the resolver was not called once");
	// The order of the arguments is not part of the value.
	ctx.require(equal(r.calls[0].args, args), "the resolver received " + show(r.calls[0].args));
	ctx.require(equal(r.calls[0].dirs, dirs), "the field directives are " + show(r.calls[0].dirs));
	ctx.require(equal(r.calls[0].operation, operation), "the operation directives are " + show(r.calls[0].operation));
}

std::string brokenString(Src& src)
{
	auto s = genStringLiteral(src).text;
	static const std::vector<std::string> bad { "\\x", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\uD800", "\\uDC00", "\\uD83D\\u0041", "\\uDBFFx", "\\u{41}", "\\'", "\\a", "\\0", "\n", "\r", "\\", "\x01", "\x1f", "\x0b", std::string("\0", 1), "\\U0041", "\\uDE00\\uD83D", "\"", "\xff", "\xc3", "\xed\xa0\x80" };
	const bool block = s.substr(0, 3) == "\"\"\"";
	const size_t quotes = block ? 3 : 1;
	switch (src.weighted({ 8, 1, 1 }))
	{
		case 0:
		{
			const auto at = quotes + src.below(s.size() - 2 * quotes + 1);
			return s.substr(0, at) + src.pick(bad) + s.substr(at);
		}
		case 1: return s.substr(0, s.size() - 1 - src.below(quotes));
		default: return s.substr(1);
	}
}

std::string brokenNumber(Src& src)
{
	static const std::vector<std::string> bad { "01", "-01", "00", "1.", ".5", "-.5", "1.e3", "1e", "1e+", "1e-", "-", "+1", "1.2.3", "0x10", "1_000", "--1", "1E5.0", "1ee5", "-a", "1.5e", "Infinity1.", "-Infinity", "1,.5" };
	if (src.coin(1, 3))
	{
		auto n = src.coin() ? genFloatLiteral(src) : genIntLiteral(src);
		static const std::vector<std::string> put { ".", "e", "-", "+", "0", "x", "E" };
		return n.insert(src.below(n.size() + 1), src.pick(put));
	}
	return src.pick(bad);
}

void rejected(Src& src, Ctx& ctx)
{
	std::string lit, name = "any";
	const auto how = src.weighted({ 5, 3, 2 });
	bool mustFail = false;
	if (how == 0)
		lit = brokenString(src);
	else if (how == 1)
		lit = brokenNumber(src);
	else
	{
		mustFail = true;
		switch (src.below(3))
		{
			case 0:
				name = "i";
				lit = bigIntLit(src).text;
				break;
			case 1:
			{
				name = src.coin() ? "d" : "any";
				static const std::vector<std::string> huge { "1e309", "-1e309", "1.8e308", "-2.0E+308", "1e999", "123456789e9999" };
				lit = src.pick(huge);
				break;
			}
			default:
				name = "i";
				lit = floatLit(src).text;
		}
	}
	std::string wrapped = lit;
	if (!mustFail)
		for (size_t i = src.weighted({ 3, 1, 1 }); i > 0; --i)
			wrapped = src.coin() ? "[" + wrapped + "]" : "{a:" + wrapped + " }";
	else if (name == "i" && src.coin())
	{
		name = "o";
		wrapped = "{i:" + lit + "}";
	}
	const std::string doc = src.coin(1, 4) ? "query($v:" + std::string(name == "i" ? "Int" : name == "d" ? "Float" : name == "o" ? "In" : "Any") + "=" + wrapped + "){f(" + name + ":$v)}" : "{f(" + name + ":" + wrapped + ")}";
	ctx.desc << escape(doc);
	if (!mustFail && recognise(doc) != Verdict::Reject)
	{
		ctx.discarded = true;
		return;
	}
	ctx.nontrivial = true;
	ctx.label(how == 0 ? "malformed strings" : how == 1 ? "malformed numbers" : "numbers out of range");
	const auto r = runDocument(doc);
	if (r.parsed)
	{
		const auto* errors = r.response.find("errors");
		ctx.require(errors && !errors->list.empty(), cat("it was accepted, the resolver received ", r.calls.empty() ? std::string("nothing") : show(r.calls[0].args)));
		ctx.require(r.calls.empty(), "the resolver was called with " + (r.calls.empty() ? std::string() : show(r.calls[0].args)));
	}
}

void run(Src& src, Ctx& ctx)
{
	if (src.coin(1, 3))
		rejected(src, ctx);
	else
		accepted(src, ctx);
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C13";
		p.rule = "a literal with escapes, block string, number at a limit, list or object; or one which is malformed or out of range";
		p.run = run;
		p.quickCases = 80000;
		p.thoroughCases = 1500000;
		p.assumptions = { "characters beyond U+FFFF are written as escapes (the grammar of June 2018 has no others)", "integers beyond 32 bits denote floats where no Int is expected" };
		add(std::move(p));
	}
} s_register;

} // namespace
