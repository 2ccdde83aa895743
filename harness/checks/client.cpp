// C20: the client runtime converts variables and responses without loss.
#include "gentext.h"

#include "graphqlservice/GraphQLClient.h"
#include "graphqlservice/JSONResponse.h"

using namespace h;

namespace resp = graphql::response;
namespace cli = graphql::client;
using TM = cli::TypeModifier;

namespace {

enum class Base
{
	Int,
	Float,
	String,
	Boolean,
	Id,
	Scalar,
};

const char* const s_names[] = { "Int", "Float", "String", "Boolean", "ID", "Scalar" };

// A type is its modifiers from the outside in: 'N' nullable, 'L' list.
struct Type
{
	Base base = Base::Int;
	std::string mods;

	std::string text() const
	{
		return mods + ":" + s_names[static_cast<int>(base)];
	}
};

std::string encode64(const std::string& bytes)
{
	static const char table[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < bytes.size(); i += 3)
	{
		uint32_t v = 0;
		const size_t n = std::min<size_t>(3, bytes.size() - i);
		for (size_t k = 0; k < 3; ++k)
			v = v * 256 + (k < n ? static_cast<unsigned char>(bytes[i + k]) : 0);
		for (size_t k = 0; k < 4; ++k)
			r += k <= n ? table[(v >> (18 - 6 * k)) & 63] : '=';
	}
	return r;
}

// Model values: identifiers are Scalar(String(bytes)), everything else as it is.
JV identifier(std::string bytes)
{
	JV r;
	r.kind = JV::Scalar;
	r.list.push_back(JV::string(std::move(bytes)));
	return r;
}

JV genAny(Src& src, int depth)
{
	switch (src.below(depth > 0 ? 8 : 6))
	{
		case 0:
			return JV::null();
		case 1:
			return JV::integer(genInt32(src));
		case 2:
			return JV::string(genText(src, 6));
		case 3:
			return JV::boolean(src.coin());
		case 4:
			return JV::real(genDouble(src));
		case 5:
			return JV::enumeration(genName(src));
		case 6:
		{
			JV r = JV::makeList();
			for (size_t n = src.size(0, 3); n > 0; --n)
				r.list.push_back(genAny(src, depth - 1));
			return r;
		}
		default:
		{
			JV r = JV::makeMap();
			for (size_t n = src.size(0, 3); n > 0; --n)
			{
				auto name = genName(src);
				if (!r.find(name))
					r.map.emplace_back(name, genAny(src, depth - 1));
			}
			return r;
		}
	}
}

JV genModel(Src& src, const Type& t, size_t at)
{
	if (at < t.mods.size())
	{
		if (t.mods[at] == 'N')
			return src.coin(1, 4) ? JV::null() : genModel(src, t, at + 1);
		JV r = JV::makeList();
		for (size_t n = src.size(0, 4); n > 0; --n)
			r.list.push_back(genModel(src, t, at + 1));
		return r;
	}
	switch (t.base)
	{
		case Base::Int:
			return JV::integer(genInt32(src));
		case Base::Float:
			return JV::real(genDouble(src));
		case Base::String:
			return JV::string(genText(src, 12));
		case Base::Boolean:
			return JV::boolean(src.coin());
		case Base::Id:
		{
			std::string bytes;
			for (size_t n = src.size(0, 9); n > 0; --n)
				bytes += static_cast<char>(src.below(256));
			return identifier(bytes);
		}
		case Base::Scalar:
		{
			JV r = genAny(src, 2);
			// A null of a nullable scalar is no value at all.
			if (r.isNull() && at > 0 && t.mods[at - 1] == 'N')
				return JV::integer(0);
			return r;
		}
	}
	return {};
}

// What the value looks like in a variables document or a response.
JV wire(const Type& t, const JV& v, size_t at = 0)
{
	if (at < t.mods.size())
	{
		if (t.mods[at] == 'N')
			return v.isNull() ? v : wire(t, v, at + 1);
		JV r = JV::makeList();
		for (const auto& e : v.list)
			r.list.push_back(wire(t, e, at + 1));
		return r;
	}
	return t.base == Base::Id ? JV::string(encode64(v.list[0].s)) : v;
}

// Replaces one place of the wire value by something its type does not allow; false when the
// place chosen allows everything.
bool spoil(Src& src, const Type& t, JV& v, size_t at, std::string& what)
{
	bool nullable = false;
	while (at < t.mods.size() && t.mods[at] == 'N')
	{
		nullable = true;
		++at;
	}
	if (at < t.mods.size() && v.kind == JV::List && !v.list.empty() && src.coin(2, 3))
		return spoil(src, t, v.list[src.below(v.list.size())], at + 1, what);
	const bool list = at < t.mods.size();
	if (!list && t.base == Base::Scalar)
		return false;
	std::vector<JV> wrong;
	if (!nullable)
		wrong.push_back(JV::null());
	if (list || (t.base != Base::Int && t.base != Base::Float))
		wrong.push_back(JV::integer(genInt32(src)));
	if (list || t.base != Base::Float)
		wrong.push_back(JV::real(genDouble(src)));
	if (list || (t.base != Base::String && t.base != Base::Id))
		wrong.push_back(JV::string(genText(src, 4)));
	if (list || t.base != Base::Boolean)
		wrong.push_back(JV::boolean(src.coin()));
	wrong.push_back(JV::enumeration("RED"));
	wrong.push_back(JV::makeMap());
	wrong.push_back(JV::makeMap({ { "a", JV::integer(1) } }));
	if (!list)
	{
		wrong.push_back(JV::makeList());
		wrong.push_back(JV::makeList({ v }));
	}
	if (!list && t.base == Base::Id)
	{
		wrong.push_back(JV::string("!!!!"));
		wrong.push_back(JV::string("AA*A"));
	}
	v = src.pick(wrong);
	what = cat("wrong value ", show(v));
	return true;
}

// ---- typed values -------------------------------------------------------------------------------

template <typename T>
struct Typed;

template <>
struct Typed<int>
{
	static int from(const JV& v)
	{
		return static_cast<int>(v.i);
	}
	static JV model(int v)
	{
		return JV::integer(v);
	}
};
template <>
struct Typed<double>
{
	static double from(const JV& v)
	{
		return v.f;
	}
	static JV model(double v)
	{
		return JV::real(v);
	}
};
template <>
struct Typed<std::string>
{
	static std::string from(const JV& v)
	{
		return v.s;
	}
	static JV model(const std::string& v)
	{
		return JV::string(v);
	}
};
template <>
struct Typed<bool>
{
	static bool from(const JV& v)
	{
		return v.b;
	}
	static JV model(bool v)
	{
		return JV::boolean(v);
	}
};
template <>
struct Typed<resp::IdType>
{
	static resp::IdType from(const JV& v)
	{
		const auto& s = v.list[0].s;
		return resp::IdType(s.begin(), s.end());
	}
	static JV model(const resp::IdType& v)
	{
		return identifier({ v.begin(), v.end() });
	}
};
template <>
struct Typed<resp::Value>
{
	static resp::Value from(const JV& v)
	{
		return toValue(v);
	}
	static JV model(const resp::Value& v)
	{
		return fromValue(v);
	}
};
template <typename T>
struct Typed<std::optional<T>>
{
	static std::optional<T> from(const JV& v)
	{
		if (v.isNull())
			return std::nullopt;
		return std::make_optional<T>(Typed<T>::from(v));
	}
	static JV model(const std::optional<T>& v)
	{
		return v ? Typed<T>::model(*v) : JV::null();
	}
};
template <typename T>
struct Typed<std::vector<T>>
{
	static std::vector<T> from(const JV& v)
	{
		std::vector<T> r;
		for (const auto& e : v.list)
			r.push_back(Typed<T>::from(e));
		return r;
	}
	static JV model(const std::vector<T>& v)
	{
		JV r = JV::makeList();
		for (size_t i = 0; i < v.size(); ++i)
			r.list.push_back(Typed<T>::model(v[i]));
		return r;
	}
};

struct Ops
{
	std::function<JV(const JV& model)> serialize; // the wire value
	std::function<JV(JV wire)> parse;			  // the model value
	std::function<JV(const JV& model)> both;	  // serialize, then parse what came out
};

template <typename T, TM... Mods>
Ops ops()
{
	if constexpr (sizeof...(Mods) == 0)
		return { [](const JV& m) {
					T v = Typed<T>::from(m);
					return fromValue(cli::ModifiedVariable<T>::serialize(std::move(v)));
				},
			[](JV w) {
				return Typed<T>::model(cli::ModifiedResponse<T>::parse(toValue(w)));
			},
			[](const JV& m) {
				T v = Typed<T>::from(m);
				return Typed<T>::model(cli::ModifiedResponse<T>::parse(cli::ModifiedVariable<T>::serialize(std::move(v))));
			} };
	else
	{
		using V = typename cli::ModifiedVariable<T>::template VariableTraits<T, Mods...>::type;
		using R = typename cli::ModifiedResponse<T>::template ResponseTraits<T, Mods...>::type;
		return { [](const JV& m) {
					V v = Typed<V>::from(m);
					return fromValue(cli::ModifiedVariable<T>::template serialize<Mods...>(std::move(v)));
				},
			[](JV w) {
				return Typed<R>::model(cli::ModifiedResponse<T>::template parse<Mods...>(toValue(w)));
			},
			[](const JV& m) {
				V v = Typed<V>::from(m);
				return Typed<R>::model(cli::ModifiedResponse<T>::template parse<Mods...>(
					cli::ModifiedVariable<T>::template serialize<Mods...>(std::move(v))));
			} };
	}
}

template <typename T>
Ops all(const std::string& mods)
{
	constexpr auto N = TM::Nullable;
	constexpr auto L = TM::List;
	static const std::map<std::string, Ops> table {
		{ "", ops<T>() },
		{ "N", ops<T, N>() },
		{ "L", ops<T, L>() },
		{ "LN", ops<T, L, N>() },
		{ "NL", ops<T, N, L>() },
		{ "NLN", ops<T, N, L, N>() },
		{ "LL", ops<T, L, L>() },
		{ "LLN", ops<T, L, L, N>() },
		{ "LNL", ops<T, L, N, L>() },
		{ "LNLN", ops<T, L, N, L, N>() },
		{ "NLL", ops<T, N, L, L>() },
		{ "NLLN", ops<T, N, L, L, N>() },
		{ "NLNL", ops<T, N, L, N, L>() },
		{ "NLNLN", ops<T, N, L, N, L, N>() },
		{ "NLNLNLN", ops<T, N, L, N, L, N, L, N>() },
	};
	return table.at(mods);
}

Ops opsFor(const Type& t)
{
	switch (t.base)
	{
		case Base::Int:
			return all<resp::IntType>(t.mods);
		case Base::Float:
			return all<resp::FloatType>(t.mods);
		case Base::String:
			return all<resp::StringType>(t.mods);
		case Base::Boolean:
			return all<resp::BooleanType>(t.mods);
		case Base::Id:
			return all<resp::IdType>(t.mods);
		case Base::Scalar:
			return all<resp::Value>(t.mods);
	}
	throw std::logic_error("type");
}

Type genType(Src& src)
{
	static const std::vector<std::string> mods { "", "N", "L", "LN", "NL", "NLN", "LL", "LLN", "LNL", "LNLN", "NLL", "NLLN", "NLNL",
		"NLNLN", "NLNLNLN" };
	Type t;
	t.base = static_cast<Base>(src.below(6));
	t.mods = src.pick(mods);
	return t;
}

void conversions(Src& src, Ctx& ctx)
{
	const Type t = genType(src);
	const Ops o = opsFor(t);
	const JV model = genModel(src, t, 0);
	const JV expected = wire(t, model);
	ctx.desc << t.text() << " " << show(expected) << "\n";
	ctx.nontrivial = !t.mods.empty();
	ctx.label("conversions");
	const JV got = o.serialize(model);
	ctx.require(equal(got, expected), cat("serialising gives ", show(got), " and not ", show(expected)));
	const JV back = o.parse(expected);
	ctx.require(equal(back, model), cat("parsing ", show(expected), " gives ", show(back), " and not ", show(model)));
	const JV round = o.both(model);
	ctx.require(equal(round, model), cat("parsing the serialised value gives ", show(round), " and not ", show(model)));
	if (t.base == Base::Float)
	{
		// Integers are floats as well.
		JV ints = expected;
		JV want = model;
		std::function<void(JV&, JV&)> change = [&](JV& a, JV& b) {
			if (a.kind == JV::Float)
			{
				const int i = genInt32(src);
				a = JV::integer(i);
				b = JV::real(i);
			}
			for (size_t i = 0; i < a.list.size(); ++i)
				change(a.list[i], b.list[i]);
		};
		change(ints, want);
		const JV r = o.parse(ints);
		ctx.require(equal(r, want), cat("parsing ", show(ints), " gives ", show(r), " and not ", show(want)));
	}
	for (int n = 0; n < 3; ++n)
	{
		JV bad = expected;
		std::string what;
		if (!spoil(src, t, bad, 0, what))
			continue;
		ctx.label("values of the wrong kind");
		ctx.desc << "  bad " << show(bad) << "\n";
		bool thrown = false;
		std::string result;
		try
		{
			result = show(o.parse(bad));
		}
		catch (const std::exception&)
		{
			thrown = true;
		}
		ctx.require(thrown, cat("parsing ", show(bad), " as ", t.text(), " is no error but gives ", result));
	}
}

// ---- responses ------------------------------------------------------------------------------------

void responses(Src& src, Ctx& ctx)
{
	ctx.label("responses");
	const bool json = src.coin();
	std::function<JV(int)> plain = [&](int depth) -> JV {
		for (;;)
		{
			JV v = genAny(src, depth);
			std::function<bool(const JV&)> ok = [&](const JV& x) {
				// JSON has no enum values, and floats are the business of C15.
				if (json && (x.kind == JV::Enum || x.kind == JV::Float))
					return false;
				for (const auto& e : x.list)
					if (!ok(e))
						return false;
				for (const auto& [n, e] : x.map)
					if (!ok(e))
						return false;
				return true;
			};
			if (ok(v))
				return v;
			v = JV::makeMap();
			return v;
		}
	};
	JV document = JV::makeMap();
	const bool hasData = !src.coin(1, 6);
	const JV data = hasData ? plain(3) : JV::null();
	struct Expected
	{
		std::string message;
		std::vector<std::pair<int, int>> locations;
		std::vector<std::variant<std::string, int>> path;
	};
	std::vector<Expected> errors;
	const bool hasErrors = src.coin(3, 4);
	JV list = JV::makeList();
	auto members = [&](std::vector<std::pair<std::string, JV>> m) {
		// In any order, with members the client does not know.
		if (src.coin(1, 4))
			m.emplace_back("extensions", plain(2));
		if (src.coin(1, 8))
			m.emplace_back("Message", JV::string("other"));
		for (size_t i = m.size(); i > 1; --i)
			std::swap(m[i - 1], m[i - 1 - src.below(i)]);
		return JV::makeMap(std::move(m));
	};
	if (hasErrors)
		for (size_t n = src.size(0, 4); n > 0; --n)
		{
			Expected e;
			std::vector<std::pair<std::string, JV>> m;
			e.message = genText(src, 12);
			m.emplace_back("message", JV::string(e.message));
			if (src.coin(2, 3))
			{
				JV l = JV::makeList();
				for (size_t k = src.size(0, 3); k > 0; --k)
				{
					const int line = static_cast<int>(src.coin(1, 8) ? src.below(2147483648u) : src.below(100));
					const int column = static_cast<int>(src.coin(1, 8) ? src.below(2147483648u) : src.below(100));
					e.locations.emplace_back(line, column);
					l.list.push_back(members({ { "line", JV::integer(line) }, { "column", JV::integer(column) } }));
				}
				m.emplace_back("locations", l);
			}
			if (src.coin(2, 3))
			{
				JV l = JV::makeList();
				for (size_t k = src.size(0, 5); k > 0; --k)
					if (src.coin(1, 3))
					{
						const int index = static_cast<int>(src.coin(1, 8) ? src.below(2147483648u) : src.below(20));
						e.path.emplace_back(index);
						l.list.push_back(JV::integer(index));
					}
					else
					{
						auto name = src.coin(1, 8) ? genText(src, 5) : genName(src);
						e.path.emplace_back(name);
						l.list.push_back(JV::string(name));
					}
				m.emplace_back("path", l);
			}
			list.list.push_back(members(std::move(m)));
			errors.push_back(std::move(e));
		}
	std::vector<std::pair<std::string, JV>> top;
	if (hasData)
		top.emplace_back("data", data);
	if (hasErrors)
		top.emplace_back("errors", list);
	document = members(std::move(top));
	ctx.desc << (json ? "json " : "value ") << show(document) << "\n";
	ctx.nontrivial = !errors.empty();
	resp::Value value = json ? resp::parseJSON(writeJson(document)) : toValue(document);
	const auto result = cli::parseServiceResponse(std::move(value));
	const JV gotData = fromValue(result.data);
	ctx.require(equal(gotData, data), cat("the data is ", show(gotData), " and not ", show(data)));
	ctx.require(result.errors.size() == errors.size(), cat(result.errors.size(), " errors instead of ", errors.size()));
	for (size_t i = 0; i < errors.size(); ++i)
	{
		const auto& g = result.errors[i];
		const auto& e = errors[i];
		ctx.label("errors");
		ctx.require(g.message == e.message, cat("the message of error ", i, " is ", escape(g.message)));
		ctx.require(g.locations.size() == e.locations.size(), cat("error ", i, " has ", g.locations.size(), " locations"));
		for (size_t k = 0; k < e.locations.size(); ++k)
			ctx.require(g.locations[k].line == e.locations[k].first && g.locations[k].column == e.locations[k].second,
				cat("location ", k, " of error ", i, " is ", g.locations[k].line, ":", g.locations[k].column));
		ctx.require(g.path.size() == e.path.size(), cat("error ", i, " has ", g.path.size(), " path segments"));
		for (size_t k = 0; k < e.path.size(); ++k)
		{
			bool same = false;
			if (auto* s = std::get_if<std::string>(&g.path[k]))
				same = std::holds_alternative<std::string>(e.path[k]) && *s == std::get<std::string>(e.path[k]);
			else
				same = std::holds_alternative<int>(e.path[k]) && std::get<int>(g.path[k]) == std::get<int>(e.path[k]);
			ctx.require(same, cat("path segment ", k, " of error ", i, " differs"));
		}
	}
}

void run(Src& src, Ctx& ctx)
{
	if (src.coin(1, 3))
		responses(src, ctx);
	else
		conversions(src, ctx);
}

struct Register
{
	Register()
	{
		Property p;
		p.id = "C20";
		p.rule = "a type with a modifier, or a response with errors";
		p.run = run;
		p.quickCases = 150000;
		p.thoroughCases = 3000000;
		p.assumptions = { "identifiers are exchanged as Base64 strings, as everywhere in this library" };
		add(std::move(p));
	}
} s_register;

} // namespace
