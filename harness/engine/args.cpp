#include "exec.h"

namespace h {

namespace svc = graphql::service;
namespace resp = graphql::response;
using TM = svc::TypeModifier;

struct DynEnumArg
{
	std::string name;
};

struct DynInput
{
	JV members;
};

namespace {
thread_local const MSchema* t_schema = nullptr;
thread_local const TypeDef* t_type = nullptr;

struct Scope
{
	const MSchema* schema = t_schema;
	const TypeDef* type = t_type;
	~Scope()
	{
		t_schema = schema;
		t_type = type;
	}
};

} // namespace
} // namespace h

// What schemagen writes for enums and input types, except for the tables of names and members.
namespace graphql::service {
template <>
h::DynEnumArg ModifiedArgument<h::DynEnumArg>::convert(const response::Value& value)
{
	if (!value.maybe_enum())
		throw schema_exception { { "not a valid enum value" } };
	const auto& name = value.get<response::StringType>();
	for (const auto& v : h::t_type->values)
		if (v.name == name)
			return h::DynEnumArg { name };
	throw schema_exception { { "not a valid enum value" } };
}

template <>
h::DynInput ModifiedArgument<h::DynInput>::convert(const response::Value& value)
{
	h::DynInput r;
	r.members = h::JV::makeMap();
	const auto* type = h::t_type;
	const auto* schema = h::t_schema;
	for (const auto& in : type->inputs)
	{
		if (in.def && value.find(in.name) == value.end())
		{
			response::Value defaults(response::Type::Map);
			defaults.emplace_back(std::string { in.name }, h::toValue(*h::evaluate(*in.def, h::JV::makeMap())));
			r.members.map.emplace_back(in.name, h::extractTyped(*schema, in.type, in.name, defaults));
		}
		else
			r.members.map.emplace_back(in.name, h::extractTyped(*schema, in.type, in.name, value));
	}
	return r;
}
} // namespace graphql::service

namespace h {

namespace {

JV model(int v)
{
	return JV::integer(v);
}
JV model(double v)
{
	return JV::real(v);
}
JV model(const std::string& v)
{
	return JV::string(v);
}
JV model(bool v)
{
	return JV::boolean(v);
}
JV identifier(std::string bytes)
{
	JV r;
	r.kind = JV::Scalar;
	r.list.push_back(JV::string(std::move(bytes)));
	return r;
}
JV model(const resp::IdType& v)
{
	return identifier(std::string { v.begin(), v.end() });
}
JV model(const resp::Value& v)
{
	return fromValue(v);
}
JV model(const DynEnumArg& v)
{
	return JV::enumeration(v.name);
}
JV model(const DynInput& v)
{
	return v.members;
}
template <typename T>
JV model(const std::optional<T>& v);
template <typename T, typename = std::enable_if_t<!std::is_same_v<std::vector<T>, resp::IdType>>>
JV model(const std::vector<T>& v)
{
	JV r = JV::makeList();
	for (size_t i = 0; i < v.size(); ++i)
		if constexpr (std::is_same_v<T, bool>)
			r.list.push_back(JV::boolean(v[i]));
		else
			r.list.push_back(model(v[i]));
	return r;
}
template <typename T>
JV model(const std::optional<T>& v)
{
	return v ? model(*v) : JV::null();
}

struct Request
{
	const std::string& name;
	const resp::Value& arguments;
	bool find;
	bool found = true;
};

template <typename T, TM... Mods>
JV one(Request& r)
{
	if constexpr (sizeof...(Mods) == 0)
	{
		if (!r.find)
			return model(svc::ModifiedArgument<T>::require(r.name, r.arguments));
		auto p = svc::ModifiedArgument<T>::find(r.name, r.arguments);
		r.found = p.second;
		return model(p.first);
	}
	else
	{
		if (!r.find)
			return model(svc::ModifiedArgument<T>::template require<Mods...>(r.name, r.arguments));
		auto p = svc::ModifiedArgument<T>::template find<Mods...>(r.name, r.arguments);
		r.found = p.second;
		return model(p.first);
	}
}

template <typename T>
JV all(const TypeRef& t, Request& p)
{
	const auto N = TM::Nullable;
	const auto L = TM::List;
	unsigned key = 0;
	for (auto nn : t.lists)
		key = key * 2 + (nn ? 0 : 1);
	key = key * 2 + (t.nonNull ? 0 : 1);
	switch (t.lists.size() * 8 + key)
	{
		case 0: return one<T>(p);
		case 1: return one<T, N>(p);
		case 8: return one<T, L>(p);
		case 9: return one<T, L, N>(p);
		case 10: return one<T, N, L>(p);
		case 11: return one<T, N, L, N>(p);
		case 16: return one<T, L, L>(p);
		case 17: return one<T, L, L, N>(p);
		case 18: return one<T, L, N, L>(p);
		case 19: return one<T, L, N, L, N>(p);
		case 20: return one<T, N, L, L>(p);
		case 21: return one<T, N, L, L, N>(p);
		case 22: return one<T, N, L, N, L>(p);
		case 23: return one<T, N, L, N, L, N>(p);
		default: throw std::logic_error("unsupported type " + t.text());
	}
}

JV run(const MSchema& m, const TypeRef& type, Request& r)
{
	Scope scope;
	t_schema = &m;
	t_type = m.type(type.name);
	if (type.name == "Int")
		return all<resp::IntType>(type, r);
	if (type.name == "Float")
		return all<resp::FloatType>(type, r);
	if (type.name == "String")
		return all<resp::StringType>(type, r);
	if (type.name == "Boolean")
		return all<resp::BooleanType>(type, r);
	if (type.name == "ID")
		return all<resp::IdType>(type, r);
	if (t_type && t_type->kind == Kind::Enum)
		return all<DynEnumArg>(type, r);
	if (t_type && t_type->kind == Kind::Input)
		return all<DynInput>(type, r);
	return all<resp::Value>(type, r);
}

} // namespace

JV extractTyped(const MSchema& m, const TypeRef& type, const std::string& name, const resp::Value& arguments)
{
	Request r { name, arguments, false };
	return run(m, type, r);
}

std::pair<JV, bool> findTyped(const MSchema& m, const TypeRef& type, const std::string& name, const resp::Value& arguments)
{
	Request r { name, arguments, true };
	JV v = run(m, type, r);
	return { v, r.found };
}

std::string encodeBase64(const std::string& bytes)
{
	static const char table[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < bytes.size(); i += 3)
	{
		uint32_t v = 0;
		const size_t n = std::min<size_t>(3, bytes.size() - i);
		for (size_t k = 0; k < 3; ++k)
			v = v * 256 + (k < n ? static_cast<unsigned char>(bytes[i + k]) : 0);
		for (size_t k = 0; k < 4; ++k)
			r += k <= n ? table[(v >> (18 - 6 * k)) & 63] : '=';
	}
	return r;
}

bool decodeBase64(const std::string& text, std::string& bytes)
{
	std::string t = text;
	size_t pad = 0;
	while (!t.empty() && t.back() == '=' && pad < 2)
		t.pop_back(), ++pad;
	bytes.clear();
	uint32_t v = 0;
	size_t n = 0;
	for (unsigned char c : t)
	{
		int d = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
		if (d < 0)
			return false;
		v = v * 64 + static_cast<uint32_t>(d);
		if (++n == 4)
		{
			bytes += static_cast<char>(v >> 16), bytes += static_cast<char>(v >> 8), bytes += static_cast<char>(v);
			v = 0, n = 0;
		}
	}
	if (n == 1 || (n == 0 && pad) || (n && pad && pad != 4 - n))
		return false;
	if (n == 2)
	{
		if (v & 15)
			return false;
		bytes += static_cast<char>(v >> 4);
	}
	if (n == 3)
	{
		if (v & 3)
			return false;
		bytes += static_cast<char>(v >> 10), bytes += static_cast<char>(v >> 2);
	}
	return true;
}

std::optional<JV> expectTyped(const MSchema& m, const TypeRef& type, const JV* value)
{
	if (!value || value->isNull())
	{
		// A custom scalar takes any value, a null included (the repository's tests ask for it).
		const auto* t = m.type(type.name);
		if (value && type.lists.empty() && t && t->kind == Kind::Scalar && type.name != "Int" && type.name != "Float" && type.name != "String" && type.name != "Boolean" && type.name != "ID")
			return JV::null();
		return type.outerNonNull() ? std::nullopt : std::make_optional(JV::null());
	}
	const auto& v = *value;
	if (!type.lists.empty())
	{
		if (v.kind != JV::List)
			return std::nullopt;
		JV r = JV::makeList();
		for (const auto& e : v.list)
		{
			auto x = expectTyped(m, type.element(), &e);
			if (!x)
				return std::nullopt;
			r.list.push_back(*x);
		}
		return r;
	}
	if (type.name == "Int")
		return v.kind == JV::Int ? std::make_optional(v) : std::nullopt;
	if (type.name == "Float")
		return v.kind == JV::Float ? std::make_optional(v) : v.kind == JV::Int ? std::make_optional(JV::real(static_cast<double>(v.i))) : std::nullopt;
	if (type.name == "String")
		return v.kind == JV::String ? std::make_optional(JV::string(v.s)) : std::nullopt;
	if (type.name == "Boolean")
		return v.kind == JV::Bool ? std::make_optional(v) : std::nullopt;
	if (type.name == "ID")
	{
		std::string bytes;
		return v.kind == JV::String && decodeBase64(v.s, bytes) ? std::make_optional(identifier(bytes)) : std::nullopt;
	}
	const auto* t = m.type(type.name);
	if (t && t->kind == Kind::Enum)
	{
		if (v.kind != JV::Enum && !(v.kind == JV::String && v.fromJson))
			return std::nullopt;
		for (const auto& e : t->values)
			if (e.name == v.s)
				return JV::enumeration(v.s);
		return std::nullopt;
	}
	if (t && t->kind == Kind::Input)
	{
		if (v.kind != JV::Map)
			return std::nullopt;
		JV r = JV::makeMap();
		for (const auto& in : t->inputs)
		{
			const auto* member = v.find(in.name);
			std::optional<JV> def;
			if (!member && in.def)
			{
				def = evaluate(*in.def, JV::makeMap());
				member = &*def;
			}
			auto x = expectTyped(m, in.type, member);
			if (!x)
				return std::nullopt;
			r.map.emplace_back(in.name, *x);
		}
		return r;
	}
	return v;
}

std::vector<std::pair<std::string, JV>> extractAll(const MSchema& m, const FieldDef& field, const resp::Value& arguments, std::string& error)
{
	std::vector<std::pair<std::string, JV>> r;
	for (const auto& a : field.args)
	{
		if (a.def && arguments.find(a.name) == arguments.end())
		{
			resp::Value defaults(resp::Type::Map);
			defaults.emplace_back(std::string { a.name }, toValue(*evaluate(*a.def, JV::makeMap())));
			r.emplace_back(a.name, extractTyped(m, a.type, a.name, defaults));
		}
		else
			r.emplace_back(a.name, extractTyped(m, a.type, a.name, arguments));
	}
	return r;
}

std::vector<std::pair<std::string, JV>> expectAll(const MSchema& m, const FieldDef& field, const JV& arguments, std::string& bad)
{
	std::vector<std::pair<std::string, JV>> r;
	for (const auto& a : field.args)
	{
		const auto* value = arguments.find(a.name);
		std::optional<JV> def;
		if (!value && a.def)
		{
			def = evaluate(*a.def, JV::makeMap());
			value = &*def;
		}
		auto x = expectTyped(m, a.type, value);
		if (!x)
		{
			bad = a.name;
			return r;
		}
		r.emplace_back(a.name, *x);
	}
	return r;
}

} // namespace h
