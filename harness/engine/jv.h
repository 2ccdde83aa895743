// The model value used by every oracle, with conversions from response::Value and an independent
// JSON reader and writer.
#pragma once

#include "core.h"

#include "graphqlservice/GraphQLResponse.h"

#include <cmath>
#include <cstdlib>
#include <cstring>

namespace h {

struct JV
{
	enum Kind
	{
		Null,
		Bool,
		Int,
		Float,
		String,
		Enum,
		List,
		Map,
		Scalar // wraps list[0] when set
	} kind
		= Null;
	bool b = false;
	int64_t i = 0;
	double f = 0.0;
	std::string s;
	std::vector<JV> list;
	std::vector<std::pair<std::string, JV>> map;
	bool fromJson = false;

	static JV null()
	{
		return {};
	}
	static JV boolean(bool v)
	{
		JV r;
		r.kind = Bool;
		r.b = v;
		return r;
	}
	static JV integer(int64_t v)
	{
		JV r;
		r.kind = Int;
		r.i = v;
		return r;
	}
	static JV real(double v)
	{
		JV r;
		r.kind = Float;
		r.f = v;
		return r;
	}
	static JV string(std::string v)
	{
		JV r;
		r.kind = String;
		r.s = std::move(v);
		return r;
	}
	static JV enumeration(std::string v)
	{
		JV r;
		r.kind = Enum;
		r.s = std::move(v);
		return r;
	}
	static JV makeList(std::vector<JV> v = {})
	{
		JV r;
		r.kind = List;
		r.list = std::move(v);
		return r;
	}
	static JV makeMap(std::vector<std::pair<std::string, JV>> v = {})
	{
		JV r;
		r.kind = Map;
		r.map = std::move(v);
		return r;
	}

	const JV* find(std::string_view name) const
	{
		for (const auto& [n, v] : map)
		{
			if (n == name)
			{
				return &v;
			}
		}
		return nullptr;
	}

	JV* find(std::string_view name)
	{
		for (auto& [n, v] : map)
		{
			if (n == name)
			{
				return &v;
			}
		}
		return nullptr;
	}

	void set(const std::string& name, JV v)
	{
		if (auto* p = find(name))
		{
			*p = std::move(v);
		}
		else
		{
			map.emplace_back(name, std::move(v));
		}
	}

	bool isNull() const
	{
		return kind == Null;
	}
};

inline bool sameDouble(double a, double b)
{
	return std::memcmp(&a, &b, sizeof(a)) == 0 || (std::isnan(a) && std::isnan(b));
}

// Within n units in the last place.
inline bool closeDouble(double a, double b, uint64_t ulps)
{
	if (sameDouble(a, b) || a == b)
		return true;
	if (!std::isfinite(a) || !std::isfinite(b) || std::signbit(a) != std::signbit(b))
		return false;
	uint64_t x = 0, y = 0;
	std::memcpy(&x, &a, 8);
	std::memcpy(&y, &b, 8);
	return (x > y ? x - y : y - x) <= ulps;
}

// How much doubles may differ in equal(); 0 means bit for bit.
extern thread_local uint64_t g_ulps;

// Exact equality of content and kind. Strings and enum values are distinguished when strictEnum.
inline bool equal(const JV& a, const JV& b, bool strictEnum = true)
{
	auto ka = a.kind, kb = b.kind;
	if (!strictEnum)
	{
		if (ka == JV::Enum)
			ka = JV::String;
		if (kb == JV::Enum)
			kb = JV::String;
	}
	if (ka != kb)
	{
		return false;
	}
	switch (ka)
	{
		case JV::Null:
			return true;
		case JV::Bool:
			return a.b == b.b;
		case JV::Int:
			return a.i == b.i;
		case JV::Float:
			return g_ulps ? closeDouble(a.f, b.f, g_ulps) : sameDouble(a.f, b.f);
		case JV::String:
		case JV::Enum:
			return a.s == b.s;
		case JV::List:
		case JV::Scalar:
			if (a.list.size() != b.list.size())
				return false;
			for (size_t i = 0; i < a.list.size(); ++i)
				if (!equal(a.list[i], b.list[i], strictEnum))
					return false;
			return true;
		case JV::Map:
			if (a.map.size() != b.map.size())
				return false;
			for (size_t i = 0; i < a.map.size(); ++i)
				if (a.map[i].first != b.map[i].first
					|| !equal(a.map[i].second, b.map[i].second, strictEnum))
					return false;
			return true;
	}
	return false;
}

// As equal, but members of maps may come in any order.
inline bool equalUnordered(const JV& a, const JV& b, bool strictEnum = true)
{
	if (a.kind == JV::Map && b.kind == JV::Map)
	{
		if (a.map.size() != b.map.size())
			return false;
		for (const auto& [n, v] : a.map)
		{
			const auto* o = b.find(n);
			if (!o || !equalUnordered(v, *o, strictEnum))
				return false;
		}
		return true;
	}
	if (a.kind == b.kind && (a.kind == JV::List || a.kind == JV::Scalar))
	{
		if (a.list.size() != b.list.size())
			return false;
		for (size_t i = 0; i < a.list.size(); ++i)
			if (!equalUnordered(a.list[i], b.list[i], strictEnum))
				return false;
		return true;
	}
	return equal(a, b, strictEnum);
}

std::string utf8(uint32_t cp);
std::string formatDouble(double d);
std::string show(const JV& v); // JSON-like; enums bare, scalars as <..>
std::string writeJson(const JV& v);
// Independent strict JSON reader (RFC 8259). Integers without fraction or exponent become Int.
bool readJson(std::string_view text, JV& out, std::string& error);
bool validUtf8(std::string_view text);

JV fromValue(const graphql::response::Value& value);
graphql::response::Value toValue(const JV& v);

} // namespace h
