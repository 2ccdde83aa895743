// Clients generated from a schema text and a request document: what the generator is given, what its
// output has to do, and what the adapters (written by programs/clientemit.cpp) are made of.
#pragma once

#include "exec.h"
#include "sdl.h"

#include <optional>
#include <type_traits>

namespace h {

struct ClientInput
{
	GenInput schema;
	Doc doc;
	size_t op = 0;
	std::vector<std::string> flags;
};
// Everything decided by the seed.
ClientInput genClient(uint64_t seed);
// Without compiled the names are not limited to what C++ can tell apart.
ClientInput genClient(Src& src, const std::string& serial, bool compiled);

// The fields of a selection as a response shows them, whatever the type of the object.
struct Shape
{
	std::string response;
	TypeRef type; // as the client declares it
	std::vector<Shape> sub;
};
std::vector<Shape> shapeOf(const MSchema& m, const Doc& doc, const std::string& type, const std::vector<Sel>& sels);
const std::string& rootOf(const MSchema& m, const Op& op);
// The source file which runs a generated client.
std::string emitClient(const ClientInput& c, const std::string& header, uint64_t seed);

struct ClientCase
{
	uint64_t seed = 0;
	std::string (*text)();
	std::string (*object)(); // the tree of the request object
	JV (*variables)(const JV& set);
	JV (*parse)(const JV& data);
};
std::vector<ClientCase>& clientCases();
struct RegisterClient
{
	explicit RegisterClient(ClientCase&& c)
	{
		clientCases().push_back(std::move(c));
	}
};

std::string treeOf(const graphql::peg::ast& ast);

// ---------------------------------------------------------------- members

template <typename T>
struct IsOptional : std::false_type
{
};
template <typename T>
struct IsOptional<std::optional<T>> : std::true_type
{
};
template <typename T>
struct IsList : std::false_type
{
};
template <typename T>
struct IsList<std::vector<T>> : std::bool_constant<!std::is_same_v<T, uint8_t>> // identifiers are bytes
{
};

template <typename T, typename F>
JV dumpMember(const T& v, const F& f)
{
	if constexpr (IsOptional<T>::value)
		return v ? dumpMember(*v, f) : JV::null();
	else if constexpr (IsList<T>::value)
	{
		JV r = JV::makeList();
		for (const auto& e : v)
			r.list.push_back(dumpMember<typename T::value_type>(e, f));
		return r;
	}
	else
		return f(v);
}

template <typename T, typename F>
void setMember(T& member, const JV& v, const F& f)
{
	if constexpr (IsOptional<T>::value)
	{
		if (v.isNull())
			member.reset();
		else
		{
			typename T::value_type inner {};
			setMember(inner, v, f);
			member = std::make_optional(std::move(inner));
		}
	}
	else if constexpr (IsList<T>::value)
	{
		for (const auto& e : v.list)
		{
			typename T::value_type inner {};
			setMember(inner, e, f);
			member.push_back(std::move(inner));
		}
	}
	else
		f(member, v);
}

inline JV dumpInt(const int& v)
{
	return JV::integer(v);
}
inline JV dumpFloat(const double& v)
{
	return JV::real(v);
}
inline JV dumpString(const std::string& v)
{
	return JV::string(v);
}
inline JV dumpBoolean(const bool& v)
{
	return JV::boolean(v);
}
inline JV dumpID(const graphql::response::IdType& v)
{
	return JV::string(encodeBase64({ v.begin(), v.end() }));
}
inline JV dumpScalar(const graphql::response::Value& v)
{
	return fromValue(v);
}
inline void setInt(int& m, const JV& v)
{
	m = static_cast<int>(v.i);
}
inline void setFloat(double& m, const JV& v)
{
	m = v.kind == JV::Int ? static_cast<double>(v.i) : v.f;
}
inline void setString(std::string& m, const JV& v)
{
	m = v.s;
}
inline void setBoolean(bool& m, const JV& v)
{
	m = v.b;
}
inline void setID(graphql::response::IdType& m, const JV& v)
{
	std::string bytes;
	decodeBase64(v.s, bytes);
	m.assign(bytes.begin(), bytes.end());
}
inline void setScalar(graphql::response::Value& m, const JV& v)
{
	m = toValue(v);
}

} // namespace h
