// What the implementations of generated services (written by checks/genemit.cpp) are made of.
#pragma once

#include "exec.h"
#include "sdl.h"

#include <optional>

namespace h {

struct GenService
{
	std::shared_ptr<graphql::service::Request> request;
	std::shared_ptr<graphql::schema::Schema> schema;
	std::map<std::string, std::shared_ptr<graphql::service::Object>> roots;
};

struct GenCase
{
	std::string name;
	uint64_t seed = 0; // of the model
	GenService (*make)(const std::shared_ptr<World>&);
};
std::vector<GenCase>& genCases();
struct RegisterGen
{
	explicit RegisterGen(GenCase&& c)
	{
		genCases().push_back(std::move(c));
	}
};


// ---------------------------------------------------------------- arguments

template <typename T>
struct ToJV; // specialised for enums and input types

template <>
struct ToJV<int>
{
	static JV get(int v)
	{
		return JV::integer(v);
	}
};
template <>
struct ToJV<double>
{
	static JV get(double v)
	{
		return JV::real(v);
	}
};
template <>
struct ToJV<bool>
{
	static JV get(bool v)
	{
		return JV::boolean(v);
	}
};
template <>
struct ToJV<std::string>
{
	static JV get(const std::string& v)
	{
		return JV::string(v);
	}
};
template <>
struct ToJV<graphql::response::IdType>
{
	static JV get(const graphql::response::IdType& v)
	{
		JV r;
		r.kind = JV::Scalar;
		r.list.push_back(JV::string(std::string { v.begin(), v.end() }));
		return r;
	}
};
template <>
struct ToJV<graphql::response::Value>
{
	static JV get(const graphql::response::Value& v)
	{
		return fromValue(v);
	}
};
template <typename T>
struct ToJV<std::optional<T>>
{
	static JV get(const std::optional<T>& v)
	{
		return v ? ToJV<T>::get(*v) : JV::null();
	}
};
template <typename T>
struct ToJV<std::vector<T>>
{
	static JV get(const std::vector<T>& v)
	{
		JV r = JV::makeList();
		for (size_t i = 0; i < v.size(); ++i)
			r.list.push_back(ToJV<T>::get(v[i]));
		return r;
	}
};
template <typename T>
JV toJV(const T& v)
{
	return ToJV<T>::get(v);
}

// ---------------------------------------------------------------- results

using WorldPtr = std::shared_ptr<World>;

template <typename T>
struct FromDatum; // specialised for enums

template <>
struct FromDatum<int>
{
	static int get(const WorldPtr&, const Datum& d)
	{
		return static_cast<int>(d.leaf.i);
	}
};
template <>
struct FromDatum<double>
{
	static double get(const WorldPtr&, const Datum& d)
	{
		return d.leaf.kind == JV::Int ? static_cast<double>(d.leaf.i) : d.leaf.f;
	}
};
template <>
struct FromDatum<bool>
{
	static bool get(const WorldPtr&, const Datum& d)
	{
		return d.leaf.b;
	}
};
template <>
struct FromDatum<std::string>
{
	static std::string get(const WorldPtr&, const Datum& d)
	{
		return d.leaf.s;
	}
};
template <>
struct FromDatum<graphql::response::IdType>
{
	static graphql::response::IdType get(const WorldPtr&, const Datum& d)
	{
		const auto& s = d.leaf.list.at(0).s;
		return { s.begin(), s.end() };
	}
};
template <>
struct FromDatum<graphql::response::Value>
{
	static graphql::response::Value get(const WorldPtr&, const Datum& d)
	{
		return toValue(d.leaf);
	}
};
template <typename T>
struct FromDatum<std::shared_ptr<T>>
{
	static std::shared_ptr<T> get(const WorldPtr& w, const Datum& d)
	{
		if (d.kind != Datum::Object)
			return nullptr;
		auto r = std::dynamic_pointer_cast<T>(w->objects(w, d.type, d.id, d.depth));
		if (!r)
			throw std::logic_error("object of the wrong type");
		return r;
	}
};
template <typename T>
struct FromDatum<std::optional<T>>
{
	static std::optional<T> get(const WorldPtr& w, const Datum& d)
	{
		if (d.kind == Datum::Null)
			return std::nullopt;
		return std::make_optional<T>(FromDatum<T>::get(w, d));
	}
};
template <typename T>
struct FromDatum<std::vector<T>>
{
	static std::vector<T> get(const WorldPtr& w, const Datum& d)
	{
		std::vector<T> r;
		for (const auto& e : d.list)
			r.push_back(FromDatum<T>::get(w, e));
		return r;
	}
};

// ---------------------------------------------------------------- accessors

// Records the call and decides what happens.
struct Answer
{
	WorldPtr world;
	Outcome outcome;
	Datum datum;
};
Answer enter(const WorldPtr& world, const char* type, uint64_t id, size_t depth, const char* field, const graphql::service::FieldParams& params, std::vector<std::pair<std::string, JV>>&& typed);
[[noreturn]] void raise(const Outcome& o);

template <typename T>
graphql::service::FieldResult<T> answer(Answer&& a)
{
	if (a.outcome.kind == Outcome::Schema || a.outcome.kind == Outcome::Standard)
		raise(a.outcome);
	const auto mode = a.outcome.mode;
	auto make = [a = std::move(a)]() -> T {
		if (a.outcome.kind != Outcome::Ok)
			raise(a.outcome);
		return FromDatum<T>::get(a.world, a.datum);
	};
	if (mode == Mode::Value)
		return { make() };
	if (mode == Mode::Deferred)
		return { std::async(std::launch::deferred, std::move(make)) };
	std::promise<T> p;
	try
	{
		p.set_value(make());
	}
	catch (...)
	{
		p.set_exception(std::current_exception());
	}
	return { p.get_future() };
}

} // namespace h
