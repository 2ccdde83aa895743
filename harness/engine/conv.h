// Hands data out through ModifiedResult with every combination of modifiers.
#pragma once

#include "exec.h"

#include <typeinfo>

namespace h {

namespace svc = graphql::service;
namespace resp = graphql::response;
using TM = svc::TypeModifier;

template <typename T>
struct Leaf; // static T get(const Datum&)

template <typename T, TM... Mods>
struct Build;

template <typename T>
struct Build<T>
{
	static auto get(const Delivery& d, const Datum& v)
	{
		return Leaf<T>::get(d, v);
	}
};

template <typename T, TM... Rest>
struct Build<T, TM::Nullable, Rest...>
{
	using V = typename svc::ModifiedResult<T>::template ResultTraits<T, TM::Nullable, Rest...>::type;
	static V get(const Delivery& d, const Datum& v)
	{
		if (v.kind == Datum::Null)
			return V {};
		return V { Build<T, Rest...>::get(d, v) };
	}
};

template <typename T, TM... Rest>
struct Build<T, TM::List, Rest...>
{
	using V = typename svc::ModifiedResult<T>::template ResultTraits<T, TM::List, Rest...>::type;
	static V get(const Delivery& d, const Datum& v)
	{
		V r;
		for (const auto& e : v.list)
			r.push_back(Build<T, Rest...>::get(d, e));
		return r;
	}
};

[[noreturn]] void raise(const Outcome& o);

template <typename T, TM... Mods>
Result deliver(Delivery&& d, Params&& params)
{
	using V = typename svc::ModifiedResult<T>::template ResultTraits<T, Mods...>::type;
	const auto convert = [&params](auto&& value) -> Result {
		svc::FieldResult<V> result { std::forward<decltype(value)>(value) };
		if constexpr (sizeof...(Mods) == 0)
			return svc::ModifiedResult<T>::convert(std::move(result), std::move(params));
		else
			return svc::ModifiedResult<T>::template convert<Mods...>(std::move(result), std::move(params));
	};
	const auto kind = d.outcome.kind;
	if (kind == Outcome::Schema || kind == Outcome::Standard)
	{
		if (d.finished)
			d.finished();
		raise(d.outcome);
	}
	const auto mode = d.outcome.mode;
	const auto yields = d.outcome.yields;
	auto world = d.world;
	auto make = [d = std::move(d)]() -> V {
		const auto done = [&d] {
			if (d.finished)
				d.finished();
		};
		if (d.outcome.kind != Outcome::Ok)
		{
			done();
			raise(d.outcome);
		}
		V v = Build<T, Mods...>::get(d, d.datum);
		done();
		return v;
	};
	const auto slow = [yields] {
		for (unsigned i = 0; i < yields; ++i)
			std::this_thread::yield();
	};
	switch (mode)
	{
		case Mode::Deferred: return convert(std::async(std::launch::deferred, std::move(make)));
		case Mode::Async:
			return convert(std::async(std::launch::async, [make = std::move(make), slow]() -> V {
				slow();
				return make();
			}));
		case Mode::Ready:
		{
			std::promise<V> p;
			try
			{
				p.set_value(make());
			}
			catch (...)
			{
				p.set_exception(std::current_exception());
			}
			return convert(p.get_future());
		}
		case Mode::Promised:
		{
			auto p = std::make_shared<std::promise<V>>();
			auto f = p->get_future();
			world->completer->add([p, make = std::move(make)] {
				try
				{
					p->set_value(make());
				}
				catch (...)
				{
					p->set_exception(std::current_exception());
				}
			});
			return convert(std::move(f));
		}
		default: return convert(make());
	}
}

template <typename T>
Result dispatch(const TypeRef& t, Delivery&& d, Params&& p)
{
	const auto N = TM::Nullable;
	const auto L = TM::List;
	unsigned key = 0; // nullability from the outside in
	for (auto nn : t.lists)
		key = key * 2 + (nn ? 0 : 1);
	key = key * 2 + (t.nonNull ? 0 : 1);
	switch (t.lists.size() * 8 + key)
	{
		case 0: return deliver<T>(std::move(d), std::move(p));
		case 1: return deliver<T, N>(std::move(d), std::move(p));
		case 8: return deliver<T, L>(std::move(d), std::move(p));
		case 9: return deliver<T, L, N>(std::move(d), std::move(p));
		case 10: return deliver<T, N, L>(std::move(d), std::move(p));
		case 11: return deliver<T, N, L, N>(std::move(d), std::move(p));
		case 16: return deliver<T, L, L>(std::move(d), std::move(p));
		case 17: return deliver<T, L, L, N>(std::move(d), std::move(p));
		case 18: return deliver<T, L, N, L>(std::move(d), std::move(p));
		case 19: return deliver<T, L, N, L, N>(std::move(d), std::move(p));
		case 20: return deliver<T, N, L, L>(std::move(d), std::move(p));
		case 21: return deliver<T, N, L, L, N>(std::move(d), std::move(p));
		case 22: return deliver<T, N, L, N, L>(std::move(d), std::move(p));
		case 23: return deliver<T, N, L, N, L, N>(std::move(d), std::move(p));
		default: throw std::logic_error("unsupported type " + t.text());
	}
}

} // namespace h
